"""Random test functions whose behaviour depends only on what they draw.  Every execution
is logged as (values, outcome), so a monitor can compare what the engine reports, replays
and stores with what really happened."""
import random

from hypothesis import assume, event, given, note, reject, seed, settings, strategies as st, target
from hypothesis.control import current_build_context
from hypothesis.errors import StopTest, UnsatisfiedAssumption

from hypothesis.internal.conjecture.choice import choice_to_index

from hv.trees import canon, deep_mutate, leaf, tree
from hv.util import FIRED, call, stable_hash, time_limit


class ErrA(Exception):
    pass


class ErrB(ErrA):
    pass


def f0(m): raise ErrA(m)
def f1(m): raise ErrB(m)
def f2(m): assert False, m
def f3(m): raise ValueError(m)


def f4(m):
    try:
        raise KeyError("inner")
    except KeyError as e:
        raise ErrA(m) from e


def f5(m):
    try:
        raise KeyError("inner")
    except KeyError:
        raise ErrB(m)


def f6(m): raise ExceptionGroup(m, [ErrA("x"), ErrB("y")])
def f7(m): return [][len(m)]
def f8(m): return {}[m]
def f9(m): raise (ErrA if len(m) % 2 else ValueError)(m)
def f10(m): raise RuntimeError(m)
def f11(m): raise TypeError(m)


FAILURES = [f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11]


def origin(exc):
    """What distinguishes failures: the type and the line which raised (and what it was
    raised from), for the failures above."""
    tb = exc.__traceback__
    line = None
    while tb is not None:
        if tb.tb_frame.f_code.co_filename == __file__:
            line = tb.tb_lineno
        tb = tb.tb_next
    return (type(exc).__name__, line)


def text(v):
    """repr, but the same for any order of a frozenset."""
    if type(v) is frozenset:
        return "{" + ",".join(sorted(map(text, v))) + "}"
    if type(v) in (tuple, list):
        return "(" + ",".join(map(text, v)) + ",)"
    return repr(v)


class Exec:
    __slots__ = ("vals", "out", "exc", "origin", "nodes", "discards")

    def __init__(self, vals):
        self.vals, self.out, self.exc, self.origin, self.nodes, self.discards = vals, "running", None, None, (), False

    @property
    def choices(self):
        return tuple(n.value for n in self.nodes)

    @property
    def complexity(self):
        """Fewer choices are simpler; then simpler values, earlier ones first."""
        return (len(self.nodes), tuple(choice_to_index(n.value, n.constraints) for n in self.nodes))

    def __repr__(self):
        return f"<{self.vals!r} {self.out} {self.exc!r}>"

    def __eq__(self, o):
        return (self.vals, self.out, repr(self.exc)) == (o.vals, o.out, repr(o.exc))


class Program:
    """One deterministic test.  `fail` and `reject` are the shares of inputs (by hash) which
    do so; `nfail` how many distinct failures there are."""

    def __init__(self, rng, nargs=None, interactive=None, nfail=None, fail=None, rejectp=None,
                 finite=False, depth=None, randoms=None, targets=None, mutate=None, notes=None, globalrandom=False):
        pick = lambda v, choices: rng.choice(choices) if v is None else v  # noqa
        self.salt = rng.getrandbits(32)
        depth = pick(depth, [0, 1, 1, 2])
        self.nodes = [tree(rng, depth, finite=finite) for _ in range(pick(nargs, [1, 1, 2, 3]))]
        self.interactive = pick(interactive, [0, 0, 1, 3])
        self.inner = [tree(rng, 1, finite=finite) for _ in range(self.interactive)]
        self.randoms = pick(randoms, [False, False, False, True])
        self.nfail = pick(nfail, [0, 1, 1, 2, 3, 5])
        self.fails = rng.sample(FAILURES, self.nfail)
        self.failp = pick(fail, [0.02, 0.1, 0.3, 0.9, 1.0]) if self.nfail else 0
        self.rejectp = pick(rejectp, [0, 0, 0, 0.1, 0.4])
        self.targets = pick(targets, [0, 0, 0, 1, 2])
        self.mutate = pick(mutate, [False, False, True])
        self.notes = pick(notes, [False, True])
        self.globalrandom = globalrandom
        self.reject_late = rng.random() < 0.5
        self.desc = f"Program({[n.desc for n in self.nodes]}, inner={[n.desc for n in self.inner]}, " \
                    f"randoms={self.randoms}, fails={[f.__name__ for f in self.fails]}@{self.failp}, reject={self.rejectp}, " \
                    f"targets={self.targets})"

    def decide(self, vals):
        """('pass'|'reject'|index of failure) for these values."""
        h = stable_hash(f"{self.salt}{text(vals)}") % 10_000
        if h < self.rejectp * 10_000:
            return "reject"
        h = stable_hash(f"f{self.salt}{text(vals)}") % 10_000
        if h < self.failp * 10_000:
            return stable_hash(f"w{self.salt}{text(vals)}") % self.nfail
        return "pass"

    def body(self, log, args, data, rnd):
        vals = [canon(a) for a in args]
        ex = Exec(vals)
        log.append(ex)
        try:
            if self.mutate:
                for a in args:
                    deep_mutate(a)
            if self.rejectp and not self.reject_late and self.decide(vals) == "reject":
                assume(False)
            if data is not None:
                n = stable_hash(f"n{self.salt}{text(vals)}") % (self.interactive + 1)
                for i in range(n):
                    v = data.draw(self.inner[(i + stable_hash(text(vals))) % self.interactive])
                    vals.append(canon(v))
            if rnd is not None:
                vals.append(("rnd", rnd.randint(0, 3), rnd.choice("abc")))
                if self.salt % 2:
                    vals.append(("rnd", rnd.random(), rnd.sample(range(5), 2)))
            if self.globalrandom:
                vals.append(("global", random.random(), random.randint(0, 9)))
            if self.notes:
                note(f"n{len(vals)}")
                event(f"e{len(vals)}")
            for i in range(self.targets):
                target(float(stable_hash(f"t{i}{text(vals)}") % 1000), label=f"t{i}")
            d = self.decide(vals)
            if d == "reject":
                ex.out = "reject"
                if self.salt % 3:
                    assume(False)
                reject()
            if d == "pass":
                ex.out = "pass"
                return
            self.fails[d]("xy"[: 1 + stable_hash(text(vals)) % 2])
        except UnsatisfiedAssumption:
            ex.out = "reject"
            raise
        except (StopTest,) as e:
            ex.out = "stop"
            raise
        except (Exception, ExceptionGroup) as e:
            ex.out, ex.exc, ex.origin = "fail", e, origin(e)
            raise
        finally:
            ex.nodes = tuple(current_build_context().data.nodes)
            ex.discards = current_build_context().data.has_discards

    def make(self, log, setts, sd=None, name=None, decorate=None):
        """The decorated test; it appends to `log`."""
        kw = {f"a{i}": n.strategy for i, n in enumerate(self.nodes)}
        if self.interactive:
            kw["data"] = st.data()
            for i, n in enumerate(self.inner):
                self.inner[i] = getattr(n, "strategy", n)
        if self.randoms:
            kw["rnd"] = st.randoms(use_true_random=False)
        prog = self
        nargs = len(self.nodes)

        def call(**k):
            return prog.body(log, [k[f"a{i}"] for i in range(nargs)], k.get("data"), k.get("rnd"))
        ns = {"call": call}
        sig = ", ".join(kw)
        exec(f"def {name or 'test'}({sig}):\n    return call({', '.join(f'{q}={q}' for q in kw)})\n", ns)
        t = ns[name or "test"]
        if decorate is not None:
            t = decorate(t)
        t = given(**kw)(t)
        if sd is not None:
            t = seed(sd)(t)
        return setts(t)


def failures(log):
    """{origin: [executions]} of everything in the log that failed."""
    d = {}
    for ex in log:
        if ex.out == "fail":
            d.setdefault(ex.origin, []).append(ex)
    return d


def leaves(exc, log):
    """The failures a test run reports: the one exception, or those of the group Hypothesis
    made (a group raised by the test itself counts as one)."""
    if isinstance(exc, BaseExceptionGroup) and not any(x.exc is exc for x in log):
        return list(exc.exceptions)
    return [exc]


def run_for(limit, f):
    """The outcome of f, or None if it takes longer than we want to wait."""
    with time_limit(limit):
        o = call(f)
        if FIRED:
            return None
    return None if FIRED else o
