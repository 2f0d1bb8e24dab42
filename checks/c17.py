"""C17: no observed failure is lost and every reported failure is real."""
import copy
import unittest

import hypothesis
from hypothesis import HealthCheck, Phase, assume, example, given, settings, strategies as st
from hypothesis.errors import Flaky, StopTest, Unsatisfiable, UnsatisfiedAssumption
from hypothesis.stateful import RuleBasedStateMachine, invariant, precondition, rule, run_state_machine_as_test

from hv.programs import Program, failures, leaves, origin, run_for, text
from hv.trees import canon
from hv.util import FeedDatabase, HvFail, HvFail2, S, call, stable_hash, time_limit

INFO = dict(
    technique="runtime monitoring: every exception leaving the test body is logged by identity, and the exception(s) a "
              "run ends with are compared with that log by type, raising line and object identity",
    level="exploration",
    rule="One evaluation = one run whose ending was compared with the failures it had. Non-trivial = distinct "
         "(program, failures seen, ending).",
    floors={"runs": 250, "failing": 150, "several": 30, "passing": 20, "odd": 60, "exits": 20, "machines": 10},
)
KINDS = ["prog0", "prog1", "prog2", "prog3", "odd", "exits", "hooks", "machine"]


def units(tier, seed):
    reps = 1 if tier == "quick" else 10
    return [dict(name=f"{k}-{i}", kind=k, timeout=800) for i in range(reps) for k in KINDS]


def phases(rng):
    return rng.choice([list(Phase), [Phase.generate], [Phase.generate, Phase.shrink], [Phase.reuse, Phase.generate, Phase.shrink],
                       [Phase.explicit, Phase.generate, Phase.target, Phase.shrink], [Phase.generate, Phase.shrink, Phase.explain]])


def k_prog(rec):
    rng = rec.rng
    for _ in rec.loop(150 if rec.quick else 5000):
        prog = Program(rng, nfail=rng.choice([0, 1, 2, 3, 5]), depth=rng.choice([0, 0, 1]))
        multi = rng.random() < 0.7
        ph = phases(rng)
        db = FeedDatabase()
        log = []
        verb = rng.choice(list(hypothesis.Verbosity))
        o = run_for(2, prog.make(log, S(max_examples=rng.choice([1, 10, 60]), phases=ph, report_multiple_bugs=multi, database=db,
                                        verbosity=verb), rng.getrandbits(30)))
        if o is None:
            rec.count("slow")
            continue
        rec.count("runs")
        fs = failures(log)
        rec.observed((prog.salt, repr(sorted(map(repr, fs)))))
        ctx = f"{prog.desc} phases={[p.name for p in ph]} multi={multi}: saw {sorted(map(repr, fs))} in {len(log)} executions"
        if not fs:
            rec.count("passing")
            rec.check(o.exc is None or isinstance(o.exc, Unsatisfiable) and not any(x.out == "pass" for x in log),
                      "bogus", f"{ctx}; ended with {o.exc!r}")
            continue
        rec.count("failing")
        if not rec.check(o.exc is not None, "lost", f"{ctx}; the run passes"):
            continue
        rep = leaves(o.exc, log)
        for e in rep:
            mine = [x for x in log if x.exc is e]
            rec.check(len(mine) == 1, "unreal", f"{ctx}; {e!r} was raised by {len(mine)} executions")
            rec.check(not e.__suppress_context__ or e.__cause__ is not None or e.__context__ is None, "context", f"{e!r}")
        got = [repr(x.origin) for e in rep for x in log if x.exc is e]
        rec.check(len(set(got)) == len(got), "repeated", f"{ctx}; reported {got}")
        if multi and Phase.shrink in ph or len(fs) == 1:
            rec.check(set(got) == set(map(repr, fs)), "not-all", f"{ctx}; reported {got}")
        rec.check(set(got) <= set(map(repr, fs)) and got, "unseen", f"{ctx}; reported {got}")
        rec.check(multi or len(got) == 1, "more-than-one", f"{ctx}; reported {got}")
        if len(got) > 1:
            rec.count("several")
            rec.check(f"{len(got)} distinct failures" in str(o.exc), "group-message", f"{o.exc!r}")
        else:
            rec.check(any(x.exc is o.exc for x in log), "wrapped", f"{ctx}; ended with {o.exc!r}")
        # what it says about itself
        for e in rep if verb != hypothesis.Verbosity.quiet else ():
            notes = "\n".join(getattr(e, "__notes__", ())) + "\n".join(getattr(o.exc, "__notes__", ()))
            rec.check("Falsifying example" in notes or "Falsifying example" in o.out, "no-example", f"{ctx}: {notes!r}")


class NoNotes(Exception):
    def __setattr__(self, k, v):
        if k in ("__notes__", "note"):
            raise AttributeError(k)
        super().__setattr__(k, v)


class Equal(Exception):
    def __eq__(self, o):
        return True

    def __hash__(self):
        return 0


class EqRaises(Exception):
    def __eq__(self, o):
        raise ValueError("eq")

    def __hash__(self):
        raise ValueError("hash")


class StrRaises(Exception):
    def __str__(self):
        raise ValueError("str")

    def __repr__(self):
        raise ValueError("repr")


class Slots(Exception):
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b


class FalseGroup(ExceptionGroup):
    def __bool__(self):
        return False


class Falsy(Exception):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


ONE = HvFail("always the same object")
LOOP = HvFail("in a loop of contexts")
LOOP2 = HvFail2("the other one")
LOOP.__context__, LOOP2.__context__ = LOOP2, LOOP


def r_one(v): raise ONE
def r_loop(v): raise LOOP
def r_nonotes(v): raise NoNotes(v)
def r_equal(v): raise Equal(v)
def r_eqraises(v): raise EqRaises(v)
def r_str(v): raise StrRaises(v)
def r_slots(v): raise Slots(v, v)
def r_falsy(v): raise Falsy(v)
def r_falsegroup(v): raise FalseGroup("g", [HvFail(v)])
def r_group(v): raise ExceptionGroup("g", [HvFail(v), ExceptionGroup("h", [HvFail2(v), Equal(v)])])
def r_notb(v): raise HvFail(v).with_traceback(None)
def r_none(v): raise HvFail(v) from None
def r_self(v):
    e = HvFail(v)
    e.__cause__ = e
    raise e
def r_stop(v): raise StopIteration(v)
def r_astop(v): raise StopAsyncIteration(v)
def r_mem(v): raise MemoryError(v)
def r_rec(v): return r_rec(v)
def r_zero(v): return v / 0
def r_key(v): return {}[v]
def r_assert(v): assert v is object(), v
def r_sys(v): raise SystemExit(v)
def r_gen(v): raise GeneratorExit(v)
def r_import(v): import hv_no_such_module  # noqa
def r_name(v): return hv_no_such_name  # noqa
def r_warn(v): raise DeprecationWarning(v)
def r_os(v): raise FileNotFoundError(2, "x", "y")
def r_uni(v): return "\ud800".encode()
def r_syntax(v): compile("a b", "<hv>", "exec")
def r_invalid(v): st.integers(max_value="x").validate()
def r_unsat(v): raise Unsatisfiable("by the test itself")
def r_flaky(v): raise Flaky("by the test itself")
def r_type(v): return len(v)
def r_eval(v): eval("1/0", {"__name__": "x"})
def r_exec(v): exec("def f():\n raise KeyError('k')\nf()", {})
def r_hyp(v): raise hypothesis.errors.NoSuchExample("cond")
def r_ctx(v):
    try:
        raise HvFail(v)
    finally:
        raise HvFail2(v)
def r_star(v):
    try:
        raise ExceptionGroup("a", [ValueError(), KeyError()])
    except* ValueError:
        raise HvFail(v)
def r_notes(v):
    e = HvFail(v)
    e.add_note("mine")
    raise e
def r_genthrow(v):
    def g():
        yield
    g().throw(HvFail(v))
def r_close(v):
    def g():
        try:
            yield
        finally:
            raise HvFail(v)
    x = g()
    next(x)
    x.close()
def r_nested(v):
    @S(max_examples=2, phases=[Phase.generate])
    @given(st.just(v))
    def inner(w):
        raise HvFail(w)
    inner()
def r_cause(v):
    try:
        {}[v]
    except KeyError as e:
        raise HvFail(v) from e
def r_thread(v):
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(1) as p:
        p.submit(r_zero, 1).result()


ODD = [f for n, f in sorted(globals().items()) if n.startswith("r_")]


def k_odd(rec):
    """Exceptions which are awkward to handle are still what the run ends with."""
    rng = rec.rng
    for f in (ODD * (1 if rec.quick else 8)):
        for first in (True, False):
            raised = []
            k = rng.choice([3, 4, 5])
            call_f = f

            def body(v):
                if not first and stable_hash(repr(v)) % k:
                    return
                try:
                    call_f(v)
                except BaseException as e:
                    raised.append(e)
                    raise
            t = given(st.integers(0, 100))(body)
            ph = phases(rng)
            with time_limit(10):
                o = call(settings(S(max_examples=30, phases=ph, print_blob=rng.random() < 0.5, report_multiple_bugs=rng.random() < 0.5))(t))
            if type(o.exc).__name__ == "OutOfTime":
                continue
            rec.count("odd")
            rec.count("runs")
            rec.observed((f.__name__, first))
            if not raised:
                continue
            rec.count("failing")
            if f in (r_rec, r_flaky) and isinstance(o.exc, Flaky):
                continue
            rec.check(any(o.exc is e for e in raised), "odd-lost",
                      f"{f.__name__} (first={first}, phases={[p.name for p in ph]}) was raised {len(raised)} times, "
                      f"but the run ended with {type(o.exc).__name__}: {str(o.exc)[:300] if f is not r_str else ''}")
    # two which compare equal are still two
    for a, b in [(r_equal, r_key), (r_zero, r_key), (r_eqraises, r_equal), (r_nonotes, r_falsy), (r_group, r_falsegroup), (r_slots, r_none)]:
        raised = []

        @S(max_examples=60, phases=[Phase.generate, Phase.shrink])
        @given(st.integers(0, 100))
        def t(v):
            if v < 50:
                return
            try:
                (a if v % 2 else b)(v)
            except BaseException as e:
                raised.append(e)
                raise
        with time_limit(10):
            o = call(t)
        rec.count("odd")
        rec.count("runs")
        types = {type(e) for e in raised}
        if len(types) < 2:
            continue
        rec.count("several")
        es = o.exc.exceptions if isinstance(o.exc, ExceptionGroup) else [o.exc]
        rec.check(sorted(map(lambda e: type(e).__name__, es)) == sorted(c.__name__ for c in types), "odd-pair",
                  f"{a.__name__}, {b.__name__}: ended with {type(o.exc)}")
        rec.check(all(any(e is r for r in raised) for e in es), "odd-pair-real", f"{a.__name__}, {b.__name__}")


class Own(BaseException):
    pass


def k_exits(rec):
    """Skips, interrupts and exits propagate unchanged, at once."""
    rng = rec.rng
    import _pytest.outcomes as po
    makers = [KeyboardInterrupt, unittest.SkipTest, lambda: Own("own"), lambda: po.Skipped("s"), lambda: BaseExceptionGroup("g", [KeyboardInterrupt()])]
    for _ in rec.loop(60 if rec.quick else 1500):
        mk = rng.choice(makers)
        at = rng.choice([1, 1, 2, 7, 20])
        where = rng.choice(["body", "draw", "filter"])
        state = {"n": 0, "e": None}
        also = rng.random() < 0.3

        def tick(v):
            state["n"] += 1
            if state["n"] == at:
                state["e"] = mk()
                raise state["e"]
            if state["e"] is not None:
                state["after"] = True
            return True
        s = st.integers()
        if where == "draw":
            s = s.map(tick)
        elif where == "filter":
            s = s.filter(tick)

        @S(max_examples=40, phases=phases(rng), report_multiple_bugs=rng.random() < 0.5)
        @given(s)
        def t(v):
            if where == "body":
                tick(v)
            if also and state["n"] > 3:
                state["failed"] = True
                raise HvFail
        o = call(t)
        rec.count("exits")
        rec.count("runs")
        rec.observed((at, where, also, repr(mk())[:20]))
        if state["e"] is None:
            continue
        if "failed" in state and isinstance(state["e"], (unittest.SkipTest, po.Skipped)) and isinstance(o.exc, Flaky):
            continue  # what failed before is skipped when replayed for the report
        rec.check(o.exc is state["e"] and "after" not in state, "exit", f"{state['e']!r} at {at} in {where}, with failures {also}: {o.exc!r}, "
                                                                  f"ran on: {'after' in state}")


def k_hooks(rec):
    """Failures in setup, teardown, executors, explicit examples and nested tests."""
    rng = rec.rng
    for _ in rec.loop(120 if rec.quick else 3000):
        where = rng.choice(["setup_example", "teardown_example", "execute_example", "body", "cleanup", "async"])
        raised, ran = [], []
        thresh = rng.choice([1, 2, 5])
        f = rng.choice([r_zero, r_key, r_none, r_group, r_assert, r_slots])

        def boom(v):
            try:
                f(v)
            except BaseException as e:
                raised.append(e)
                raise

        class T(unittest.TestCase):
            v = None

            @S(max_examples=20, phases=phases(rng))
            @given(st.integers(0, 40))
            def test(self, v):
                ran.append(v)
                self.v = v
                if where == "cleanup":
                    hypothesis.strategies  # noqa
                    from hypothesis.control import cleanup

                    @cleanup
                    def c():
                        if stable_hash(str(v)) % thresh == 0:
                            boom(v)
                if where == "body" and stable_hash(str(v)) % thresh == 0:
                    boom(v)
        if where == "setup_example":
            T.setup_example = lambda self: boom(0)
        elif where == "teardown_example":
            T.teardown_example = lambda self, v: boom(0)
        elif where == "execute_example":
            def ex(self, fn):
                r = fn()
                if stable_hash(str(self.v)) % thresh == 0:
                    boom(0)
                return r
            T.execute_example = ex
        elif where == "async":
            continue
        o = call(T("test").test)
        rec.count("runs")
        rec.count("odd")
        rec.observed((where, thresh, f.__name__, repr(ran)))
        if not raised:
            rec.check(o.exc is None, "hook-bogus", f"{where}: {o.exc!r}")
            continue
        rec.count("failing")
        es = [o.exc]
        rec.check(o.exc is not None, "hook-lost", f"{f.__name__} in {where}: the run passes")
        seen, todo = set(), [o.exc]
        while todo:
            e = todo.pop()
            if e is None or id(e) in seen:
                continue
            seen.add(id(e))
            todo += [e.__cause__, e.__context__, *getattr(e, "exceptions", ())]
        rec.check(any(id(e) in seen for e in raised), "hook-unreal", f"{f.__name__} in {where}: ended with {o.exc!r}")


def k_machine(rec):
    rng = rec.rng
    for _ in rec.loop(60 if rec.quick else 2000):
        salt = rng.getrandbits(30)
        mods = [rng.choice([0, 5, 20]) for _ in range(4)]
        raised = []

        class M(RuleBasedStateMachine):
            def __init__(self):
                super().__init__()
                self.h = []

            def go(self, i, f, x):
                self.h.append((i, x))
                if mods[i] and stable_hash(f"{salt}{self.h}") % mods[i] == 0:
                    try:
                        f(x)
                    except BaseException as e:
                        raised.append((i, e))
                        raise

            @rule(x=st.integers(0, 9))
            def one(self, x):
                self.go(0, r_zero, x)

            @precondition(lambda self: len(self.h) > 2)
            @rule(x=st.booleans())
            def two(self, x):
                self.go(1, r_key, x)

            @invariant()
            def inv(self):
                if self.h:
                    self.go(2, r_none, 0)

            def teardown(self):
                self.go(3, r_assert, 1)
        multi = rng.random() < 0.5
        with time_limit(3):
            o = call(run_state_machine_as_test, M, settings=S(max_examples=15, stateful_step_count=5, report_multiple_bugs=multi,
                     phases=rng.choice([[Phase.generate], [Phase.generate, Phase.shrink]])))
        if type(o.exc).__name__ == "OutOfTime":
            continue
        rec.count("machines")
        rec.count("runs")
        rec.observed((salt, len(raised)))
        if not raised:
            rec.check(o.exc is None, "machine-bogus", repr(o.exc))
            continue
        rec.count("failing")
        rec.check(o.exc is not None, "machine-lost", f"{raised[:3]} were raised but the run passes")
        es = o.exc.exceptions if isinstance(o.exc, ExceptionGroup) else [o.exc]
        rec.check(all(any(e is r for _, r in raised) for e in es), "machine-unreal", f"ended with {o.exc!r}")


def run(unit, rec):
    globals()["k_" + unit["kind"].rstrip("0123456789")](rec)
