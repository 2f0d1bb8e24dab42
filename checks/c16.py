"""C16: nondeterminism is reported as flaky, and determinism never is."""
import random
import unittest

import hypothesis
from hypothesis import Phase, assume, given, settings, strategies as st
from hypothesis.database import InMemoryExampleDatabase, choices_to_bytes
from hypothesis.errors import Flaky, FlakyFailure, FlakyStrategyDefinition, Unsatisfiable, UnsatisfiedAssumption
from hypothesis.stateful import Bundle, RuleBasedStateMachine, invariant, rule, run_state_machine_as_test

from hv.programs import ErrA, ErrB, Program, f0, f1, f2, f3, failures, leaves, run_for, text
from hv.trees import canon, tree
from hv.util import FeedDatabase, HvFail, HvFail2, S, call, mutate_choices, random_choices, stable_hash, time_limit

INFO = dict(
    technique="runtime monitoring: tests whose outcome is scripted per (values, how often these were run) are executed, "
              "and what the run ends with is compared with the log of what each execution really did",
    level="exploration",
    rule="One evaluation = one run whose ending was compared with its log. Non-trivial = distinct (script, log).",
    floors={"deterministic": 60, "vanishing": 60, "changing": 60, "strategy": 40, "machines": 20, "scripts": 40, "flaky_reports": 150},
)
KINDS = ["det0", "det1", "det2", "vanish", "change", "strategy", "script", "machine"]


def units(tier, seed):
    reps = 1 if tier == "quick" else 10
    return [dict(name=f"{k}-{i}", kind=k, timeout=800) for i in range(reps) for k in KINDS]


def phases(rng):
    return rng.choice([list(Phase), [Phase.generate], [Phase.generate, Phase.shrink], [Phase.reuse, Phase.generate, Phase.shrink],
                       [Phase.generate, Phase.target, Phase.shrink]])


def is_flaky(e):
    if isinstance(e, Flaky):
        return True
    return isinstance(e, BaseExceptionGroup) and any(map(is_flaky, e.exceptions))


def k_det(rec):
    rng = rec.rng
    for _ in rec.loop(120 if rec.quick else 4000):
        prog = Program(rng, depth=rng.choice([0, 1, 1, 2]))
        entries = []
        if rng.random() < 0.5:
            log = []
            run_for(0.5, prog.make(log, S(max_examples=20, phases=[Phase.generate]), None))
            for x in log[:8]:
                entries.append(choices_to_bytes(rng.choice([list(x.choices), mutate_choices(rng, x.choices)])))
            entries.append(choices_to_bytes(random_choices(rng)))
        log = []
        o = run_for(2, prog.make(log, S(max_examples=rng.choice([5, 40]), database=FeedDatabase(entries), phases=phases(rng),
                                        report_multiple_bugs=rng.random() < 0.6), None))
        if o is None:
            rec.count("slow")
            continue
        rec.count("deterministic")
        rec.observed((prog.salt, len(log)))
        rec.check(not is_flaky(o.exc), "false-flaky", f"{prog.desc}, entries {entries}: {o.exc!r}")
        for x in log:
            if x.out in ("pass", "reject", "fail"):
                d = prog.decide(x.vals)
                assert x.out == (d if type(d) is str else "fail"), (d, x)
        rec.check(o.exc is None or failures(log) or isinstance(o.exc, (Unsatisfiable, unittest.SkipTest)), "other-error", f"{prog.desc}: {o.exc!r}")


class Scripted:
    """`script(vals, n)` says what the n-th execution (from 0) with these values does."""

    def __init__(self, rng, script, depth=None):
        self.nodes = [tree(rng, rng.choice([0, 0, 1])) for _ in range(rng.choice([1, 1, 2]))]
        self.script, self.log, self.count = script, [], {}

    def body(self, *args):
        vals = text([canon(a) for a in args])
        n = self.count[vals] = self.count.get(vals, -1) + 1
        out = self.script(vals, n)
        self.log.append((vals, n, getattr(out, "__name__", out)))
        if out == "reject":
            assume(False)
        if out == "skip":
            raise unittest.SkipTest("scripted")
        if callable(out):
            try:
                out("x")
            except BaseException as e:
                self.log[-1] = (*self.log[-1], e)
                raise

    def run(self, setts, limit=2):
        body = self.body
        ns = {"body": body}
        names = ", ".join(f"a{i}" for i in range(len(self.nodes)))
        exec(f"def test({names}):\n    body({names})\n", ns)
        return run_for(limit, setts(given(*[n.strategy for n in self.nodes])(ns["test"])))

    @property
    def desc(self):
        return f"test of {[n.desc for n in self.nodes]}, ran {[(x[0], x[1], x[2]) for x in self.log if x[2] != 'pass'][:8]}"


def check_flaky(rec, sc, o, what, expected=None):
    """`expected`: an exception type that must be named in what is raised."""
    if o is None:
        rec.count("slow")
        return
    rec.observed(repr([x[:3] for x in sc.log]))
    failed = [x for x in sc.log if len(x) > 3]
    if not failed:
        return
    e = o.exc
    rec.count("flaky_reports")
    if not rec.check(is_flaky(e), "not-flaky", f"{what}: ended with {e!r}; {sc.desc}"):
        return
    if isinstance(e, FlakyFailure):
        # what it names are failures which happened
        inner = [x for x in e.exceptions]
        real = {id(x[3]) for x in failed}
        rec.check(any(id(x) in real or isinstance(x, UnsatisfiedAssumption) for x in inner), "bogus", f"{what}: {inner} never happened; {sc.desc}")
    rec.check(str(e).strip(), "no-message", repr(e))


def k_vanish(rec):
    """A failure that does not happen again."""
    rng = rec.rng
    for _ in rec.loop(150 if rec.quick else 5000):
        salt = rng.getrandbits(30)
        after = rng.choice(["pass", "pass", "reject", "skip"])
        mod = rng.choice([1, 2, 5])
        fail = rng.choice([f0, f2, f3])

        def script(vals, n):
            if n or stable_hash(f"{salt}{vals}") % mod:
                return after if n else "pass"
            return fail
        sc = Scripted(rng, script)
        o = sc.run(S(max_examples=30, phases=phases(rng), report_multiple_bugs=rng.random() < 0.6))
        rec.count("vanishing")
        if after == "skip" and o is not None and isinstance(o.exc, unittest.SkipTest):
            # a skip during the search ends it there and then
            rec.check(sc.log[-1][2] == "skip", "skip", f"{o.exc!r} {sc.desc}")
            continue
        check_flaky(rec, sc, o, f"fails with {fail.__name__} the first time and then gives {after}")


def k_change(rec):
    """A failure that becomes another one."""
    rng = rec.rng
    for _ in rec.loop(150 if rec.quick else 5000):
        salt = rng.getrandbits(30)
        mod = rng.choice([1, 2, 5])
        a, b = rng.sample([f0, f1, f2, f3], 2)
        first = rng.choice([1, 1, 1, 2])
        ph = [Phase.generate] if first == 1 and rng.random() < 0.5 else phases(rng)

        def script(vals, n):
            if stable_hash(f"{salt}{vals}") % mod:
                return "pass"
            return a if n < first else b
        sc = Scripted(rng, script)
        o = sc.run(S(max_examples=30, phases=ph, report_multiple_bugs=rng.random() < 0.6))
        rec.count("changing")
        if o is None or not any(x[2] == b.__name__ for x in sc.log):
            continue  # it was never run that often
        check_flaky(rec, sc, o, f"fails with {a.__name__} {first} times, then with {b.__name__}, phases {[p.name for p in ph]}")


def k_script(rec):
    """Arbitrary scripts: whatever is reported without a word on flakiness was reproduced."""
    rng = rec.rng
    for _ in rec.loop(150 if rec.quick else 5000):
        salt = rng.getrandbits(30)
        outs = [f0, f1, f2, f3, "pass", "pass", "pass", "reject"]
        period = rng.choice([1, 2, 3])

        def script(vals, n):
            return outs[stable_hash(f"{salt}{vals}{n // period}") % len(outs)]
        sc = Scripted(rng, script)
        o = sc.run(S(max_examples=30, phases=phases(rng), report_multiple_bugs=rng.random() < 0.6))
        rec.count("scripts")
        if o is None:
            rec.count("slow")
            continue
        rec.observed(repr([x[:3] for x in sc.log]))
        failed = [x for x in sc.log if len(x) > 3]
        if failed:
            rec.check(o.exc is not None, "lost", f"a run with failures passes; {sc.desc}")
        if o.exc is None:
            continue
        if is_flaky(o.exc):
            rec.count("flaky_reports")
        es = o.exc.exceptions if isinstance(o.exc, BaseExceptionGroup) and not isinstance(o.exc, Flaky) else [o.exc]
        for e in es:
            if isinstance(e, (Flaky, Unsatisfiable)):
                continue
            mine = [x for x in failed if x[3] is e]
            if not rec.check(len(mine) == 1, "bogus", f"{e!r} was never raised by the test; {sc.desc}"):
                continue
            vals, n, name, _ = mine[0]
            before = [x for x in failed if x[0] == vals and x[2] == name and x[1] < n]
            rec.check(before, "unreproduced", f"reported {name} for {vals}, which failed so only once; {sc.desc}")


def k_strategy(rec):
    """Data generation that isn't a function of the choices."""
    rng = rec.rng
    for _ in rec.loop(200 if rec.quick else 6000):
        state = {"n": 0}
        kind = rng.randrange(6)
        fails = rng.random() < 0.3

        @st.composite
        def odd(draw):
            n = state["n"] = state["n"] + 1
            if kind == 0:
                return draw(st.integers(0, n))
            if kind == 1:
                return draw(st.integers(0, 1000)) if n % 2 else draw(st.booleans())
            if kind == 2:
                draw(st.just(0))
                return draw(st.text(max_size=n))
            if kind == 3:
                return draw(st.sampled_from(range(2 + n)))
            if kind == 4:
                return draw(st.floats(0, n))
            return draw(st.binary(min_size=n % 3, max_size=5))
        seen = []

        @S(max_examples=20, phases=phases(rng))
        @given(odd(), st.integers())
        def t(v, w):
            seen.append(v)
            if fails:
                raise HvFail
        o = call(t)
        rec.count("strategy")
        rec.observed((kind, repr(seen)))
        rec.count("flaky_reports", is_flaky(o.exc))
        if kind == 5 and state["n"] < 3:
            continue
        rec.check(is_flaky(o.exc), "strategy-not-flaky", f"kind {kind}, {state['n']} draws, failing {fails}: {o.exc!r}")
        if not fails:
            rec.check(isinstance(o.exc, FlakyStrategyDefinition), "strategy-wrong-error", f"kind {kind}: {o.exc!r}")
    # the same kind of strategy, made deterministic, is fine
    for _ in range(20):
        @st.composite
        def ok(draw):
            n = draw(st.integers(0, 5))
            return draw(st.integers(0, n)) if n % 2 else draw(st.text(max_size=n))
        o = call(S(max_examples=60)(given(ok())(lambda v: None)))
        rec.check(o.exc is None, "false-flaky", repr(o.exc))


def k_machine(rec):
    rng = rec.rng
    for _ in rec.loop(80 if rec.quick else 2500):
        flaky = rng.random() < 0.5
        salt = rng.getrandbits(30)
        state = {"runs": 0, "failed": 0}

        class M(RuleBasedStateMachine):
            b = Bundle("b")

            def __init__(self):
                super().__init__()
                self.hist = []

            @rule(target=b, x=st.integers(0, 9))
            def add(self, x):
                self.hist.append(x)
                return x

            @rule(x=b)
            def use(self, x):
                self.hist.append(("use", x))

            @invariant()
            def ok(self):
                h = text(canon(self.hist))
                if len(self.hist) > 1 and stable_hash(f"{salt}{h}") % 4 == 0:
                    if flaky and h in state:
                        return
                    state[h] = 1
                    state["failed"] += 1
                    raise HvFail(h)
        with time_limit(3):
            o = call(run_state_machine_as_test, M, settings=S(max_examples=20, stateful_step_count=6, phases=phases(rng)))
        rec.count("machines")
        rec.observed((flaky, salt))
        if type(o.exc).__name__ == "OutOfTime":
            continue
        if flaky and state["failed"]:
            rec.count("flaky_reports")
            rec.check(is_flaky(o.exc), "machine-not-flaky", f"{o.exc!r}")
        else:
            rec.check(not is_flaky(o.exc), "machine-flaky", f"{o.exc!r}")
            rec.check((o.exc is not None) == bool(state["failed"]), "machine-lost", f"{o.exc!r} {state['failed']}")


def run(unit, rec):
    globals()["k_" + unit["kind"].rstrip("0123456789")](rec)
