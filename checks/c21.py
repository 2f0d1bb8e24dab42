"""C21: stateful machines obey rule, precondition, bundle and invariant semantics."""
import unittest

from hypothesis import HealthCheck, Phase, Verbosity, seed, settings, strategies as st
from hypothesis.errors import FailedHealthCheck, InvalidArgument, InvalidDefinition, Unsatisfiable
from hypothesis.stateful import (
    Bundle, RuleBasedStateMachine, consumes, initialize, invariant, multiple, precondition, rule, run_state_machine_as_test,
)

from hv.machines import Machine, Trace
from hv.programs import run_for
from hv.util import FIRED, HvFail, HvFail2, OutOfTime, S, call

INFO = dict(
    technique="runtime monitoring: random machines log every call of a rule, invariant and teardown; the log of every execution the "
              "engine makes (generation, replay, shrinking) is judged by a monitor with its own model of bundles, preconditions, "
              "invariants due and errors",
    level="exploration",
    rule="One evaluation = one execution of a machine judged. Non-trivial = distinct (machine, sequence of steps).",
    floors={"executions": 1500, "steps": 8000, "machines": 25, "consumed": 300, "drawn": 1500, "invariants": 5000, "failing_runs": 8,
            "rules_reached": 3},
)
KINDS = ["random0", "random1", "random2", "random3", "random4", "reach0", "odd0"]
PH = [Phase.reuse, Phase.generate, Phase.target, Phase.shrink]


def units(tier, seed):
    reps = 1 if tier == "quick" else 10
    return [dict(name=f"{k}-{i}", kind=k, timeout=800) for i in range(reps) for k in KINDS]


def drive(rec, m, sett, steps, sd):
    cls = m.make()
    how = rec.rng.randrange(3)
    if how == 0:
        f = lambda: run_state_machine_as_test(seed(sd)(cls), settings=sett)  # noqa
    elif how == 1:
        T = seed(sd)(cls).TestCase
        T.settings = sett
        t = T("runTest")
        f = t.runTest
    else:
        cls = sett(cls)
        T = seed(sd)(cls).TestCase
        f = T("runTest").runTest
    o = run_for(3 if rec.quick else 20, f)
    rec.count("machines")
    traces = m.traces if o is not None else m.traces[:-1]
    bad = None
    for t in traces:
        if o is None and not t.steps:
            continue
        msg = m.judge(t, steps)
        rec.count("executions")
        n = 0
        for s in t.steps:
            if s[0] == "step":
                rec.count("steps")
                n += 1
            elif s[0] == "inv":
                rec.count("invariants")
        rec.observed((m.salt, tuple(s[1]["name"] if s[0] == "step" else s[0] for s in t.steps)))
        if msg and bad is None:
            bad = msg
            rec.violation(msg.split(":")[0].translate(str.maketrans("", "", "0123456789"))[:50],
                          f"{m.desc}: {msg}; steps {[(s[1]['name'], s[1]['kw']) if s[0] == 'step' else s for s in t.steps][-8:]}")
        rec.count("max_steps_reached", n == steps)
    for t in traces:
        for s in t.steps:
            if s[0] == "step":
                sp = m.inits.get(s[1]["name"]) or m.rules[s[1]["name"]]
                for a, arg in sp["args"].items():
                    if arg.bundles:
                        rec.count("consumed" if arg.consume else "drawn")
    return o


def failing(t):
    return any(s[0] == "inv-raised" or (s[0] == "step" and s[1]["out"] == "raise") for s in t.steps)


def k_random(rec):
    rng = rec.rng
    for _ in rec.loop(100 if rec.quick else 4000):
        m = Machine(rng)
        steps = rng.choice([1, 3, 10, 30, 50])
        verb = rng.choice([Verbosity.normal] * 4 + [Verbosity.debug, Verbosity.quiet])
        sett = S(max_examples=rng.choice([10, 40]), stateful_step_count=steps, phases=PH, verbosity=verb)
        o = drive(rec, m, sett, steps, rng.getrandbits(32))
        if o is None:
            rec.count("slow")
            continue
        raised = [t for t in m.traces if any(s[0] == "inv-raised" for s in t.steps) or any(
            s[0] == "step" and s[1]["out"] == "raise" and not m.rejectp for s in t.steps)]
        if o.exc is None:
            rec.check(not raised, "error-lost", f"{m.desc}: an error in {raised[0].steps[-3:] if raised else ''} and the run passes")
        else:
            rec.count("failing_runs")
            es = o.exc.exceptions if isinstance(o.exc, BaseExceptionGroup) else [o.exc]
            ok = all(isinstance(e, (HvFail, HvFail2)) for e in es) or isinstance(o.exc, Unsatisfiable) and not any(
                s[0] == "step" and s[1]["out"] == "done" for t in m.traces[-3:] for s in t.steps[-2:]) or (
                isinstance(o.exc, Unsatisfiable))
            rec.check(ok, "odd-error", f"{m.desc}: {o.exc!r}")


def k_reach(rec):
    """Every rule which can always run does run in some execution, alone and after any other;
    no bundle position is out of reach."""
    rng = rec.rng
    for _ in rec.loop(20 if rec.quick else 500):
        m = Machine(rng, fail=0, rejects=0)
        steps = rng.choice([6, 12])
        free = [k for k, v in m.rules.items() if not v["pre"] and not any(a.bundles for a in v["args"].values())]
        o = drive(rec, m, S(max_examples=80, stateful_step_count=steps, phases=PH), steps, rng.getrandbits(32))
        if o is None:
            continue
        if not rec.check(o.exc is None, "odd-error", f"{m.desc}: {o.exc!r}"):
            continue
        if len(m.traces) < 80:
            continue  # (nothing more to try)
        ran = {s[1]["name"] for t in m.traces for s in t.steps if s[0] == "step"}
        for k in free:
            rec.count("rules_reached", k in ran)
            rec.check(k in ran, "unreached", f"{m.desc}: rule {k} never ran in {len(m.traces)} executions of {steps} steps")
        full = sum(sum(s[0] == "step" for s in t.steps) == steps for t in m.traces)
        # stopping early is for shrinking
        rec.check(full >= 10, "short", f"{m.desc}: only {full} of {len(m.traces)} executions had {steps} steps")
        multi = [t for t in m.traces if len({s[1]["name"] for s in t.steps if s[0] == "step" and s[1]["kind"] == "rule"}) < len(free)]
        if len(free) >= 3:
            rec.count("swarmed", bool(multi))
    # positions in a bundle
    seen = set()

    class B(RuleBasedStateMachine):
        b = Bundle("b")

        def __init__(self):
            super().__init__()
            self.n = 0

        @initialize(target=b)
        def start(self):
            return multiple(*range(4))

        @rule(x=b, y=consumes(b))
        def use(self, x, y):
            seen.add((x, y))

        @rule()
        def nothing(self):
            pass
    o = call(lambda: run_state_machine_as_test(B, settings=S(max_examples=300, stateful_step_count=3)))
    rec.check(o.exc is None, "positions", repr(o.exc))
    missing = {(x, y) for x in range(4) for y in range(4) if x != y} - seen
    rec.check(not missing, "positions", f"(referred to, consumed) never seen: {missing}")
    rec.check(any(x == y for x, y in seen), "positions", f"{seen}")


def k_odd(rec):
    """Definitions which cannot work are refused; error paths keep the rules."""
    st_set = S(max_examples=5, stateful_step_count=4)

    def bad(name, mk, exc=InvalidDefinition, match=None):
        def go():
            c = mk()
            if isinstance(c, type):
                run_state_machine_as_test(c, settings=st_set)
        o = call(go)
        rec.observed(name)
        rec.count("odd")
        rec.check(isinstance(o.exc, exc) and (match is None or match in str(o.exc)), f"odd-{name}", f"{name}: {o.exc!r}")
    R = RuleBasedStateMachine
    bad("norules", lambda: type("M", (R,), {}))
    bad("only-init", lambda: type("M", (R,), {"i": initialize()(lambda self: None)}))
    bad("two-rules", lambda: rule()(rule()(lambda self: None)))
    bad("rule-inv", lambda: rule()(invariant()(lambda self: None)))
    bad("inv-rule", lambda: invariant()(rule()(lambda self: None)))
    bad("inv-init", lambda: invariant()(initialize()(lambda self: None)))
    bad("init-rule", lambda: initialize()(rule()(lambda self: None)))
    bad("init-pre", lambda: initialize()(precondition(lambda s: True)(lambda self: None)))
    bad("pre-init", lambda: precondition(lambda s: True)(initialize()(lambda self: None)))
    bad("target-both", lambda: rule(target=Bundle("b"), targets=(Bundle("b"),))(lambda self: None), InvalidArgument)
    bad("target-kind", lambda: rule(target=st.integers())(lambda self: None), InvalidArgument)
    bad("target-oneof", lambda: rule(target=Bundle("a") | Bundle("b"))(lambda self: None), InvalidArgument)
    bad("arg-kind", lambda: rule(x=3)(lambda self, x: None), InvalidArgument)
    bad("consumes-kind", lambda: consumes(st.integers()), TypeError)
    bad("settings-attr", lambda: type("M", (R,), {"r": rule()(lambda self: None), "settings": st_set}))
    bad("settings-set", lambda: setattr(type("M", (R,), {"r": rule()(lambda self: None)}), "settings", st_set), AttributeError)
    bad("stuck", lambda: type("M", (R,), {"r": precondition(lambda s: False)(rule()(lambda self: None))}))
    bad("stuck-bundle", lambda: type("M", (R,), {"b": Bundle("b"), "r": rule(x=Bundle("b"))(lambda self, x: None)}))
    for kind in ("rule", "invariant", "initialize"):
        for suppressed in (False, True):
            ns = {"r": rule()(lambda self: 3 if kind == "rule" else None)}
            if kind == "invariant":
                ns["i"] = invariant()(lambda self: 3)
            if kind == "initialize":
                ns["i"] = initialize()(lambda self: 3)
            C = type("M", (R,), ns)
            sup = list(HealthCheck) if suppressed else []
            o = call(lambda: run_state_machine_as_test(C, settings=S(max_examples=5, stateful_step_count=3, suppress_health_check=sup)))
            # (these two can't be suppressed any more)
            rec.check(isinstance(o.exc, FailedHealthCheck), "return-value", f"{kind} {suppressed}: {o.exc!r}")
    # errors anywhere: one teardown each, nothing after it
    for where in ("init", "rule", "invariant", "during", "teardown", "precondition", "argument", "new"):
        for exc in (HvFail, KeyboardInterrupt, SystemExit, unittest.SkipTest):
            live = []

            def hit(at, log):
                if at == where:
                    log.append("raise")
                    raise exc("x")

            class M(R):
                b = Bundle("b")

                def __init__(self):
                    super().__init__()
                    self.log = []
                    live.append(self.log)
                    hit("new", self.log)

                @initialize(target=b)
                def i(self):
                    hit("init", self.log)
                    self.log.append("init")
                    return 1

                @precondition(lambda self: hit("precondition", self.log) or True)
                @rule(x=st.integers(0, 9).map(lambda v: v))
                def r(self, x):
                    if x > 4:
                        hit("rule", self.log)
                    self.log.append("r")

                @rule(x=st.runner().flatmap(lambda m: hit("argument", m.log) or st.just(0)))
                def r2(self, x):
                    self.log.append("r2")

                @invariant()
                def v(self):
                    hit("invariant", self.log)
                    self.log.append("v")

                @invariant(check_during_init=True)
                def w(self):
                    hit("during", self.log)
                    self.log.append("w")

                def teardown(self):
                    self.log.append("teardown")
                    hit("teardown", self.log)
            o = call(lambda: run_state_machine_as_test(M, settings=S(max_examples=20, stateful_step_count=5, phases=PH)))
            rec.observed((where, exc.__name__), n=len(live))
            rec.count("executions", len(live))
            rec.check(isinstance(o.exc, exc), "error-kind", f"{exc.__name__} in {where}: {o.exc!r}")
            for log in live:
                if where == "new":
                    rec.check(log == ["raise"], "new", f"{log}")
                    continue
                rec.check(log.count("teardown") == 1, "teardown-count", f"{exc.__name__} in {where}: {log}")
                if "raise" in log:
                    after = log[log.index("raise") + 1:]
                    rec.check(after == ([] if where == "teardown" else ["teardown"]), "after-error", f"{exc.__name__} in {where}: {log}")
                if where not in ("teardown",):
                    rec.check(log[-1] == "teardown", "after-teardown", f"{log}")
    # inheritance: rules, invariants and their overriding
    calls = []

    class Base(R):
        @rule()
        def a(self):
            calls.append("base-a")

        @rule()
        def c(self):
            calls.append("base-c")

        @invariant()
        def inv(self):
            calls.append("base-inv")

    class Sub(Base):
        @rule()
        def a(self):
            calls.append("sub-a")

        @invariant()
        def inv(self):
            calls.append("sub-inv")

        def c(self):
            calls.append("not a rule")
    for C, want in ((Base, {"base-a", "base-c", "base-inv"}), (Sub, {"sub-a", "sub-inv"}), (Base, {"base-a", "base-c", "base-inv"})):
        calls.clear()
        o = call(lambda: run_state_machine_as_test(C, settings=S(max_examples=30, stateful_step_count=8)))
        rec.check(o.exc is None and set(calls) == want, "inheritance", f"{C.__name__}: {set(calls)} {o.exc!r}")


def run(unit, rec):
    globals()["k_" + unit["kind"].rstrip("0123456789")](rec)
