"""C24: health checks and deadlines fire exactly when their documented condition holds."""
import gc
import hashlib
import time
import unittest
from datetime import timedelta

import hypothesis.stateful
from hypothesis import HealthCheck, Phase, assume, example, given, reject, seed, settings, strategies as st
from hypothesis.errors import DeadlineExceeded, FailedHealthCheck, FlakyFailure, FlakyStrategyDefinition, Unsatisfiable
from hypothesis.stateful import RuleBasedStateMachine, invariant, rule

from hv.util import HvFail, call

INFO = dict(
    technique="runtime monitoring: the clock is replaced by a virtual one, so that the time every draw and body takes is known exactly; "
              "a monitor predicts from it, and from the recorded fate of every execution, which health check or deadline error is due",
    level="exploration",
    rule="One evaluation = one test run whose outcome was compared with the predicted one. Non-trivial = distinct (scenario, "
         "parameters).",
    floors={"deadline_runs": 80, "deadline_due": 20, "deadline_not_due": 30, "health_due": 60, "health_suppressed": 40,
            "health_not_due": 60, "unsatisfiable": 20, "structural": 20},
)
KINDS = ["deadline0", "deadline1", "slow0", "filter0", "large0", "unsat0", "structure0"]
HC = [h for h in HealthCheck]


def units(tier, seed):
    reps = 1 if tier == "quick" else 8
    return [dict(name=f"{k}-{i}", kind=k, timeout=800) for i in range(reps) for k in KINDS]


class Enough(BaseException):
    """Raised by a test to end its run."""


class Clock:
    def __init__(self):
        self.now = 1000.0

    def __call__(self):
        return self.now

    def sleep(self, s):
        self.now += s


CLOCK = Clock()


def run(unit, rec):
    real, real_stateful = time.perf_counter, hypothesis.stateful.perf_counter
    gc.collect()
    gc.disable()
    time.perf_counter = hypothesis.stateful.perf_counter = CLOCK
    try:
        globals()["k_" + unit["kind"].rstrip("0123456789")](rec)
    finally:
        time.perf_counter, hypothesis.stateful.perf_counter = real, real_stateful
        gc.enable()


def leaves(e):
    return [x for s in e.exceptions for x in leaves(s)] if isinstance(e, BaseExceptionGroup) else [e]


def S(**kw):
    return settings(**dict(dict(database=None, deadline=None, suppress_health_check=(), phases=[Phase.explicit, Phase.generate, Phase.target, Phase.shrink],
                                derandomize=False), **kw))


def take(s, t):
    """A strategy whose draws take t virtual seconds."""
    return s.map(lambda v: (CLOCK.sleep(t), v)[1])


# ---------------------------------------------------------------- deadlines

def k_deadline(rec):
    rng = rec.rng
    for _ in rec.loop(250 if rec.quick else 8000):
        gc.collect(0)
        ms = rng.choice([1, 5, 20, 200, 1000, 5000, rng.randrange(1, 5000), 0.5])
        dl = rng.choice([None, ms, ms, timedelta(milliseconds=ms)])
        D = ms / 1000
        # the time the body of the test takes; between 1 and 1.25 times the deadline is a documented grey area
        where = rng.choice(["always", "always", "always", "some", "explicit"])
        f = rng.choice([0, 0.5, 0.9, 0.98, 1.3, 1.5, 3, 100])
        body = D * f
        argdraw = rng.choice([0, D * 3, D * 0.5])
        indraw = rng.choice([0, D * 2, D * 50, D * 0.3])
        how = rng.choice(["data", "two-data", "labels", "nested-draw", "none", "composite"])
        outcome = rng.choice(["pass", "pass", "pass", "fail", "reject"])
        trace = []

        def work(slow):
            # the body: part of the time before and part after drawing
            CLOCK.sleep(body / 2 if slow else 0)

        def finish(slow):
            CLOCK.sleep(body - body / 2 if slow else 0)
            if outcome == "fail" and slow:
                raise HvFail("x")
            if outcome == "reject" and slow:
                reject()

        def is_slow(x):
            return {"always": True, "explicit": x == -1, "some": hashlib.md5(b"%d" % x).digest()[0] < 128 and x != 0}[where]

        inner = take(st.integers(0, 5), indraw)
        big = st.integers(-1, 10**6)

        def draws(objs):
            n = 0
            for i in range(3):
                for o in objs:
                    v = o.draw(inner, label=rng_label) if how == "labels" else o.draw(inner)
                    n += v
            return n

        rng_label = rng.choice(["x", "again", "Draw 1"])
        if how == "composite":
            @st.composite
            def comp(draw):
                return draw(take(st.integers(-1, 10**6), argdraw / 2)), draw(take(st.integers(0, 3), argdraw / 2))

            @given(comp())
            def t(p):
                x = p[0]
                slow = is_slow(x)
                trace.append(slow)
                work(slow)
                finish(slow)
        elif how == "none":
            @given(take(big, argdraw))
            def t(x):
                slow = is_slow(x)
                trace.append(slow)
                work(slow)
                finish(slow)
        elif how == "two-data":
            @given(take(big, argdraw), st.data(), st.data())
            def t(x, d1, d2):
                slow = is_slow(x)
                trace.append(slow)
                work(slow)
                draws([d1, d2])
                finish(slow)
        else:
            @given(take(big, argdraw), st.data())
            def t(x, d):
                slow = is_slow(x)
                trace.append(slow)
                work(slow)
                if how == "nested-draw":
                    d.draw(st.lists(inner, min_size=2, max_size=3))
                draws([d])
                finish(slow)
        if where == "explicit":
            if how in ("none",):
                t = example(-1)(t)
            else:
                where = "some"
        t = S(deadline=dl, max_examples=20, suppress_health_check=[HealthCheck.too_slow])(seed(rng.randrange(10**9))(t))
        o = call(t)
        errs = leaves(o.exc) if o.exc is not None else []
        slow_ran = any(trace)
        over = body >= 1.25 * D and dl is not None
        desc = (f"deadline {dl!r}, body takes {body:.6g} s in {where} executions ({'a' if slow_ran else 'no'} slow one ran) drawing {how} for {indraw:.6g} s each, "
                f"arguments {argdraw:.6g} s; slow executions {outcome}: {o.exc!r}")
        rec.count("deadline_runs")
        rec.observed((str(dl), f, where, argdraw, indraw, how, outcome))
        got = [type(e) for e in errs]
        if outcome == "fail":
            ok = (got == [HvFail]) if slow_ran else got == []
        elif outcome == "reject":
            ok = all(g in (FailedHealthCheck, Unsatisfiable) for g in got)
        elif over and slow_ran:
            rec.count("deadline_due")
            ok = got == [DeadlineExceeded]
        else:
            rec.count("deadline_not_due")
            ok = got == []
        rec.check(ok, f"deadline-{outcome}", desc)
    for _ in rec.loop(12):
        flaky_deadline(rec, rng)
    machine_deadline(rec, rng)


def flaky_deadline(rec, rng):
    first = []

    @S(deadline=100)
    @seed(rng.randrange(10**9))
    @given(st.integers())
    def t(x):
        if not first:
            first.append(1)
            CLOCK.sleep(1)

    o = call(t)
    rec.observed(("flaky", rng.random()))
    rec.check(isinstance(o.exc, FlakyFailure), "deadline-flaky", f"only the first execution exceeded the deadline: {o.exc!r}")


def machine_deadline(rec, rng):
    """Time in rules and invariants does not count as generation, and the deadline of machines is off by default."""
    class M(RuleBasedStateMachine):
        @rule(x=st.integers())
        def r(self, x):
            CLOCK.sleep(20)

        @invariant()
        def i(self):
            CLOCK.sleep(5)

    M.TestCase.settings = settings(M.TestCase.settings, max_examples=5, database=None, stateful_step_count=4, phases=[Phase.generate], suppress_health_check=())
    r = unittest.TestResult()
    M.TestCase("runTest").run(r)
    rec.count("structural")
    rec.observed("machine")
    rec.check(r.wasSuccessful() and r.testsRun == 1, "machine-slow", f"a machine with slow rules: {r.failures + r.errors}")


# ---------------------------------------------------------------- generation too slow

def due(rec, o, label, suppressed, is_due, desc, runs=None):
    """Compare the outcome with the health check which is due."""
    errs = leaves(o.exc) if o.exc is not None else []
    fired = [e for e in errs if isinstance(e, FailedHealthCheck)]
    if is_due and label not in suppressed:
        rec.count("health_due")
        rec.check(len(fired) == 1 and len(errs) == 1 and f"HealthCheck.{label.name}" in str(fired[0]), f"{label.name}-missing",
                  f"{desc}; suppressed {[h.name for h in suppressed]}: {o.exc!r}")
    else:
        rec.count("health_suppressed" if is_due else "health_not_due")
        rec.check(not fired, f"{label.name}-wrong", f"{desc}; suppressed {[h.name for h in suppressed]}: {o.exc!r}")
    return errs, fired


def suppression(rng, label):
    others = [h for h in HC if h is not label]
    return rng.choice([[], [], others, rng.sample(others, 2), [label], [label], HC])


def k_slow(rec):
    rng = rec.rng
    for _ in rec.loop(220 if rec.quick else 5000):
        ms = rng.choice([None, 1, 100, 200, 400, 1000, 5000])
        limit = max(1.0, 5 * (ms / 1000 if ms else 6))
        f = rng.choice([0, 0.5, 0.9, 2, 2, 10])
        how = rng.choice(["args", "two-args", "data", "builds"])
        # nine draws after the first; the tenth valid example ends the health check
        per = limit * f / (10 if f < 1 else 7)
        sup = suppression(rng, HealthCheck.too_slow)
        fails = rng.random() < 0.15
        rejects = rng.choice([None, None, "body", "filter"])
        if rejects:
            # the time spent on data which is thrown away counts as well
            fails = False
            f = rng.choice([0.05, 2, 2, 10])
            per = limit * f / (10 if f < 1 else 7)
            share = 0.5 if f < 1 else rng.choice([0.5, 0.9, 1.0])
            sup = sup + [HealthCheck.filter_too_much] * (HealthCheck.filter_too_much not in sup)
        n = []
        x = st.binary(min_size=8, max_size=8)
        if how == "args":
            t = given(take(x, per))(lambda a: body(a))
        elif how == "two-args":
            t = given(take(x, per / 4), take(x, per * 3 / 4))(lambda a, b: body(a))
        elif how == "builds":
            t = given(st.builds(lambda a, b: a, take(x, per / 2), st.lists(take(x, per / 2), min_size=1, max_size=1)))(lambda a: body(a))
        else:
            t = given(st.data())(lambda d: body(d.draw(take(x, per))))
        if rejects == "filter":
            t = given(take(x, per).filter(lambda a: bits(a) >= share))(lambda a: body(a))

        def body(a):
            if rejects == "body":
                assume(bits(a) >= share)
            n.append(1)
            if fails:
                raise HvFail("x")

        t = S(deadline=ms, max_examples=25, suppress_health_check=sup)(seed(rng.randrange(10**9))(t))
        o = call(t)
        is_due = f > 1 and not fails
        desc = f"drawing takes {per:.4g} s for each example ({how}), deadline {ms}, {'failing' if fails else 'passing'} after {len(n)} executions" \
               + (f", {share} rejected by the {rejects}" if rejects else "")
        rec.observed(("slow", ms, f, how, tuple(sup), fails, rejects))
        errs, fired = due(rec, o, HealthCheck.too_slow, sup, is_due, desc)
        if fails:
            rec.check([type(e) for e in errs] == [HvFail], "too_slow-masks", f"{desc}: {o.exc!r}")
        elif not fired and not rejects:
            rec.check(o.exc is None and len(n) == 25, "too_slow-other", f"{desc}; {len(n)} executions: {o.exc!r}")


# ---------------------------------------------------------------- too much filtered out

def bits(b):
    return int.from_bytes(hashlib.sha256(b).digest()[:4], "big") / 2**32


def k_filter(rec):
    rng = rec.rng
    for _ in rec.loop(160 if rec.quick else 5000):
        rate = rng.choice([0, 0.05, 0.2, 0.3, 0.9995, 1, 1, 1])
        how = rng.choice(["assume", "reject", "filter", "filter-nested", "data-assume", "empty"]) if rate == 1 else rng.choice(["assume", "reject", "filter", "data-assume"])
        sup = suppression(rng, HealthCheck.filter_too_much)
        n = []
        salt = b"%d" % rng.randrange(10**9)
        b = st.binary(min_size=12, max_size=12)

        def bad(x):
            return bits(salt + x) < rate

        def body(x):
            n.append(1)
            if how in ("assume", "data-assume"):
                assume(not bad(x))
            elif how == "reject" and bad(x):
                reject()

        seen = []

        def tick(v):
            seen.append(1)
            if len(seen) > 900 and rate == 1:
                raise Enough
            return v

        b = b.map(tick)
        if how == "filter":
            # the whole filter gives up after three values, so that rejections are rarer unless everything is bad
            t = given(b.filter(lambda x: not bad(x)))(body)
        elif how == "filter-nested":
            t = given(st.lists(b.filter(lambda x: not bad(x)), min_size=1, max_size=3))(lambda l: body(l[0]))
        elif how == "data-assume":
            t = given(st.data())(lambda d: body(d.draw(b)))
        elif how == "empty":
            t = given(st.tuples(b, st.integers().filter(lambda i: False)))(body)
        else:
            t = given(b)(body)
        t = S(max_examples=40, suppress_health_check=sup)(seed(rng.randrange(10**9))(t))
        o = call(t)
        is_due = rate > 0.9
        if rate == 0.9995 and how == "filter":
            is_due = None  # three attempts for each value
        desc = f"{rate:.2%} of inputs rejected by {how}, body executed {len(n)} times"
        rec.observed(("filter", rate, how, tuple(sup), salt))
        if is_due is None:
            continue
        errs, fired = due(rec, o, HealthCheck.filter_too_much, sup, is_due, desc)
        if not fired:
            if rate == 1:
                rec.check([type(e) for e in errs] in ([Unsatisfiable], [Enough], [FlakyStrategyDefinition]), "unsatisfiable-missing", f"{desc}: {o.exc!r}")
            elif rate < 0.5:
                rec.check(o.exc is None and len(n) >= 40, "filter-other", f"{desc}: {o.exc!r}")


# ---------------------------------------------------------------- too large

def k_large(rec):
    rng = rec.rng
    for _ in rec.loop(70 if rec.quick else 1500):
        kind = rng.choice(["base", "base", "usual", "usual", "near", "small"])
        label = HealthCheck.large_base_example if kind in ("base", "near") else HealthCheck.data_too_large
        sup = suppression(rng, label) if rng.random() < 0.8 or kind == "small" else []
        n = []
        unit = rng.choice([st.integers(), st.floats(), st.booleans(), st.binary(min_size=3, max_size=3)])
        def tick(v):
            n.append(1)
            if len(n) > 40 and kind != "small":
                raise Enough
            return v

        huge = st.tuples(*[st.binary(min_size=rng.choice([300, 400]), max_size=400)] * 30)
        ticks = st.just(None).map(tick)
        if kind == "base":
            s = rng.choice([lambda: huge] * (0 if not sup else 12) + [lambda: st.tuples(*[st.lists(unit, min_size=4000)] * 3), lambda: st.tuples(*[st.binary(min_size=300, max_size=400)] * 30),
                            lambda: st.binary(min_size=9000), lambda: st.tuples(st.text(min_size=5000), st.text(min_size=5000)), lambda: st.data()])()
            if repr(s) == "data()":
                t = given(ticks, s)(lambda x, d: d.draw(st.binary(min_size=9000)))
            else:
                t = given(ticks, s)(lambda x, y: None)
        elif kind == "near":
            # the simplest input takes up more than half of the largest size
            t = given(ticks, st.binary(min_size=5500, max_size=5500))(lambda x, y: None)
        elif kind == "usual":
            s = st.integers(0, 2**64).flatmap(lambda i: huge if i else st.just([]))
            t = given(ticks, s)(lambda x, y: None)
        else:
            s = rng.choice([lambda: st.lists(unit, max_size=30), lambda: st.binary(min_size=1000, max_size=2000), lambda: st.text(max_size=500)])()
            t = given(ticks, s)(lambda x, y: None)
            label = rng.choice([HealthCheck.data_too_large, HealthCheck.large_base_example])
        t = S(max_examples=30, suppress_health_check=sup, phases=[Phase.generate])(seed(rng.randrange(10**9))(t))
        o = call(t)
        rec.observed((kind, repr(unit), tuple(sup), rng.random()))
        desc = f"{kind} test with very large inputs ({len(n)} executions)" if kind != "small" else f"small test ({len(n)} executions)"
        if kind == "base" and HealthCheck.large_base_example in sup and HealthCheck.data_too_large not in sup:
            label = HealthCheck.data_too_large  # the second check catches it
        errs, fired = due(rec, o, label, sup, kind != "small", desc)
        if not fired and kind == "base":
            rec.check([type(e) for e in errs] in ([Enough], [FlakyStrategyDefinition]), "large-other", f"{desc}: {o.exc!r}")
        if kind == "small":
            rec.check(o.exc is None, "small-error", f"{desc}: {o.exc!r}")


# ---------------------------------------------------------------- no valid input at all

def k_unsat(rec):
    rng = rec.rng
    for _ in rec.loop(250 if rec.quick else 8000):
        size = rng.choice([1, 2, 3, 10, 40, 10**9])
        finite = size < 10**6
        good = rng.choice([None, None, 0, size - 1]) if finite else rng.choice([None, None, 0])
        how = rng.choice(["assume", "reject", "filter", "map-reject", "data"])
        n, ok = [], []

        def body(x):
            n.append(x)
            if x != good and how in ("assume", "data"):
                assume(False)
            if x != good and how == "reject":
                reject()
            ok.append(x)

        b = st.integers(0, size - 1)
        if how == "filter":
            s = b.filter(lambda x: x == good)
        elif how == "map-reject":
            s = b.map(lambda x: x if x == good else reject())
        else:
            s = b
        t = given(st.data())(lambda d: body(d.draw(s))) if how == "data" else given(s)(body)
        explicit = rng.random() < 0.2 and how in ("assume", "reject")
        if explicit:
            t = example(rng.randrange(size))(t)
        phases = rng.choice([[Phase.explicit, Phase.generate], list(Phase), [Phase.explicit, Phase.reuse, Phase.generate, Phase.shrink]])
        t = S(max_examples=60, phases=phases, suppress_health_check=[HealthCheck.filter_too_much, HealthCheck.too_slow])(seed(rng.randrange(10**9))(t))
        o = call(t)
        rec.observed(("unsat", size, good, how, explicit, rng.random()))
        desc = f"values 0..{size - 1}, only {good} valid ({how}), explicit example: {explicit}; body ran for {sorted(set(n))[:5]}, completed for {ok[:5]}"
        if good is None:
            rec.count("unsatisfiable")
            rec.check(isinstance(o.exc, Unsatisfiable), "unsatisfiable-missing", f"{desc}: {o.exc!r}")
        elif ok and (not explicit or len(ok) > 1):
            rec.check(o.exc is None, "unsatisfiable-wrong", f"{desc}: {o.exc!r}")
        elif not ok:
            rec.check(isinstance(o.exc, Unsatisfiable), "unsatisfiable-missing", f"{desc}: {o.exc!r}")
    # empty strategies
    for s in (st.nothing(), st.one_of(), st.nothing().map(str), st.tuples(st.integers(), st.nothing()), st.lists(st.sampled_from([1]).filter(lambda x: x > 1), min_size=1),
              st.integers().flatmap(lambda x: st.nothing()), st.deferred(lambda: st.nothing()), st.sampled_from([1, 2]).filter(lambda x: x > 5)):
        o = call(S(suppress_health_check=[HealthCheck.filter_too_much])(given(s)(lambda x: None)))
        rec.count("unsatisfiable")
        rec.observed(repr(s))
        rec.check(isinstance(o.exc, Unsatisfiable), "unsatisfiable-missing", f"strategy {s!r}: {o.exc!r}")


# ---------------------------------------------------------------- checks on the structure of a test

def k_structure(rec):
    rng = rec.rng
    for _ in rec.loop(60 if rec.quick else 2000):
        sup = suppression(rng, HealthCheck.nested_given)
        inner_sup = rng.choice([[], HC])
        nested = rng.random() < 0.7
        ran = []
        inner_outside = given(st.integers())(lambda y: ran.append(y))

        @S(max_examples=2, suppress_health_check=sup)
        @given(st.integers())
        def t(x):
            if nested:
                @S(max_examples=2, suppress_health_check=inner_sup)
                @given(st.integers())
                def inner(y):
                    ran.append(y)
                inner()

        o = call(t)
        rec.count("structural")
        rec.observed(("nested", tuple(sup), nested, tuple(inner_sup)))
        due(rec, o, HealthCheck.nested_given, sup, nested, f"nested @given: {nested}")
        if not nested or HealthCheck.nested_given in sup:
            rec.check(o.exc is None and (len(ran) > 0) == nested, "nested-run", f"nested {nested}, inner executed {len(ran)} times: {o.exc!r}")
        assert inner_outside

        sup = suppression(rng, HealthCheck.differing_executors)
        differ = rng.random() < 0.6

        class A:
            @S(max_examples=2, suppress_health_check=sup)
            @given(st.integers())
            def test(self, x):
                pass

        class B(A):
            pass

        a = A()
        o = call(a.test)
        rec.check(o.exc is None, "executor-first", f"{o.exc!r}")
        o = call((B() if differ else A() if rng.random() < 0.5 else a).test) if differ else call(a.test)
        rec.observed(("executors", tuple(sup), differ))
        rec.count("structural")
        due(rec, o, HealthCheck.differing_executors, sup, differ, f"a method called on two different executors: {differ}")
