"""C15: global random state is controlled during a test and restored afterwards."""
import gc
import random
import unittest

import numpy

import hypothesis
from hypothesis import Phase, assume, example, find, given, register_random, reject, reproduce_failure, settings, strategies as st
from hypothesis.core import encode_failure
from hypothesis.errors import InvalidArgument
from hypothesis.stateful import RuleBasedStateMachine, rule, run_state_machine_as_test

from hv.util import FeedDatabase, HvFail, S, call, captured

INFO = dict(
    technique="runtime monitoring: the states of the random module, NumPy and registered generators are recorded before "
              "a run, at the start of every execution and after the run, while the test body perturbs them and ends in every way",
    level="exploration",
    rule="One evaluation = one state of one generator compared at the start of an execution or after a run. "
         "Non-trivial = distinct (scenario, way of ending, generator states before).",
    floors={"runs": 300, "starts": 6000, "restored": 1200, "replays": 100, "nested": 20, "seeded": 300},
)
KINDS = ["ends", "nested", "module", "replay", "objects", "machine"]


def units(tier, seed):
    reps = 1 if tier == "quick" else 12
    return [dict(name=f"{k}-{i}", kind=k, timeout=800) for i in range(reps) for k in KINDS]


class Own:
    """A generator which isn't a random.Random, with values that compare equal."""

    def __init__(self):
        self.r = random.Random(5)

    def seed(self, x=None):
        self.r.seed(x)

    def getstate(self):
        return self.r.getstate()

    def setstate(self, s):
        self.r.setstate(s)

    def random(self):
        return self.r.random()

    def __eq__(self, o):
        return isinstance(o, Own)

    def __hash__(self):
        return 1


class Generators:
    def __init__(self, rng):
        self.rng = rng
        self.mine = [random.Random(1), Own(), Own(), random.Random(2)]
        for g in self.mine:
            register_random(g)
        self.free = random.Random(3)  # never registered
        self.all = [("random", random)] + [(f"registered{i}", g) for i, g in enumerate(self.mine)]

    def state(self, g):
        return g.getstate()

    def states(self):
        d = {n: g.getstate() for n, g in self.all}
        s = numpy.random.get_state()
        d["numpy"] = (s[0], tuple(s[1].tolist()), *s[2:])
        return d

    def perturb(self, free=True):
        for _n, g in self.all:
            k = self.rng.randrange(4)
            if k == 0:
                g.seed(self.rng.getrandbits(20))
            elif k == 1:
                g.random()
            elif k == 2:
                g.setstate(random.Random(self.rng.getrandbits(20)).getstate())
        if self.rng.random() < 0.5:
            numpy.random.rand(3)
        else:
            numpy.random.seed(self.rng.getrandbits(20))
        if self.rng.random() < 0.3:
            numpy.random.standard_normal()  # leaves a half used pair
        if self.rng.random() < 0.3:
            random.gauss(0, 1)
        if free:
            self.free.random()


def expected(x):
    r = random.Random(x)
    n = numpy.random.RandomState(x).get_state()
    return {"random": r.getstate(), "numpy": (n[0], tuple(n[1].tolist()), *n[2:])}


EXPECT = {}


def expect(x):
    if x not in EXPECT:
        e = expected(x)
        EXPECT[x] = lambda n: e["numpy" if n == "numpy" else "random"]
    return EXPECT[x]


class Monitor:
    def __init__(self, rec):
        self.rec = rec
        self.gens = Generators(rec.rng)
        self.gens.perturb()
        call(S(max_examples=1)(given(st.none())(lambda v: None)))  # so that numpy is known to it

    def at_start(self, what, sd=0):
        want = expect(sd)
        for n, s in self.gens.states().items():
            self.rec.count("starts")
            if s != want(n):
                self.rec.violation("start", f"{what}: {n} does not start in the state of seed {sd}")

    def around(self, what, f, *a, allow_free=False, **k):
        self.gens.perturb()
        before = self.gens.states()
        mine = self.gens.free.getstate()
        o = call(f, *a, **k)
        after = self.gens.states()
        self.rec.count("runs")
        self.rec.observed((what, repr(before["random"])[:80]))
        for n in before:
            self.rec.count("restored")
            self.rec.check(before[n] == after[n], "restored", f"{what}: {n} was not restored; the run ended with {o.exc!r}")
        if not allow_free:
            self.rec.check(self.gens.free.getstate() == mine, "unmanaged", f"{what}: a generator never registered was changed")
        return o


ENDS = ["pass", "fail", "reject", "assume", "interrupt", "exit", "skip", "sometimes", "stop", "group", "generator", "badarg"]


def end(how, v):
    if how == "sometimes":
        how = ["pass", "fail", "reject"][v % 3]
    if how == "fail":
        raise HvFail
    if how == "reject":
        reject()
    if how == "assume":
        assume(False)
    if how == "interrupt":
        raise KeyboardInterrupt
    if how == "exit":
        raise SystemExit(3)
    if how == "skip":
        raise unittest.SkipTest("no")
    if how == "group":
        raise BaseExceptionGroup("g", [KeyboardInterrupt(), HvFail()])
    if how == "stop":
        raise StopIteration
    if how == "generator":
        raise GeneratorExit
    if how == "badarg":
        raise InvalidArgument("x")


def k_ends(rec):
    rng = rec.rng
    m = Monitor(rec)
    for _ in rec.loop(150 if rec.quick else 6000):
        how = rng.choice(ENDS)
        where = rng.choice(["body", "body", "draw", "filter", "interactive"])

        def f(x):
            m.gens.perturb(free=False)
            if where == "draw":
                end(how, x)
            return x

        def keep(x):
            m.gens.perturb(free=False)
            if where == "filter":
                end(how, x)
            return True
        s = st.integers(0, 10)
        if where == "draw":
            s = s.map(f)
        elif where == "filter":
            s = s.filter(keep)

        def body(v, data):
            if where == "body":
                m.at_start(f"{how} in {where}")
            m.gens.perturb(free=False)
            if where == "interactive":
                data.draw(st.integers(0, 10).map(f))
            end(how, v)
        t = given(s, st.data())(body)
        t = settings(S(max_examples=rng.choice([1, 8]), phases=rng.choice([list(Phase), [Phase.generate]]),
                       database=FeedDatabase([b"", b"\x41\x00\x00"]), verbosity=rng.choice(list(hypothesis.Verbosity))))(t)
        m.around(f"{how} in {where}", t)
        if rng.random() < 0.2:
            m.around(f"fuzz {how} in {where}", t.hypothesis.fuzz_one_input, rng.randbytes(40))
        if rng.random() < 0.2:
            def pred(v):
                m.at_start(f"find {how}")
                m.gens.perturb(free=False)
                end(how, v)
                return v > 5
            m.around(f"find {how}", find, st.integers(0, 10), pred, settings=S(max_examples=10))


def k_nested(rec):
    rng = rec.rng
    m = Monitor(rec)
    for _ in rec.loop(60 if rec.quick else 2500):
        how, how2 = rng.choice(ENDS), rng.choice(ENDS)
        catch = rng.random() < 0.7
        depth = rng.choice([1, 1, 2])
        ends = []

        def inner(v):
            m.at_start(f"nested {how2} in {how}")
            m.gens.perturb(free=False)
            end(how2, v)

        @S(max_examples=4)
        @given(st.integers(0, 9))
        def outer(v):
            m.at_start(f"{how} around {how2}")
            m.gens.perturb(free=False)
            before = m.gens.states()
            t = given(st.integers(0, 9))(inner)
            t = S(max_examples=3)(t)
            if depth == 2:
                t2 = t
                t = S(max_examples=2)(given(st.none())(lambda n: t2()))
            try:
                with captured():
                    t()
            except BaseException as e:  # noqa
                if not catch:
                    raise
                ends.append(repr(e))
            finally:
                after = m.gens.states()
                rec.count("nested")
                for n in before:
                    rec.check(before[n] == after[n], "restored-nested",
                              f"{n} was not restored after a test in a test that ended with {how2}")
            end(how, v)
        m.around(f"{how} around {how2} caught={catch}", outer)


def k_module(rec):
    """random_module(), alone and with others."""
    rng = rec.rng
    m = Monitor(rec)
    seen = {}
    for _ in rec.loop(100 if rec.quick else 4000):
        how = rng.choice(ENDS)
        twice = rng.random() < 0.5
        late = rng.random() < 0.5

        def body(data, rm):
            if late:
                m.at_start("before random_module")
                m.gens.perturb(free=False)
                rm = data.draw(st.random_module())
            m.at_start(f"random_module {how}", rm.seed)
            rec.count("seeded")
            if twice:
                rm2 = data.draw(st.random_module())
                rec.check(rm2.seed == rm.seed, "module-shared", f"{rm} {rm2}")
            vals = (random.random(), m.gens.mine[0].random(), float(numpy.random.rand()), random.gauss(0, 1))
            if rm.seed in seen:
                rec.check(seen[rm.seed] == vals, "module-repeats", f"{rm}: {seen[rm.seed]} and {vals}")
                rec.count("replays")
            seen[rm.seed] = vals
            m.gens.perturb(free=False)
            end(how, rm.seed)
        t = S(max_examples=6)(given(st.data(), st.none() if late else st.random_module())(body))
        m.around(f"random_module {how}", t)


def k_replay(rec):
    """Code that uses randomness behaves the same on every replay of the same choices."""
    rng = rec.rng
    m = Monitor(rec)
    for _ in rec.loop(100 if rec.quick else 4000):
        seen = {}
        p = rng.choice([0.1, 0.5, 0.9])
        use = rng.randrange(4)

        def roll():
            if use == 0:
                return random.random()
            if use == 1:
                return float(numpy.random.rand())
            if use == 2:
                return m.gens.mine[0].random()
            return m.gens.mine[2].random()

        def body(v, w):
            m.at_start("replay")
            n = len(seen)
            rs = tuple(roll() for _ in range(v % 5 + 1))
            key = (v, w)
            if key in seen:
                rec.count("replays")
                rec.check(seen[key] == rs, "replay-differs", f"{key}: {seen[key]} then {rs}")
            seen[key] = rs
            m.gens.perturb(free=False)
            if rs[-1] < p:
                raise HvFail
        t = S(max_examples=25)(given(st.integers(0, 40), st.booleans())(body))
        o = m.around("replay", t)
        rec.check(o.exc is None or isinstance(o.exc, HvFail), "flaky", f"{o.exc!r}")
        ex = example(3, True)(given(st.integers(0, 40), st.booleans())(body))
        o = m.around("explicit", S(phases=[Phase.explicit])(ex))
        rec.check(o.exc is None or isinstance(o.exc, HvFail), "flaky", f"{o.exc!r}")
        blob = encode_failure((5, True))
        o = m.around("blob", S()(reproduce_failure(hypothesis.__version__, blob)(given(st.integers(0, 40), st.booleans())(body))))


def k_objects(rec):
    """Generators that come and go."""
    rng = rec.rng
    m = Monitor(rec)
    for _ in rec.loop(60 if rec.quick else 2500):
        temp = [random.Random(9) if rng.random() < 0.5 else Own() for _ in range(3)]
        for g in temp:
            register_random(g)
            register_random(g)  # harmless
        kept = temp[0]
        kept.seed(77)
        before = kept.getstate()
        late = Own() if rng.random() < 0.5 else random.Random(4)
        late.seed(123)
        state = {"n": 0}

        def body(v):
            m.at_start("objects")
            for g in temp:
                rec.count("starts")
                if g.getstate() != expect(0)("random"):
                    rec.violation("start-object", f"{g!r}, registered before the test, does not start from seed 0")
                g.random()
            state["n"] += 1
            if state["n"] == 2:
                del temp[1:]
                gc.collect()
            if state["n"] == 3:
                register_random(late)
            if state["n"] > 3:
                rec.check(late.getstate() == expect(0)("random"), "late", "a generator registered in a test is not seeded in the next")
                late.random()
            if state["n"] == 3:
                state["late"] = late.getstate()
            m.gens.perturb(free=False)
        t = S(max_examples=8)(given(st.integers())(body))
        o = m.around("objects", t)
        rec.check(o.exc is None, "objects-error", repr(o.exc))
        rec.check(kept.getstate() == before, "restored-object", "a registered generator was not restored")
        if "late" in state:
            rec.check(late.getstate() == state["late"], "late-restored", "a generator registered in a test was not restored")
    for bad in (object(), 3, "x", random.random):
        o = call(register_random, bad)
        rec.check(isinstance(o.exc, InvalidArgument), "bad-random", f"{bad!r}: {o.exc!r}")


def k_machine(rec):
    rng = rec.rng
    m = Monitor(rec)
    for _ in rec.loop(30 if rec.quick else 1200):
        how = rng.choice(ENDS)

        class M(RuleBasedStateMachine):
            def __init__(self):
                super().__init__()
                m.at_start("machine")

            @rule(x=st.integers(0, 9))
            def step(self, x):
                m.gens.perturb(free=False)
                if x == 7:
                    end(how, x)

            def teardown(self):
                m.gens.perturb(free=False)
        m.around(f"machine {how}", run_state_machine_as_test, M, settings=S(max_examples=5, stateful_step_count=5))


def run(unit, rec):
    globals()["k_" + unit["kind"].rstrip("0123456789")](rec)
