"""C14: fixed-seed and derandomized runs are reproducible."""
import json
import os
import random
import subprocess
import sys

import hypothesis
from hypothesis import Phase, given, seed, settings, strategies as st
from hypothesis.database import InMemoryExampleDatabase

from hv.programs import Program, failures, leaves, run_for, text
from hv.util import FeedDatabase, HvFail, S, call, stable_hash

INFO = dict(
    technique="runtime monitoring: full execution logs (values, choices, outcomes, report text) of repeated runs are "
              "compared, under noise between runs, changed global random state, and across processes with other hash seeds",
    level="exploration",
    rule="One evaluation = one pair of runs whose logs were compared execution by execution. Non-trivial = distinct "
         "log of a run.",
    floors={"pairs": 15, "process_pairs": 20, "derandomized": 5, "executions": 600, "database_pairs": 4, "no_database": 5},
)
KINDS = ["same0", "same1", "same2", "process0", "process1", "process2", "derandom", "find"]
POOL = InMemoryExampleDatabase()


def units(tier, seed):
    reps = 1 if tier == "quick" else 10
    return [dict(name=f"{k}-{i}", kind=k, timeout=800) for i in range(reps) for k in KINDS]


def record(prog, setts, sd):
    log = []
    o = run_for(3, prog.make(log, setts, sd))
    if o is None:
        return None
    return summary(o, log)


def summary(o, log):
    e = o.exc
    rep = [] if e is None else sorted((type(x).__name__, str(x)) for x in leaves(e, log))
    notes = [] if e is None else sorted("\n".join(getattr(x, "__notes__", ())).partition("\nExplanation:")[0] for x in leaves(e, log))
    return [[text(x.vals), x.out, repr(x.origin), repr(x.choices)] for x in log], rep, notes


def noise(rng):
    """Things that should not matter to the next run."""
    for _ in range(rng.randrange(4)):
        k = rng.randrange(7)
        if k == 0:
            random.seed(rng.getrandbits(20))
        elif k == 1:
            random.random()
        elif k == 2:
            p = Program(rng, depth=0)
            run_for(0.5, p.make([], S(max_examples=5, phases=[Phase.generate]), None))
        elif k == 3:
            import numpy
            numpy.random.seed(rng.getrandbits(20))
        elif k == 4:
            (hypothesis.core._hypothesis_global_random or random).random()
        elif k == 5:
            hypothesis.strategies.lists(st.text()).validate()
        else:
            # what an earlier test did to the strategies it used
            call(S(max_examples=3, phases=[Phase.generate])(given(st.lists(st.integers()), st.text(), st.randoms())(lambda a, b, c: [][1])))


def compare(rec, a, b, what):
    if a is None or b is None:
        rec.count("slow")
        return
    rec.count("executions", len(a[0]))
    rec.observed(json.dumps(a[0]))
    for i, (x, y) in enumerate(zip(a[0], b[0])):
        if x != y:
            rec.violation("executions-differ", f"{what}: execution {i} of {len(a[0])} was {x} and then {y}")
            return
    rec.check(len(a[0]) == len(b[0]), "length-differs", f"{what}: {len(a[0])} executions and then {len(b[0])}")
    rec.check(a[1] == b[1], "report-differs", f"{what}: reported {a[1]} and then {b[1]}")
    rec.check(a[2] == b[2], "notes-differ", f"{what}: notes {a[2]} and then {b[2]}")


def make_settings(rng, **kw):
    return S(max_examples=rng.choice([1, 10, 25, 40, 70]), phases=rng.choice([list(Phase), [Phase.generate], [Phase.reuse, Phase.generate],
             [Phase.reuse, Phase.generate, Phase.shrink], [Phase.generate, Phase.target, Phase.reuse]]), report_multiple_bugs=rng.random() < 0.6, **kw)


def k_same(rec):
    rng = rec.rng
    for _ in rec.loop(80 if rec.quick else 3000):
        prog = Program(rng, globalrandom=rng.random() < 0.3, depth=rng.choice([0, 0, 1]))
        sd = rng.choice([0, 1, -1, 2**64, rng.getrandbits(200), "text", 2.5, b"x", True])
        if rng.random() < 0.4:
            entries = FeedDatabase()
            run_for(0.5, prog.make([], S(database=entries, max_examples=40, phases=[Phase.generate, Phase.shrink]), rng.getrandbits(20)))
            stored = entries.saved()[-6:]
            dbs = [FeedDatabase(stored), FeedDatabase(rng.sample(stored, len(stored)))]
            rec.count("database_pairs")
        else:
            dbs = [None, None]
        state = rng.getstate()
        set1 = make_settings(rng, database=dbs[0])
        rng.setstate(state)
        set2 = make_settings(rng, database=dbs[1])
        a = record(prog, set1, sd)
        noise(rng)
        b = record(prog, set2, sd)
        rec.count("pairs")
        compare(rec, a, b, f"{prog.desc} seed {sd!r}")
        if dbs[0] is not None and a is not None and b is not None:
            writes = [[r for r in d.log if r[0] != "fetch"] for d in dbs]
            rec.check(writes[0] == writes[1], "writes-differ", f"{prog.desc}: the two runs wrote differently to the database")


CHILD = """
import json, random, sys
from checks.c14 import child
child(*json.load(sys.stdin))
"""


def child(seeds, noisy, derandomize):
    out = []
    for sd in seeds:
        rng = random.Random(sd)
        kw = dict(targets=rng.choice([2, 3, 4]), nfail=0) if rng.random() < 0.3 else {}
        prog = Program(rng, globalrandom=rng.random() < 0.3, depth=rng.choice([0, 0, 1]), **kw)
        setts = make_settings(rng, derandomize=derandomize)
        if noisy:
            noise(random.Random(noisy + sd))
        out.append((record(prog, setts, None if derandomize else sd), prog.desc))
    sys.__stdout__.write(json.dumps(out))


def in_child(rng, seeds, noisy, derandomize):
    env = dict(os.environ, PYTHONHASHSEED=str(rng.randrange(2**32)))
    return subprocess.Popen([sys.executable, "-c", CHILD], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                            stderr=subprocess.PIPE, text=True, env=env), json.dumps([seeds, noisy, derandomize])


def k_process(rec):
    rng = rec.rng
    for _ in rec.loop(2 if rec.quick else 40):
        seeds = [rng.getrandbits(40) for _ in range(20)]
        derandomize = rng.random() < 0.4
        ps = [in_child(rng, seeds, n, derandomize) for n in (0, rng.getrandbits(20) + 1)]
        outs = []
        for p, text_in in ps:
            o, e = p.communicate(text_in, timeout=300)
            if p.returncode:
                raise RuntimeError(e[-2000:])
            outs.append(json.loads(o))
        for (a, d), (b, d2) in zip(*outs):
            assert d == d2
            rec.count("process_pairs")
            compare(rec, a, b, f"{d}, in processes with different hash seeds{', derandomized' if derandomize else ''}")


def k_derandom(rec):
    rng = rec.rng
    for _ in rec.loop(100 if rec.quick else 3000):
        prog = Program(rng, globalrandom=rng.random() < 0.3, depth=rng.choice([0, 0, 1]))
        n = rng.choice([1, 20, 60])
        db = FeedDatabase([b"\x01\x00"])
        how = rng.randrange(3)
        old = settings._current_profile
        settings.register_profile("hv", S(), database=db)
        settings.load_profile("hv")
        try:
            def make():
                if how == 0:
                    return S(max_examples=n, derandomize=True)
                kw = dict(derandomize=True, max_examples=n, deadline=None, suppress_health_check=list(hypothesis.HealthCheck))
                if how == 1:
                    return settings(settings.default, **kw)
                return settings(**kw)
            a = record(prog, make(), None)
            noise(rng)
            b = record(prog, make(), None)
        finally:
            settings.load_profile(old)
        rec.count("derandomized")
        compare(rec, a, b, f"{prog.desc} derandomized")
        rec.check(not db.log, "database", f"{prog.desc}: a derandomized run used the database: {db.log[:4]}")
        rec.count("no_database")

    # its own identity only: another test defined or run in between changes nothing
    def variants():
        @S(derandomize=True, max_examples=15)
        @given(st.integers(), st.text())
        def one(x, y):
            got.append((x, y))

        @S(derandomize=True, max_examples=15)
        @given(st.integers(), st.text())
        def two(x, y):
            # another body
            got.append((x, y))

        @S(derandomize=True, max_examples=15)
        @given(st.integers(), st.text())
        def three(x, y):
            pass
            # the same but for its source
            got.append((x, y))
        return [one, two, three]
    got = []
    first = {}
    for i in range(10):
        for t in rng.sample(variants(), 3):
            got.clear()
            t()
            rec.observed(repr(got))
            name = t.__name__
            if name in first:
                rec.check(first[name] == repr(got), "identity", f"{name} differs between runs")
            first[name] = repr(got)
            noise(rng)
    rec.check(len(set(first.values())) == 3, "same-for-all", f"{first}")


def k_find(rec):
    """find(), stateful machines, and seeds given in other ways."""
    rng = rec.rng
    from hypothesis.stateful import Bundle, RuleBasedStateMachine, rule, run_state_machine_as_test
    for _ in rec.loop(60 if rec.quick else 2000):
        sd = rng.getrandbits(30)
        m = rng.randrange(2, 300)
        s = rng.choice([st.integers(), st.lists(st.integers(0, 50)), st.text(), st.floats(), st.sets(st.integers())])
        res = []
        for _ in range(2):
            calls = []
            try:
                v = hypothesis.find(s, lambda v: calls.append(repr(v)) or stable_hash(repr(v)) % m == 0,
                                    random=random.Random(sd), settings=S(max_examples=200))
            except hypothesis.errors.NoSuchExample:
                v = None
            res.append((calls, repr(v)))
            noise(rng)
        rec.count("pairs")
        rec.observed(res[0][1])
        rec.check(res[0] == res[1], "find", f"find over {s!r} with the same random: {len(res[0][0])} calls and {len(res[1][0])}")

        res = []
        for _ in range(2):
            steps = []

            class M(RuleBasedStateMachine):
                b = Bundle("b")

                @rule(target=b, x=st.integers(0, 9))
                def make(self, x):
                    steps.append(("make", x))
                    return x

                @rule(v=b, w=st.floats(0, 1))
                def use(self, v, w):
                    steps.append(("use", v, w))
                    if stable_hash((v, m)) % 5 == 0 and w > 0.9:
                        raise HvFail

                @rule()
                def nop(self):
                    steps.append("nop")
            o = call(run_state_machine_as_test, seed(sd)(M), settings=S(max_examples=12, stateful_step_count=6, phases=[Phase.generate, Phase.shrink]))
            res.append((steps, type(o.exc), o.out, getattr(o.exc, "__notes__", None)))
            noise(rng)
        rec.count("pairs")
        rec.observed(repr(res[0][0][:30]))
        rec.check(res[0] == res[1], "stateful", f"a machine with seed {sd} ran {len(res[0][0])} steps and then {len(res[1][0])}")


def run(unit, rec):
    globals()["k_" + unit["kind"].rstrip("0123456789")](rec)
