"""C13: example limits, and only the enabled phases, in order."""
import math

from hypothesis import Phase, assume, example, find, given, seed, settings, strategies as st
from hypothesis.database import choices_to_bytes
from hypothesis.errors import NoSuchExample, Unsatisfiable
from hypothesis.statistics import collector

from hv.programs import Program, failures, leaves, run_for, text
from hv.trees import Node, canon
from hv.util import FIRED, FeedDatabase, S, call, stable_hash, time_limit

INFO = dict(
    technique="runtime monitoring: executions of random programs under random phase sets, limits, stored entries and "
              "explicit examples are logged with the database calls and checked against the documented schedule",
    level="exploration",
    rule="One evaluation = one run of a test checked against the schedule for its settings. Non-trivial = distinct "
         "(phases, limit, entries, outcome) of a run.",
    floors={"runs": 150, "full_limits": 50, "reused": 60, "explicit": 60, "failing_runs": 40, "shrunk_runs": 10, "bounded": 20},
)
KINDS = ["phases0", "phases1", "phases2", "phases3", "limit0", "limit1", "after", "find"]
WIDE = 10**9


def units(tier, seed):
    reps = 1 if tier == "quick" else 10
    return [dict(name=f"{k}-{i}", kind=k, timeout=800) for i in range(reps) for k in KINDS]


def wide_program(rng, **kw):
    """A program whose last choice is a wide integer, so it can't be exhausted."""
    kw = dict(dict(interactive=0, randoms=False, nargs=rng.choice([1, 1, 2]), depth=rng.choice([0, 1])), **kw)
    p = Program(rng, **kw)
    s = st.integers(0, WIDE)
    p.nodes.append(Node(s, lambda v: None, repr(s)))
    return p


def measured(prog, log, setts, sd, decorate=None, limit=3):
    stats = []
    with collector.with_value(stats.append):
        o = run_for(limit, prog.make(log, setts, sd, decorate=decorate))
    return o, (stats[-1] if stats else {})


def ncases(stats, phase):
    return len(stats.get(f"{phase}-phase", {}).get("test-cases", ()))


def shortlex(b):
    return (len(b), b)


def k_phases(rec):
    rng = rec.rng
    for _ in rec.loop(150 if rec.quick else 5000):
        prog = wide_program(rng, rejectp=rng.choice([0, 0, 0, 0.1]), nfail=rng.choice([0, 0, 1, 2]))
        log0 = []
        nf, prog.failp = prog.failp, 0
        o = run_for(2, prog.make(log0, S(max_examples=8, phases=[Phase.generate]), rng.getrandbits(30)))
        prog.failp = nf
        if o is None:
            continue
        entries = {}
        for x in rng.sample(log0, min(len(log0), rng.choice([0, 1, 2, 4]))):
            if x.out in ("pass", "reject") and x.choices and type(x.choices[-1]) is int and x.vals[-1] == canon(x.choices[-1]):
                v = rng.randrange(1000, WIDE)
                entries[choices_to_bytes(x.choices[:-1] + (v,))] = x.vals[:-1] + [canon(v)]
        phases = {p for p in Phase if rng.random() < 0.6}
        n = rng.choice([1, 2, 5, 20, 40])
        multi = rng.random() < 0.6
        exs = [[("sentinel", i, k) for k in range(len(prog.nodes))] for i in range(rng.choice([0, 0, 1, 3]))]

        def decorate(t):
            for e in reversed(exs):
                t = example(**{f"a{i}": v for i, v in enumerate(e)})(t)
            return t
        db = FeedDatabase(entries)
        log = []
        o, stats = measured(prog, log, S(max_examples=n, phases=phases, database=db, report_multiple_bugs=multi),
                            None, decorate)
        if o is None:
            rec.count("slow")
            continue
        rec.count("runs")
        rec.observed((prog.salt, n, len(entries), len(log)))
        ctx = f"{prog.desc} phases={sorted(p.name for p in phases)} n={n} multi={multi} entries={list(entries.values())}: " \
              f"log {[(text(x.vals), x.out) for x in log[:6]]} of {len(log)}"
        fails = failures(log)
        # --- explicit
        exv = [text([canon(v) for v in e]) for e in exs]
        at = [i for i, x in enumerate(log) if text(x.vals) in exv]
        exfail = False
        want = []
        if Phase.explicit in phases:
            for e in exs:
                d = prog.decide([canon(v) for v in e])
                want.append(text([canon(v) for v in e]))
                rec.count("explicit")
                if type(d) is int:
                    exfail = True
                    if not multi:
                        break
        rec.check([text(x.vals) for x in log[: len(want)]] == want and len(at) == len(want), "explicit",
                  f"{ctx}: explicit examples at {at}, expected {len(want)}")
        rest = log[len(want):]
        if exfail:
            rec.check(not rest, "after-explicit", f"{ctx}: {len(rest)} executions after a failing explicit example")
            continue
        # --- database
        fetched = [r for r in db.log if r[0] == "fetch"]
        if Phase.reuse not in phases:
            rec.check(not fetched, "fetched", f"{ctx}: read the database: {fetched}")
        order, ended, broke, valid = [], False, False, 0
        if Phase.reuse in phases:
            for e in sorted(entries, key=shortlex):
                order.append(text(entries[e]))
                d = prog.decide(entries[e])
                if type(d) is int:
                    broke = True
                    if not multi:
                        break
                elif d == "pass":
                    valid += 1
                    if valid >= n and not broke:
                        ended = True
                        break
        rec.check([text(x.vals) for x in rest[: len(order)]] == order, "reuse-order",
                  f"{ctx}: expected the stored {order} after the explicit examples")
        if order:
            rec.count("reused", len(order))
        if Phase.reuse not in phases:
            ev = {text(v) for v in entries.values()}
            rec.check(not any(text(x.vals) in ev for x in rest), "stored-ran", f"{ctx}: a stored example was run")
        rest = rest[len(order):]
        if ended:
            rec.check(not rest, "over-limit", f"{ctx}: {len(rest)} more executions after {n} valid ones were reused")
            continue
        if broke:
            # what was stored still fails: only that is reported
            bad = {text(x.vals) for x in log if x.out == "fail"}
            rec.check(all(text(x.vals) in bad for x in rest), "beyond-reuse",
                      f"{ctx}: ran {[text(x.vals) for x in rest if text(x.vals) not in bad][:3]} after stored failures")
            rec.count("failing_runs")
            continue
        # --- generation
        if Phase.generate not in phases and not (Phase.target in phases and prog.targets):
            rec.check(not rest, "generated", f"{ctx}: {len(rest)} executions without the generate phase")
            continue
        if fails:
            rec.count("failing_runs")
            first = next(i for i, x in enumerate(rest) if x.out == "fail")
            if Phase.shrink not in phases and prog.targets and Phase.target in phases:
                rec.count("climbs")  # a climb under way is finished first
            elif Phase.shrink not in phases:
                rec.check(all(x.vals == rest[first].vals for x in rest[first:]), "continued",
                          f"{ctx}: ran {[text(x.vals) for x in rest[first:]][:4]} after the failure, without shrinking")
                rec.check(ncases(stats, "shrink") == 0, "shrunk", f"{ctx}: {ncases(stats, 'shrink')} test cases in the shrink phase")
            else:
                rec.count("shrunk_runs")
        elif Phase.generate in phases:
            npass = sum(x.out == "pass" for x in rest) + valid
            if npass < n and not (prog.targets and Phase.target in phases):
                rec.check(sum(x.out != "pass" for x in log) > 5 * n, "too-few", f"{ctx}: {npass} valid examples; {stats.get('stopped-because')}")
            rec.check(npass <= n, "too-many", f"{ctx}: {npass} valid examples")
            rec.count("full_limits", npass == n)
    rec.sample(program=prog.desc)


def k_limit(rec):
    rng = rec.rng
    for _ in rec.loop(80 if rec.quick else 3000):
        rejectp = rng.choice([0, 0, 0.1, 0.5, 0.95, 1.0])
        prog = wide_program(rng, nfail=0, rejectp=rejectp, depth=0, interactive=rng.choice([0, 0, 2]), targets=rng.choice([0, 0, 1]))
        n = rng.choice([1, 2, 3, 7, 10, 50, 100, 133, 300] if rejectp <= 0.1 else [1, 2, 7, 120])
        log = []
        phases = rng.choice([[Phase.generate], list(Phase), [Phase.generate, Phase.target], [Phase.explicit, Phase.generate]])
        o, stats = measured(prog, log, S(max_examples=n, phases=phases), rng.getrandbits(30), limit=4)
        if o is None:
            rec.count("slow")
            continue
        rec.count("runs")
        rec.count("bounded")
        rec.observed((prog.salt, n, len(log)))
        cap = max(10 * n, 1000)
        npass = sum(x.out == "pass" for x in log)
        rec.check(len(log) <= cap, "bound", f"{prog.desc}: {len(log)} executions with max_examples={n}")
        rec.check(npass <= n, "too-many", f"{prog.desc}: {npass} valid examples with max_examples={n}")
        stops = sum(x.out == "stop" for x in log)
        if rejectp <= 0.1 and stops < n:
            rec.check(npass == n, "too-few", f"{prog.desc}: {npass} valid examples with max_examples={n} "
                                             f"({len(log)} executions, {stats.get('stopped-because')})")
            rec.count("full_limits")
        if npass == 0:
            rec.check(isinstance(o.exc, Unsatisfiable), "unsat", f"{prog.desc}: nothing valid, but {o.exc!r}")
        # fewer than asked for only when most inputs are rejected
        if npass < n and npass:
            rec.check(len(log) > 0.5 * cap or ncases(stats, "generate") >= cap, "gave-up",
                      f"{prog.desc}: {npass} of {n} valid after {len(log)} executions, {stats.get('stopped-because')}")
    # nested tests have limits of their own
    for _ in range(4):
        a, b = rng.randrange(1, 12), rng.randrange(1, 30)
        inner_counts = []

        @S(max_examples=a)
        @given(st.integers())
        def outer(x):
            seen = []

            @S(max_examples=b)
            @given(st.integers())
            def inner(y):
                seen.append(y)
            inner()
            inner_counts.append(len(seen))
        o = call(outer)
        rec.check(o.exc is None and inner_counts == [b] * a, "nested", f"{a} x {b}: {inner_counts} {o.exc!r}")


def k_after(rec):
    """After a failure, generation goes on for a bounded number of executions."""
    rng = rec.rng
    for _ in rec.loop(80 if rec.quick else 3000):
        prog = wide_program(rng, nfail=1, depth=0, targets=0, rejectp=rng.choice([0, 0.1]), fail=rng.choice([0.002, 0.02, 0.1, 0.5, 1.0]))
        n = rng.choice([5, 50, 200, 400])
        log = []
        multi = rng.random() < 0.7
        o, stats = measured(prog, log, S(max_examples=n, phases=[Phase.generate, Phase.shrink], report_multiple_bugs=multi),
                            rng.getrandbits(30), limit=4)
        if o is None:
            rec.count("slow")
            continue
        rec.count("runs")
        rec.observed((prog.salt, n, len(log)))
        fails = failures(log)
        if not fails:
            continue
        rec.count("failing_runs")
        rec.count("bounded")
        first = next(i for i, x in enumerate(log) if x.out == "fail") + 1
        g = ncases(stats, "generate")
        ctx = f"{prog.desc}: first failure at execution {first}, {g} test cases generated with max_examples={n}, " \
              f"multiple bugs {multi}, {len(log)} executions"
        if len(fails) == 1:
            slack = sum(x.out == "stop" for x in log) + g - sum(1 for x in log[:g])  # cut off before the body
            if multi:
                rec.check(g <= max(10, 2 * (first + max(0, slack))) + 1, "went-on", ctx)
            else:
                rec.check(g <= first + max(0, slack), "went-on", ctx)
        rec.check(g <= max(10 * n, 1000), "bound", ctx)
        rec.check(sum(x.out == "pass" for x in log[:g]) <= n, "too-many", ctx)
        rec.count("shrunk_runs", ncases(stats, "shrink") > 0)
    # failing late, with nearly everything rejected: the bound on executions still holds
    for _ in range(6 if rec.quick else 60):
        n, m, keep = rng.choice([1, 10, 60, 95]), rng.randrange(300, 1300), rng.choice([0, 0, 0.02])
        calls, bad, got = [0], set(), []

        @S(max_examples=n, phases=[Phase.generate, Phase.shrink])
        @seed(rng.getrandbits(30))
        @given(st.integers(0, WIDE**2), st.integers(0, WIDE**2))
        def late(x, y):
            calls[0] += 1
            if calls[0] == m:
                bad.add((x, y))
            assert (x, y) not in bad
            assume(stable_hash((x, y)) % 1000 < keep * 1000)
        with collector.with_value(got.append):
            o = call(late)
        g = ncases(got[0] if got else {}, "generate")
        rec.observed(("late", n, m, calls[0]))
        rec.count("late_failures", bool(bad))
        rec.check(g <= max(10 * n, 1000), "bound", f"rejecting all but {keep}, failing at execution {m} with max_examples={n}: "
                                                   f"{g} test cases generated, {calls[0]} executions, {o.exc!r}")
    # failing always: the failure is the first thing seen
    for _ in range(20):
        calls = []

        @S(report_multiple_bugs=False, phases=[Phase.generate])
        @given(st.integers())
        def t(x):
            calls.append(x)
            raise ValueError
        call(t)
        rec.check(len(set(calls)) == 1 and len(calls) <= 3, "at-once", f"{calls}")


def k_find(rec):
    rng = rec.rng
    for _ in rec.loop(120 if rec.quick else 3000):
        n = rng.choice([1, 3, 20, 100, 250])
        m = rng.randrange(1, 200)
        calls = []
        phases = rng.choice([[Phase.generate], [Phase.generate, Phase.shrink]])
        s = rng.choice([st.integers(0, WIDE), st.lists(st.integers(0, WIDE), min_size=1), st.text(min_size=2)])

        def cond(v):
            calls.append(repr(v))
            return len(calls) == m or (len(calls) > m and repr(v) == calls[m - 1])
        try:
            v = find(s, cond, settings=S(max_examples=n, phases=phases))
        except NoSuchExample:
            v = None
        rec.count("runs")
        rec.observed((n, m, len(calls)))
        rec.count("bounded")
        if v is None:
            # a value that does not satisfy the condition counts as any other invalid input
            rec.check(m > n, "find-gave-up", f"{n} {m}: {len(calls)} calls")
            rec.check(len(calls) <= max(10 * n, 1000), "bound", f"{n} {m}: {len(calls)} calls")
        else:
            rec.check(repr(v) == calls[m - 1], "find-other", f"{v!r} {calls[m-1]}")
            if Phase.shrink not in phases:
                rec.check(len(calls) <= m + 3 and set(calls[m:]) <= {calls[m - 1]}, "find-went-on", f"{n} {m}: {calls[m - 1:m + 6]}")


def run(unit, rec):
    globals()["k_" + unit["kind"].rstrip("0123456789")](rec)
