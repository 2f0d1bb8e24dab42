"""C11: shrinking is sound, never regresses, and reaches the known minimum."""
import datetime
import fractions
import itertools
import math

from hypothesis import Phase, given, seed, strategies as st
from hypothesis.database import choices_to_bytes
from hypothesis.internal.conjecture.choice import choice_from_index, choice_to_index

from hv.programs import Program, failures, leaves, run_for
from hv.util import FeedDatabase, HvFail, S, call, stable_hash

INFO = dict(
    technique="runtime monitoring: complexity of every failing execution compared with the reported one; reported examples "
              "compared with computed minima, and probed for any one-choice simplification which still fails",
    level="exploration",
    rule="One evaluation = one failing run, or one probe of a reported example. Non-trivial = distinct reported example.",
    floors={"sound_runs": 30, "failing_executions": 500, "probes": 60, "minima": 200},
)
KINDS = ["sound0", "sound1", "local0", "local1", "min0", "min1", "min2", "min3"]


def units(tier, seed):
    reps = 1 if tier == "quick" else 10
    return [dict(name=f"{k}-{i}", kind=k, timeout=800) for i in range(reps) for k in KINDS]


def k_sound(rec):
    rng = rec.rng
    for _ in rec.loop(150 if rec.quick else 4000):
        prog = Program(rng, nfail=rng.choice([1, 2, 3, 5]), globalrandom=rng.random() < 0.1)
        multi = rng.random() < 0.7
        log = []
        phases = list(Phase) if rng.random() < 0.6 else [p for p in Phase if p is not Phase.explain]
        o = run_for(2.5, prog.make(log, S(max_examples=50, phases=phases, report_multiple_bugs=multi), rng.getrandbits(30)))
        if o is None:
            rec.count("slow_programs")
            continue
        fs = failures(log)
        if not fs:
            continue
        rec.count("sound_runs")
        rec.count("failing_executions", sum(map(len, fs.values())))
        reported = []
        for e in leaves(o.exc, log):
            fin = next((x for x in log if x.exc is e), None)
            if not rec.check(fin is not None, "not-real", f"{prog.desc}: {e!r}"):
                continue
            reported.append(fin.origin)
            rec.observed(fin.choices)
            pool = fs[fin.origin] if multi else [x for xs in fs.values() for x in xs]
            best = min(pool, key=lambda x: x.complexity)
            rec.check(best.complexity >= fin.complexity, "regressed",
                      f"{prog.desc}: reported {fin} {fin.choices} although {best} {best.choices} failed the same way")
            # it was found before the final execution, too
            rec.check(sum(x.choices == fin.choices for x in log) > 1, "not-reproduced", f"{prog.desc}: {fin}")
        if multi:
            rec.check(sorted(map(repr, reported)) == sorted(map(repr, fs)), "failures-lost", f"{prog.desc}: {sorted(fs)} were seen, {reported} reported")
        else:
            rec.check(len(reported) == 1, "not-one", f"{prog.desc}: {o.exc!r}")
    rec.sample(program=prog.desc)


def fails_like(prog, choices, origin):
    log = []
    call(prog.make(log, S(database=FeedDatabase([choices_to_bytes(choices)]), phases=[Phase.reuse],
                          report_multiple_bugs=False), None))
    return next((x for x in log if x.origin == origin), None)


def k_local(rec):
    """What is reported after a completed shrink has no simpler neighbour which fails the same way."""
    rng = rec.rng
    for _ in rec.loop(250 if rec.quick else 8000):
        prog = Program(rng, nfail=rng.choice([1, 2, 3]), depth=rng.choice([0, 1, 2]))
        log = []
        o = run_for(2.5, prog.make(log, S(max_examples=20, phases=[Phase.generate, Phase.shrink]), rng.getrandbits(30)))
        if o is None or not failures(log) or len(log) > 180:
            continue  # the shrinker is allowed to give up after 200 fruitless executions
        for e in leaves(o.exc, log):
            fin = next(x for x in log if x.exc is e)
            rec.observed(fin.choices)
            for i, n in enumerate(fin.nodes):
                k = choice_to_index(n.value, n.constraints)
                if n.was_forced or k == 0:
                    continue
                tries = [("simplest", choice_from_index(0, n.type, n.constraints))]
                if n.type in ("integer", "boolean"):
                    tries.append(("smaller", choice_from_index(k - 1, n.type, n.constraints)))
                for name, v in tries:
                    c = list(fin.choices)
                    c[i] = v
                    rec.count("probes")
                    rec.observed()
                    x = fails_like(prog, c, fin.origin)
                    if x is not None and x.complexity < fin.complexity:
                        rec.violation("not-minimal-" + name, f"{prog.desc}: {fin.choices} was reported, but {x.choices} fails too and is simpler")


# ---------------------------------------------------------------- known minima
def depth(v):
    return 1 + max(map(depth, v), default=0) if isinstance(v, list) else 0


@st.composite
def up_to(draw):
    q = draw(st.integers(0, 10))
    return [draw(st.integers(0, q)) for _ in range(q)]


class Pair:
    def __init__(self, a, b=0):
        self.a, self.b = a, b

    def __repr__(self):
        return f"Pair({self.a}, {self.b})"


def families(r):
    """name: (strategy, predicate, the simplest value which satisfies it)"""
    m = r.choice([1, 2, 3, 7, 10, 13, 50, 100, 255, 256, 257, 999, 1000, 12345, 10**6])
    k, n = r.randint(1, 5), r.randint(1, 8)
    lo = r.randint(-50, 50)
    hi = lo + r.randint(5, 200)
    c = min(max(0, lo), hi)
    t = r.randint(lo, hi)
    D = datetime
    F = {
        "int>=": (st.integers(), lambda v: v >= m, m),
        "int<=": (st.integers(), lambda v: v <= -m, -m),
        "int abs": (st.integers(), lambda v: abs(v) >= m, m),
        "int !=0": (st.integers(), lambda v: v != 0, 1),
        "int range": (st.integers(lo, hi), lambda v: v >= t, max(t, c)),
        "int range any": (st.integers(lo, hi), lambda v: True, c),
        "int range<": (st.integers(lo, hi), lambda v: v <= t, min(t, c)),
        "float>=": (st.floats(), lambda v: v >= m, float(m)),
        "float frac": (st.floats(), lambda v: v >= m + 0.5, float(m + 1)),
        "float neg": (st.floats(), lambda v: v <= -m, float(-m)),
        "float nan": (st.floats(), lambda v: v != v, math.nan),
        "float inf": (st.floats(), lambda v: v == math.inf, math.inf),
        "float any": (st.floats(), lambda v: True, 0.0),
        "list sum": (st.lists(st.integers()), lambda v: sum(v) >= m, [m]),
        "list len": (st.lists(st.integers()), lambda v: len(v) >= n, [0] * n),
        "list any": (st.lists(st.integers()), lambda v: any(x >= m for x in v), [m]),
        "list max": (st.lists(st.integers(0, 9)), lambda v: len(v) >= k and max(v) >= 5, [0] * (k - 1) + [5]),
        "list unsorted": (st.lists(st.integers()), lambda v: v != sorted(v), [0, -1]),
        "list dup": (st.lists(st.integers()), lambda v: len(v) != len(set(v)), [0, 0]),
        "list contains": (st.lists(st.sampled_from("abcdef")), lambda v: "d" in v, ["d"]),
        "list of lists": (st.lists(st.lists(st.integers())), lambda v: sum(map(len, v)) >= n, [[0] * n]),
        "list of nonempty": (st.lists(st.lists(st.booleans())), lambda v: sum(1 for x in v if x) >= k, [[False]] * k),
        "list of bools": (st.lists(st.booleans()), lambda v: sum(v) >= k, [True] * k),
        "list fixed": (st.lists(st.integers(0, 100), min_size=k, max_size=k), lambda v: max(v) >= 50, [0] * (k - 1) + [50]),
        "list unique": (st.lists(st.integers(0, 30), unique=True), lambda v: len(v) >= k, list(range(k))),
        "list of floats": (st.lists(st.floats(0, 1e6)), lambda v: sum(v) >= m, [float(m)]),
        "list of pairs": (st.lists(st.tuples(st.integers(0), st.integers(0))), lambda v: sum(a * b for a, b in v) >= 1, [(1, 1)]),
        "text len": (st.text(), lambda v: len(v) >= n, "0" * n),
        "text has": (st.text(), lambda v: any(ch >= "z" for ch in v), "z"),
        "text any": (st.text(min_size=1), lambda v: True, "0"),
        "bytes len": (st.binary(), lambda v: len(v) >= n, bytes(n)),
        "bytes has": (st.binary(), lambda v: any(b >= 100 for b in v), b"d"),
        "bytes nonzero": (st.binary(), lambda v: any(v), b"\x01"),
        "tuple sum": (st.tuples(st.integers(0, 1000), st.integers(0, 1000)), lambda v: sum(v) >= min(m, 1000), (0, min(m, 1000))),
        "tuple lt": (st.tuples(st.integers(), st.integers()), lambda v: v[0] < v[1], (0, 1)),
        "tuple gt": (st.tuples(st.integers(), st.integers()), lambda v: v[0] > v[1], (0, -1)),
        "tuple eq": (st.tuples(st.integers(), st.integers()), lambda v: v[0] == v[1], (0, 0)),
        "tuple eq big": (st.tuples(st.integers(0, 5), st.integers(0, 5)), lambda v: v[0] == v[1] >= 3, (3, 3)),
        "tuple text": (st.tuples(st.text(), st.text()), lambda v: len(v[0]) < len(v[1]), ("", "0")),
        "tuple text ne": (st.tuples(st.text("abc"), st.text("abc")), lambda v: v[0] != v[1], ("", "a")),
        "sets": (st.sets(st.integers(0, 20)), lambda v: len(v) >= k, set(range(k))),
        "dict len": (st.dictionaries(st.integers(0, 20), st.text()), lambda v: len(v) >= k, {i: "" for i in range(k)}),
        "dict value": (st.dictionaries(st.text(), st.integers()), lambda v: any(x >= m for x in v.values()), {"": m}),
        "flatmap": (st.integers(0, 10).flatmap(lambda q: st.lists(st.integers(0, 5), min_size=q, max_size=q)),
                    lambda v: len(v) >= k, [0] * k),
        "flatmap pair": (st.integers(1, 20).flatmap(lambda q: st.tuples(st.just(q), st.integers(0, q))), lambda v: v[1] >= k, (k, k)),
        "one_of": (st.integers() | st.text(), lambda v: isinstance(v, str), ""),
        "one_of second": (st.text() | st.integers() | st.lists(st.integers()), lambda v: not isinstance(v, str), 0),
        "none or": (st.none() | st.booleans(), lambda v: v is not None, False),
        "sampled": (st.sampled_from(range(100)), lambda v: v >= n * 7, n * 7),
        "permutation": (st.permutations(range(4)), lambda v: v != [0, 1, 2, 3], [0, 1, 3, 2]),
        "permutation any": (st.permutations(range(5)), lambda v: True, [0, 1, 2, 3, 4]),
        "date": (st.dates(), lambda v: v.year > 2000 + m % 100, D.date(2001 + m % 100, 1, 1)),
        "date before": (st.dates(), lambda v: v.year < 2000, D.date(1999, 1, 1)),
        "date any": (st.dates(), lambda v: True, D.date(2000, 1, 1)),
        "date mirrored": (st.dates(D.date(1980, 1, 1), D.date(2020, 1, 1)), lambda v: abs(v.year - 2000) == n, D.date(2000 + n, 1, 1)),
        "int mirrored": (st.integers(-50, 50), lambda v: abs(v) == n, n),
        "float mirrored": (st.floats(-50, 50).map(round), lambda v: abs(v) == n, n),
        "time": (st.times(), lambda v: v.hour >= 5, D.time(5)),
        "datetime": (st.datetimes(), lambda v: v.month >= 3, D.datetime(2000, 3, 1)),
        "timedelta": (st.timedeltas(), lambda v: v.days >= m, D.timedelta(days=m)),
        "fraction": (st.fractions(), lambda v: v >= m, fractions.Fraction(m)),
        "fraction nonint": (st.fractions(), lambda v: v.denominator > 1, fractions.Fraction(1, 2)),
        "complex": (st.complex_numbers(), lambda v: abs(v.real) >= m, complex(m, 0)),
        "recursive": (st.recursive(st.integers(), lambda s: st.lists(s, max_size=3)), lambda v: isinstance(v, list), []),
        "recursive depth": (st.recursive(st.none(), lambda s: st.lists(s, max_size=3)), lambda v: depth(v) >= 3, [[[]]]),
        "builds": (st.builds(lambda a, b: (a, b), st.integers(), st.text()), lambda v: v[0] >= m and len(v[1]) >= 2, (m, "00")),
        "builds class": (st.builds(Pair, st.integers(), b=st.integers()), lambda v: v.a + v.b >= 1, Pair(0, 1)),
        "map": (st.integers(0).map(lambda x: x * 2), lambda v: v > m, m // 2 * 2 + 2),
        "composite": (up_to(), lambda v: len(v) >= k, [0] * k),
        "character": (st.characters(), lambda v: v > "b", "c"),
        "regex": (st.from_regex(r"[a-z]+", fullmatch=True), lambda v: len(v) >= k, "a" * k),
        "fixed dict": (st.fixed_dictionaries({"a": st.integers()}, optional={"b": st.integers()}), lambda v: "b" in v, {"a": 0, "b": 0}),
        "either list": (st.tuples(*[st.lists(st.integers(-1000, 1000))] * 2), lambda v: any(map(len, v)), ([], [0])),
        "shared": (st.tuples(*[st.shared(st.integers(), key="k")] * 2), lambda v: v[0] >= m, (m, m)),
    }
    return F


def k_min(rec):
    rng = rec.rng
    names = sorted(families(rng))
    rng.shuffle(names)
    for name in itertools.islice(itertools.cycle(names), 400 if rec.quick else 40_000):
        if not any(True for _ in rec.loop(1)):
            break
        strat, pred, want = families(rng)[name]
        got, runs = [], [0]
        phases = rng.choice([list(Phase), [Phase.generate, Phase.shrink], [Phase.generate, Phase.target, Phase.shrink]])

        @S(max_examples=500, phases=phases, report_multiple_bugs=rng.random() < 0.5)
        @seed(rng.getrandbits(32))
        @given(strat)
        def t(v):
            runs[0] += 1
            if pred(v):
                got.append(v)
                raise HvFail
        o = run_for(6, t)
        if o is None:
            rec.count("slow_minima")
            continue
        rec.count("executions", runs[0])
        if o.exc is None:
            rec.count("not_found")
            continue
        if not isinstance(o.exc, HvFail):
            rec.violation("other-error", f"{name}: {o.exc!r}")
            continue
        rec.count("minima")
        rec.observed((name, repr(got[-1])))
        if repr(got[-1]) != repr(want):
            rec.violation("not-minimum:" + name, f"{name}: reported {got[-1]!r} where {want!r} is simplest")
    rec.sample(last=name, found=got[-1:])


def run(unit, rec):
    globals()["k_" + unit["kind"].rstrip("0123456789")](rec)
