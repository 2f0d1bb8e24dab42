"""C10: simplicity ranks of choices."""
import itertools
import math
import struct

from hypothesis import settings
from hypothesis.internal.conjecture.choice import choice_from_index, choice_permitted, choice_to_index
from hypothesis.internal.conjecture.data import ConjectureData, Status
from hypothesis.internal.conjecture.engine import ConjectureRunner
from hypothesis.internal.intervalsets import IntervalSet

from hv.util import NASTY_FLOATS, NASTY_INTS, NASTY_STR, S

INFO = dict(
    technique="runtime monitoring: reference model of permitted values and simplicity order, compared on "
              "exhausted small constraint spaces and random large ones, and on choices recorded by the engine",
    level="exploration",
    rule="One evaluation = one (constraint set, value or rank) pair put through rank and unrank and "
         "compared with the model. Non-trivial = distinct constraint set.",
    floors={"ranks": 20000, "permitted": 3000, "constraint_sets": 300, "engine_choices": 500},
)
KINDS = ["int0", "int1", "str", "bytes", "float0", "float1", "bool", "engine0", "engine1"]


def units(tier, seed):
    reps = 1 if tier == "quick" else 10
    return [dict(name=f"{k}-{i}", kind=k, timeout=800) for i in range(reps) for k in KINDS]


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return struct.pack("<d", a) == struct.pack("<d", b)
    return type(a) is type(b) and a == b


def trip(rec, v, kind, c, what=""):
    rec.count("ranks")
    rec.observed()
    try:
        i = choice_to_index(v, c)
        w = choice_from_index(i, kind, c)
    except Exception as e:
        rec.violation(f"{kind}-raises", f"{v!r} under {c}: {e!r}")
        return None
    if i < 0 or not same(v, w):
        rec.violation(f"{kind}-roundtrip", f"{v!r} has rank {i}, which is {w!r} under {c}")
    return i


def dense(rec, kind, c, order):
    """`order` is the start (or all) of the permitted values, simplest first."""
    rec.count("constraint_sets")
    rec.observed((kind, repr(c)), 0)
    for want, v in enumerate(order):
        i = trip(rec, v, kind, c)
        if i is not None and i != want:
            rec.violation(f"{kind}-rank", f"{v!r} should have rank {want} but has {i}, under {c}")
            return
        rec.count("permitted")
        if not choice_permitted(v, c):
            rec.violation(f"{kind}-permitted", f"{v!r} is not permitted under {c}")


# ---------------------------------------------------------------- integers
def ints_in_order(lo, hi, target, n):
    t = target
    if lo is not None:
        t = max(t, lo)
    if hi is not None:
        t = min(t, hi)
    out = []
    d = 0
    ok = lambda v: (lo is None or v >= lo) and (hi is None or v <= hi)
    while len(out) < n:
        if d == 0:
            out.append(t)
        else:
            if ok(t + d):
                out.append(t + d)
            if ok(t - d):
                out.append(t - d)
            if not ok(t + d) and not ok(t - d):
                break
        d += 1
    return out


def k_int(rec):
    rng = rec.rng
    span = 5 if rec.quick else 8
    R = range(-span, span + 1)
    if rec.unit["kind"] == "int0":
        for lo, hi, t in itertools.product([None, *R], [None, *R], R):
            if lo is not None and hi is not None and lo > hi:
                continue
            c = dict(min_value=lo, max_value=hi, weights=None, shrink_towards=t)
            dense(rec, "integer", c, ints_in_order(lo, hi, t, 30))
    for _ in rec.loop(4000 if rec.quick else 200_000):
        pick = lambda: rng.choice(NASTY_INTS) if rng.random() < 0.5 else rng.randint(-(2 ** rng.choice([4, 60, 200])), 2 ** rng.choice([4, 60, 200]))
        lo = rng.choice([None, pick()])
        hi = rng.choice([None, pick()])
        if lo is not None and hi is not None:
            lo, hi = min(lo, hi), max(lo, hi)
            if rng.random() < 0.3:
                hi = lo + rng.randrange(40)
        t = rng.choice([0, 0, pick()])
        c = dict(min_value=lo, max_value=hi, weights=None, shrink_towards=t)
        order = ints_in_order(lo, hi, t, rng.choice([5, 30]))
        dense(rec, "integer", c, order)
        ok = lambda v: (lo is None or v >= lo) and (hi is None or v <= hi)
        vals = [v + d for v in [lo or 0, hi or 0, t, pick(), 0] for d in (-1, 0, 1)]
        ranks = {}
        for v in vals:
            rec.count("permitted")
            if choice_permitted(v, c) != ok(v):
                rec.violation("integer-permitted", f"{v} under {c}: permitted is {not ok(v)}")
            if ok(v):
                i = trip(rec, v, "integer", c)
                if ranks.setdefault(i, v) != v:
                    rec.violation("integer-injective", f"{v} and {ranks[i]} share rank {i} under {c}")
        # nearer the (clamped) target is simpler
        tt = order[0]
        by = sorted((abs(v - tt), i) for i, v in ranks.items() if i is not None)
        for (d1, i1), (d2, i2) in zip(by, by[1:]):
            if d1 < d2 and not i1 < i2:
                rec.violation("integer-order", f"distance {d1} has rank {i1}, distance {d2} rank {i2} under {c}")
        if lo is not None and hi is not None:
            # onto: the last rank is the size of the range
            n = hi - lo + 1
            v = choice_from_index(n - 1, "integer", c)
            rec.count("ranks")
            if not ok(v) or choice_to_index(v, c) != n - 1:
                rec.violation("integer-dense", f"last rank {n - 1} gives {v} under {c}")


# ---------------------------------------------------------------- strings and bytes
ALPHAS = ["a", "ab", "01", "abc", "0Az", "\x00", "\n ", "é\U0010ffff", "zyx", "019AZaz", "aZ0"]


def mk_intervals(chars):
    return IntervalSet.from_string("".join(sorted(set(chars))))


def k_str(rec):
    rng = rec.rng
    for chars in ALPHAS:
        iv = mk_intervals(chars)
        n = len(iv)
        order = [chr(iv.char_in_shrink_order(i)) if isinstance(iv.char_in_shrink_order(i), int) else iv.char_in_shrink_order(i)
                 for i in range(n)]
        rec.check(sorted(order) == sorted(set(chars)), "char-order", f"{chars!r}: {order}")
        for ch in chars:
            rec.check(order[iv.index_from_char_in_shrink_order(ch)] == ch, "char-index", f"{chars!r} {ch!r}")
        # documented: characters from '0' upwards first, then those below it downwards
        want = [c for c in sorted(set(chars)) if c >= "0"]
        below = [c for c in sorted(set(chars)) if c < "0"][::-1]
        if len(set(chars)) == len(order) and not any(c > "Z" for c in chars):
            rec.check(order == want + below, "char-simplicity", f"{chars!r}: {order}")
        for lo in range(0, 3):
            for hi in [lo, lo + 1, lo + 2, 10**10]:
                c = dict(intervals=iv, min_size=lo, max_size=hi)
                vals = ["".join(t) for k in range(lo, min(hi, lo + 2 if n > 3 else lo + 3) + 1) for t in itertools.product(order, repeat=k)]
                dense(rec, "string", c, vals[:1500])
    for _ in rec.loop(1500 if rec.quick else 50_000):
        pts = sorted(rng.sample([0, 9, 32, 47, 48, 57, 65, 90, 91, 97, 122, 127, 255, 0xD7FF, 0xE000, 0xFFFF, 0x10FFFF], rng.choice([2, 4, 6])))
        iv = IntervalSet(tuple(zip(pts[::2], pts[1::2])))
        members = lambda o: any(a <= o <= b for a, b in iv.intervals)
        lo = rng.choice([0, 0, 1, 3])
        hi = rng.choice([lo, lo + 2, lo + 20, 10**10])
        c = dict(intervals=iv, min_size=lo, max_size=hi)
        rec.count("constraint_sets")
        rec.observed(("string", repr(c)), 0)
        edge = [x for p in pts for x in (p - 1, p, p + 1) if 0 <= x <= 0x10FFFF]
        ranks = {}
        for _ in range(12):
            v = "".join(chr(rng.choice(edge)) for _ in range(rng.randrange(0, 6)))
            if rng.random() < 0.2:
                v = rng.choice(NASTY_STR)
            ok = lo <= len(v) <= hi and all(members(ord(ch)) for ch in v)
            rec.count("permitted")
            if choice_permitted(v, c) != ok:
                rec.violation("string-permitted", f"{v!r} under {c}: should be {ok}")
            if ok:
                i = trip(rec, v, "string", c)
                if ranks.setdefault(i, v) != v:
                    rec.violation("string-injective", f"{v!r} {ranks[i]!r} under {c}")
        by = sorted((i, len(v)) for i, v in ranks.items() if i is not None)
        for (i1, l1), (i2, l2) in zip(by, by[1:]):
            if l1 > l2:
                rec.violation("string-order", f"a string of length {l1} is simpler than one of {l2} under {c}")
        z = choice_from_index(0, "string", c)
        rec.check(len(z) == lo and len(set(z)) <= 1 and choice_permitted(z, c), "string-zero", f"{z!r} under {c}")
        # consecutive ranks are consecutive: no holes, lengths never decrease
        base = rng.choice([0, len(iv) ** lo if lo < 3 else 0, rng.randrange(10**6)])
        if hi == 10**10:
            prev = None
            for i in range(base, base + 5):
                v = choice_from_index(i, "string", c)
                rec.count("ranks")
                if choice_to_index(v, c) != i or not choice_permitted(v, c):
                    rec.violation("string-dense", f"rank {i} is {v!r}, of rank {choice_to_index(v, c)} under {c}")
                if prev is not None and len(v) < prev:
                    rec.violation("string-order", f"rank {i} is shorter than rank {i - 1} under {c}")
                prev = len(v)


def k_bytes(rec):
    rng = rec.rng
    for lo in range(0, 3):
        for hi in [lo, lo + 1, 10**10]:
            c = dict(min_size=lo, max_size=hi)
            vals = [bytes(t) for k in range(lo, min(hi, 2) + 1) for t in itertools.product(range(256), repeat=k)]
            step = vals[:3000]
            dense(rec, "bytes", c, step)
    for _ in rec.loop(3000 if rec.quick else 100_000):
        lo = rng.choice([0, 1, 2, 5])
        hi = rng.choice([lo, lo + 3, 10**10])
        c = dict(min_size=lo, max_size=hi)
        rec.count("constraint_sets")
        rec.observed(("bytes", repr(c)), 0)
        vs = [rng.randbytes(rng.randrange(0, 9)) for _ in range(6)]
        rs = {}
        for v in vs:
            ok = lo <= len(v) <= hi
            rec.count("permitted")
            if choice_permitted(v, c) != ok:
                rec.violation("bytes-permitted", f"{v!r} under {c}")
            if ok:
                rs[v] = trip(rec, v, "bytes", c)
        vs = sorted(rs, key=lambda v: (len(v), v))
        for a, b in zip(vs, vs[1:]):
            if not rs[a] < rs[b]:
                rec.violation("bytes-order", f"{a!r} should be simpler than {b!r}, ranks {rs[a]} {rs[b]}")
        z = choice_from_index(0, "bytes", c)
        rec.check(z == bytes(lo), "bytes-zero", f"{z!r} under {c}")


# ---------------------------------------------------------------- floats
def tier_of(v):
    """Documented order: whole non-negative, then fractional, then infinite, then nan; then negative ones."""
    if math.copysign(1, v) < 0:
        return 10
    if v != v:
        return 3
    if math.isinf(v):
        return 2
    if v == int(v) and v < 2**53:
        return 0
    return 1


def k_float(rec):
    rng = rec.rng
    free = dict(min_value=-math.inf, max_value=math.inf, allow_nan=True, smallest_nonzero_magnitude=5e-324)

    def rnd():
        k = rng.randrange(5)
        if k == 0:
            return rng.choice(NASTY_FLOATS)
        if k == 1:
            return float(rng.randrange(-1000, 1000))
        if k == 2:
            return rng.uniform(-10, 10)
        if k == 3:
            return rng.randrange(2**53) / 2 ** rng.randrange(60)
        return struct.unpack("<d", rng.randbytes(8))[0]
    # whole numbers are ranked by value from zero
    dense(rec, "float", free, [float(i) for i in range(3000)])
    for k in range(12, 55):
        i = choice_to_index(float(2**k), free)
        rec.check(k > 55 or i == 2**k, "float-rank", f"{2**k}: rank {i}")
    ranks = {}
    for _ in rec.loop(30_000 if rec.quick else 1_000_000, 4 if rec.quick else 100):
        v = rnd()
        i = trip(rec, v, "float", free)
        if i is None:
            continue
        w = ranks.setdefault(i, v)
        if not same(v, w):
            rec.violation("float-injective", f"{v!r} and {w!r} share rank {i}")
        a, b = v, rnd()
        ta, tb = tier_of(a), tier_of(b)
        if ta < tb and not i < choice_to_index(b, free):
            rec.violation("float-order", f"{a!r} should be simpler than {b!r}")
        if ta == tb == 0 and a < b and not i < choice_to_index(b, free):
            rec.violation("float-order", f"{a!r} should be simpler than {b!r}")
    # constrained
    for _ in rec.loop(8000 if rec.quick else 300_000):
        lo, hi = rnd(), rnd()
        if lo != lo or hi != hi:
            lo, hi = -math.inf, math.inf
        if lo > hi or (lo == hi == 0 and math.copysign(1, lo) > math.copysign(1, hi)):
            lo, hi = hi, lo
        snm = rng.choice([5e-324, 5e-324, 2.2250738585072014e-308, 1.1754943508222875e-38])
        # bounds must themselves be permitted, as strategies guarantee
        if 0 < abs(lo) < snm or 0 < abs(hi) < snm:
            snm = 5e-324
        c = dict(min_value=lo, max_value=hi, allow_nan=rng.random() < 0.5, smallest_nonzero_magnitude=snm)
        rec.count("constraint_sets")
        rec.observed(("float", repr(c)), 0)

        def ok(v):
            if v != v:
                return c["allow_nan"]
            if 0 < abs(v) < snm:
                return False
            key = lambda x: (x, math.copysign(1, x))
            return key(lo) <= key(v) <= key(hi)
        vals = [lo, hi, rnd(), rnd(), 0.0, -0.0, math.nextafter(lo, -math.inf), math.nextafter(hi, math.inf),
                math.nextafter(lo, math.inf), math.inf, -math.inf, math.nan, 5e-324, snm, -snm]
        seen = {}
        for v in vals:
            rec.count("permitted")
            if choice_permitted(v, c) != ok(v):
                rec.violation("float-permitted", f"{v!r} under {c}: should be {ok(v)}")
            if ok(v):
                i = trip(rec, v, "float", c)
                w = seen.setdefault(i, v)
                if not same(w, v):
                    rec.violation("float-injective", f"{v!r} and {w!r} share rank {i} under {c}")
        for i in [0, 1, 2, 10, 2**63, 2**64 - 1, rng.getrandbits(65), rng.getrandbits(20)]:
            v = choice_from_index(i, "float", c)
            rec.count("ranks")
            if not ok(v):
                rec.violation("float-unrank", f"rank {i} gives {v!r}, not permitted under {c}")
        if ok(0.0):
            rec.check(same(choice_from_index(0, "float", c), 0.0), "float-zero", f"under {c}")


def k_bool(rec):
    for p in [0.0, 2**-70, 2**-64, 2**-60, 0.1, 0.5, 0.9, 1 - 2**-50, 1.0]:
        c = dict(p=p)
        rec.count("constraint_sets")
        rec.observed(("boolean", p), 0)
        vals = [False] if p <= 2**-64 else [True] if p >= 1 - 2**-64 else [False, True]
        dense(rec, "boolean", c, vals)
        for v in (True, False):
            rec.count("permitted")
            if 2**-64 < p < 1 - 2**-64 or p in (0, 1):
                rec.check(choice_permitted(v, c) == (v in vals), "boolean-permitted", f"{v} under {p}")
    rec.count("engine_choices", 0)


# ---------------------------------------------------------------- the engine's own choices
def rand_draw(rng):
    k = rng.randrange(5)
    if k == 0:
        lo = rng.choice([None, 0, -5, rng.choice(NASTY_INTS)])
        hi = rng.choice([None, 9, rng.choice(NASTY_INTS)])
        if lo is not None and hi is not None and lo > hi:
            lo, hi = hi, lo
        kw = dict(min_value=lo, max_value=hi, shrink_towards=rng.choice([0, 0, 3, -7, 100]))
        if lo is not None and hi is not None and 2 < hi - lo < 50 and rng.random() < 0.3:
            kw["weights"] = {lo: 0.2, hi: 0.3}
        return "draw_integer", kw, lambda v: type(v) is int and (lo is None or v >= lo) and (hi is None or v <= hi)
    if k == 1:
        lo, hi = sorted([rng.choice([0.0, 1.0, -2.5, -math.inf]), rng.choice([3.0, math.inf, 5e-324, 1.5])])
        an = rng.random() < 0.5
        return "draw_float", dict(min_value=lo, max_value=hi, allow_nan=an), lambda v: type(v) is float and (an if v != v else lo <= v <= hi)
    if k == 2:
        lo = rng.randrange(3)
        hi = lo + rng.randrange(4)
        return "draw_bytes", dict(min_size=lo, max_size=hi), lambda v: type(v) is bytes and lo <= len(v) <= hi
    if k == 3:
        chars = rng.choice(ALPHAS)
        lo = rng.randrange(3)
        hi = rng.choice([lo, lo + 3, 50])
        return "draw_string", dict(intervals=mk_intervals(chars), min_size=lo, max_size=hi), \
            lambda v: type(v) is str and lo <= len(v) <= hi and set(v) <= set(chars)
    p = rng.choice([0.0, 0.5, 0.01, 1.0, 0.99])
    return "draw_boolean", dict(p=p), lambda v: type(v) is bool and (p > 0 or not v) and (p < 1 or v)


def k_engine(rec):
    rng = rec.rng
    import random
    for _ in rec.loop(60 if rec.quick else 2000):
        draws = [rand_draw(rng) for _ in range(rng.randrange(1, 5))]
        mod = rng.choice([2, 3, 50])

        def test(data):
            vals = []
            for name, kw, ok in draws:
                v = getattr(data, name)(**kw)
                rec.observed((name, repr(v)))
                rec.count("engine_choices")
                if not ok(v):
                    rec.violation("engine-domain", f"{name}({kw}) gave {v!r}")
                vals.append(v)
            for n in data.nodes:
                if not choice_permitted(n.value, n.constraints):
                    rec.violation("engine-permitted", f"recorded {n.value!r}, not permitted under {n.constraints}")
                trip(rec, n.value, n.type, n.constraints)
            if sum(len(repr(v)) for v in vals) % mod == 0:
                data.mark_interesting(None)
        runner = ConjectureRunner(test, settings=S(max_examples=30), random=random.Random(rng.getrandbits(32)))
        runner.run()
        # replaying permitted values gives them back; the simplest choice has rank zero
        for d in list(runner.interesting_examples.values()):
            got = []

            def again(data):
                for name, kw, ok in draws:
                    got.append(getattr(data, name)(**kw))
            data = ConjectureData.for_choices(d.choices)
            again(data)
            rec.check(len(got) == len(d.choices) and all(same(a, b) for a, b in zip(got, d.choices)), "engine-replay",
                      f"{d.choices} replayed as {got}")
        for name, kw, ok in draws:
            lo = kw.get("min_value")
            # a value of the wrong kind or outside the constraints is replaced by a permitted one
            for bad in [2**300, -(2**300), "zz" * 60, b"q" * 99, True, math.nan, -math.inf]:
                data = ConjectureData.for_choices([bad])
                v = getattr(data, name)(**kw)
                if not ok(v):
                    rec.violation("engine-forced-domain", f"replaying {bad!r} in {name}({kw}) gave {v!r}")
                n = data.nodes[0]
                rec.count("engine_choices")
                if not same(v, bad) and choice_to_index(v, n.constraints) != 0 and type(v) is not float:
                    rec.violation("engine-not-simplest", f"replaying {bad!r} in {name}({kw}) gave {v!r}, of rank {choice_to_index(v, n.constraints)}")


def run(unit, rec):
    globals()["k_" + unit["kind"].rstrip("01")](rec)
