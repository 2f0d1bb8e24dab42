"""C01: numeric strategies produce exactly their documented domain."""
import decimal
import math
import struct
from decimal import Decimal
from fractions import Fraction

from hypothesis import strategies as st
from hypothesis.errors import InvalidArgument

from hv.util import NASTY_INTS, drive, finite_values, replay_gives, produces

INFO = dict(
    level="exploration",
    rule="One evaluation = one value of a numeric strategy seen by a test function in one "
         "of: generation, shrinking, targeting, fuzz_one_input on arbitrary bytes, replay of "
         "arbitrary stored choices; plus one per endpoint/finite-domain member looked for. "
         "Non-trivial = distinct strategy configuration, or distinct domain member.",
    floors={"configs": 50, "executions_s": 200, "executions_f": 200, "executions_r": 1000,
            "endpoints": 200, "finite_members": 300},
    assumptions=["sign of zero is only checked against non-excluded bounds"],
)
KINDS = ["ints", "floats", "floats16", "floats32", "decimals", "fractions", "complex", "finite_ints",
         "finite_floats", "finite_decimals", "finite_fractions", "fixed"]


def units(tier, seed):
    reps = 1 if tier == "quick" else 12
    return [dict(name=f"{k}-{i}", kind=k, timeout=800) for i in range(reps) for k in KINDS]


# --------------------------------------------------------------------- oracles
def is_width(v, width):
    if width == 64 or math.isnan(v) or math.isinf(v):
        return True
    try:
        return struct.unpack("<f" if width == 32 else "<e",
                             struct.pack("<f" if width == 32 else "<e", v))[0] == v
    except OverflowError:
        return False


SMALLEST = {64: 2.2250738585072014e-308, 32: 2.0**-126, 16: 2.0**-14}
MAXF = {64: 1.7976931348623157e308, 32: (2 - 2**-23) * 2.0**127, 16: 65504.0}


def lte(a, b):
    if a == 0 and b == 0:
        return math.copysign(1, a) <= math.copysign(1, b)
    return a <= b


def float_complaint(v, c):
    if type(v) is not float:
        return f"not a float: {type(v)}"
    lo, hi = c.get("min_value"), c.get("max_value")
    w = c.get("width", 64)
    if math.isnan(v):
        allowed = c.get("allow_nan")
        if allowed is None:
            allowed = lo is None and hi is None
        return None if allowed else "nan is not allowed"
    if math.isinf(v) and c.get("allow_infinity") is False:
        return "infinity is not allowed"
    if math.isinf(v) and c.get("allow_infinity") is None and lo is not None and hi is not None \
            and not (math.isinf(lo) or math.isinf(hi)):
        return "infinity between finite bounds"
    if lo is not None and not (v > lo if c.get("exclude_min") else lte(lo, v)):
        return "below min_value"
    if hi is not None and not (v < hi if c.get("exclude_max") else lte(v, hi)):
        return "above max_value"
    if not is_width(v, w):
        return f"not representable in {w} bits"
    if c.get("allow_subnormal") is False and v != 0 and abs(v) < SMALLEST[w]:
        return "subnormal"
    return None


def try_make(f, **c):
    c = {k: v for k, v in c.items() if v is not None}
    try:
        s = f(**c)
        s.validate()
        return s
    except InvalidArgument:
        return None


def same_float(a, b):
    if a != a or b != b:
        return a != a and b != b
    return a == b and math.copysign(1, a) == math.copysign(1, b)


def reachable(rec, name, s, wanted, eq, n=300):
    for w in wanted:
        rec.count("endpoints")
        rec.observed((name, repr(w)))
        if any(eq(w, g) for g in replay_gives(s, [w])):
            rec.count("endpoints_by_replay")
            continue
        if produces(s, [w], n=n, seeds=(rec.rng.getrandbits(30), 7, 8), eq=eq):
            rec.violation(f"unreachable:{name.split('|')[0]}",
                          f"{name}: {w!r} is in the domain but is never produced")


# --------------------------------------------------------------------- units
def rand_int(rng):
    v = rng.choice(NASTY_INTS)
    return v + rng.choice([0, 0, 1, -1, 2, rng.randint(-300, 300)])


def run_ints(rec):
    rng = rec.rng
    for _ in rec.loop(16 if rec.quick else 40):
        a, b = rand_int(rng), rand_int(rng)
        if rng.random() < 0.5:
            b = a + rng.choice([0, 1, 2, 5, 100, 127, 128, 129, 255, 256, 1000, 2**24, 2**64])
        a, b = min(a, b), max(a, b)
        lo = a if rng.random() < 0.8 else None
        hi = b if rng.random() < 0.8 else None
        s = st.integers(lo, hi)
        name = f"integers|({lo}, {hi})"

        def obs(v):
            if type(v) is not int:
                return f"not an int: {type(v)}"
            if (lo is not None and v < lo) or (hi is not None and v > hi):
                return f"{v} out of bounds"
        rec.count("configs")
        rec.observed(name)
        drive(rec, name, s, obs, n=50, fuzz_n=25, replay_n=25,
              metric=lambda v: v if abs(v) < 2**1000 else None)
        ends = [e for e in (lo, hi) if e is not None]
        if lo is not None and hi is not None:
            ends += [(lo + hi) // 2, lo + 1 if lo < hi else lo]
            if lo <= 0 <= hi:
                ends.append(0)
        elif lo is not None:
            ends += [lo + 2**70, lo + 1]
        elif hi is not None:
            ends += [hi - 2**70, hi - 1]
        reachable(rec, name, s, ends, lambda x, y: x == y)
        rec.sample(strategy=name, endpoints=ends)


def rand_float(rng, w):
    k = rng.randrange(5)
    base = [0.0, -0.0, 1.0, -1.0, SMALLEST[w], -SMALLEST[w], MAXF[w], -MAXF[w], 0.5, 3.0, 1000.0,
            math.inf, -math.inf, 1.5, -2.25]
    if k < 3:
        v = rng.choice(base)
    elif k == 3:
        v = float(rng.randint(-100, 100))
    else:
        v = rng.uniform(-10, 10)
    if w == 32:
        v = struct.unpack("<f", struct.pack("<f", v))[0]
    elif w == 16:
        v = struct.unpack("<e", struct.pack("<e", v))[0]
    if rng.random() < 0.3 and not math.isinf(v):
        v2 = math.nextafter(v, rng.choice([-math.inf, math.inf])) if w == 64 else \
            step(v, rng.choice([-1, 1]), w)
        if is_width(v2, w):
            v = v2
    return v


def step(v, d, w):
    if w == 64:
        return math.nextafter(v, math.inf * d)
    f, i = ("<f", "<I") if w == 32 else ("<e", "<H")
    if v == 0:
        r = struct.unpack(f, struct.pack(i, 1))[0]
        return r * d
    n = struct.unpack(i, struct.pack(f, v))[0]
    n += d if v > 0 else -d
    return struct.unpack(f, struct.pack(i, n))[0]


def run_floats(rec, w):
    rng = rec.rng
    made = 0
    for _ in rec.loop(10**6):
        if made >= (14 if rec.quick else 40):
            break
        a, b = rand_float(rng, w), rand_float(rng, w)
        if b < a:
            a, b = b, a
        c = dict(width=w)
        if rng.random() < 0.75:
            c["min_value"] = a
        if rng.random() < 0.75:
            c["max_value"] = b
        if rng.random() < 0.3 and "min_value" in c:
            c["exclude_min"] = True
        if rng.random() < 0.3 and "max_value" in c:
            c["exclude_max"] = True
        for k in ("allow_nan", "allow_infinity", "allow_subnormal"):
            if rng.random() < 0.25:
                c[k] = rng.random() < 0.5
        s = try_make(st.floats, **c)
        if s is None:
            rec.count("rejected_configs")
            made += 0.05
            continue
        made += 1
        name = f"floats{w}|{c}"
        rec.count("configs")
        rec.observed(name)
        drive(rec, name, s, lambda v: float_complaint(v, c), n=50, fuzz_n=25, replay_n=25,
              metric=lambda v: v)
        cand = [a, b, 0.0, -0.0, 1.0, math.inf, -math.inf, MAXF[w], -MAXF[w], SMALLEST[w],
                step(0.0, 1, w), -step(0.0, 1, w), math.nan]
        if not math.isinf(a):
            cand.append(step(a, 1, w))
        if not math.isinf(b):
            cand.append(step(b, -1, w))
        ends = [e for e in cand if is_width(e, w) and float_complaint(e, dict(c)) is None]
        # defaults documented as "depends on platform/width": only demand what is certain
        if c.get("allow_subnormal") is None:
            pass
        reachable(rec, name, s, ends, same_float, n=300)
        rec.sample(strategy=name, endpoints=ends)


def run_decimals(rec):
    rng = rec.rng
    ctx = decimal.Context(prec=2000, Emin=decimal.MIN_EMIN, Emax=decimal.MAX_EMAX)
    made = 0
    for _ in rec.loop(10**6):
        if made >= (24 if rec.quick else 60):
            break
        def rd():
            k = rng.randrange(4)
            if k == 0:
                return Decimal(rng.randint(-20, 20))
            if k == 1:
                return Decimal(rng.randint(-10**6, 10**6)).scaleb(-rng.randrange(8))
            if k == 2:
                return Decimal(rng.choice(["0.1", "-0.1", "1E+5", "1E-5", "0.333", "123456789.123",
                                           "0", "-0", "9.99", "1e28", "-1e28", "1e-28"]))
            return Decimal(rng.uniform(-5, 5))
        a, b = sorted((rd(), rd()))
        c = {}
        if rng.random() < 0.7:
            c["min_value"] = a
        if rng.random() < 0.7:
            c["max_value"] = b
        if rng.random() < 0.5:
            c["places"] = rng.choice([0, 1, 2, 3, 5])
        for k in ("allow_nan", "allow_infinity"):
            if rng.random() < 0.4:
                c[k] = rng.random() < 0.5
        s = try_make(st.decimals, **c)
        if s is None:
            rec.count("rejected_configs")
            made += 0.05
            continue
        made += 1
        name = f"decimals|{c}"
        lo, hi, places = c.get("min_value"), c.get("max_value"), c.get("places")

        def obs(v):
            if type(v) is not Decimal:
                return f"not a Decimal {type(v)}"
            if v.is_nan():
                ok = c.get("allow_nan")
                if ok is None:
                    ok = lo is None or hi is None
                return None if ok else "nan not allowed"
            if v.is_infinite():
                ok = c.get("allow_infinity")
                if ok is False:
                    return "infinity not allowed"
                if (v > 0 and hi is not None) or (v < 0 and lo is not None):
                    return "infinity beyond bound"
                return None
            if lo is not None and ctx.compare(v, lo) < 0:
                return f"{v} below {lo}"
            if hi is not None and ctx.compare(v, hi) > 0:
                return f"{v} above {hi}"
            if places is not None and v.as_tuple().exponent != -places:
                return f"{v} does not have exactly {places} places"
        rec.count("configs")
        rec.observed(name)
        drive(rec, name, s, obs, n=50, fuzz_n=25, replay_n=25,
              metric=lambda v: float(v) if v.is_finite() else None)
        ends = []
        if places is not None and lo is not None and hi is not None:
            q = Decimal(10) ** -places
            e = lo.quantize(q, decimal.ROUND_CEILING, ctx)
            f = hi.quantize(q, decimal.ROUND_FLOOR, ctx)
            ends = [e, f]
        if c.get("allow_nan") is True:
            ends.append(Decimal("NaN"))
        reachable(rec, name, s, [], None)
        miss = produces(s, ends, n=600, seeds=(1, 2, 3),
                        eq=lambda x, y: (x.is_nan() and y.is_nan()) or (
                            not x.is_nan() and not y.is_nan() and x == y))
        for e in ends:
            rec.count("endpoints")
        for m in miss:
            rec.violation("unreachable:decimals", f"{name}: {m} never produced")
        rec.sample(strategy=name, endpoints=ends)


def run_fractions(rec):
    rng = rec.rng
    made = 0
    for _ in rec.loop(10**6):
        if made >= (24 if rec.quick else 60):
            break
        def rf():
            return Fraction(rng.randint(-50, 50), rng.choice([1, 1, 2, 3, 7, 10, 97, 1000]))
        a, b = sorted((rf(), rf()))
        if rng.random() < 0.2:
            b = a + Fraction(1, rng.choice([2, 100, 10**9]))
        c = {}
        if rng.random() < 0.7:
            c["min_value"] = a
        if rng.random() < 0.7:
            c["max_value"] = b
        if rng.random() < 0.6:
            c["max_denominator"] = rng.choice([1, 2, 3, 10, 97, 1000, 10**6])
        s = try_make(st.fractions, **c)
        if s is None:
            rec.count("rejected_configs")
            made += 0.05
            continue
        made += 1
        name = f"fractions|{c}"
        lo, hi, md = c.get("min_value"), c.get("max_value"), c.get("max_denominator")

        def obs(v):
            if type(v) is not Fraction:
                return f"not a Fraction: {type(v)}"
            if lo is not None and v < lo:
                return f"{v} below {lo}"
            if hi is not None and v > hi:
                return f"{v} above {hi}"
            if md is not None and v.denominator > md:
                return f"denominator of {v} above {md}"
        rec.count("configs")
        rec.observed(name)
        drive(rec, name, s, obs, n=50, fuzz_n=25, replay_n=25, metric=float)
        ends = [e for e in (lo, hi) if e is not None]
        rec.count("endpoints", len(ends))
        for e in ends:
            # the drawn denominator multiplies that of the bounds
            if any(e == g for k in (1, e.denominator, md or 1)
                   for g in replay_gives(s, [k, e.numerator * k // (e.denominator if k > 1 else 1)])):
                rec.count("endpoints_by_replay")
                continue
            if produces(s, [e], n=500, seeds=(1, 2, 3)):
                rec.violation("unreachable:fractions", f"{name}: bound {e} never produced")
        rec.sample(strategy=name)


def run_complex(rec):
    rng = rec.rng
    made = 0
    for _ in rec.loop(10**6):
        if made >= (20 if rec.quick else 60):
            break
        c = {}
        if rng.random() < 0.5:
            c["min_magnitude"] = rng.choice([0, 0.5, 1, 2.5, 1e-3, 100, 1e10])
        if rng.random() < 0.6:
            c["max_magnitude"] = rng.choice([0, 0.5, 1, 3, 1e-3, 100, 1e10, 65504.0])
        for k in ("allow_nan", "allow_infinity", "allow_subnormal"):
            if rng.random() < 0.3:
                c[k] = rng.random() < 0.5
        if rng.random() < 0.4:
            c["width"] = rng.choice([32, 64, 128])
        s = try_make(st.complex_numbers, **c)
        if s is None:
            rec.count("rejected_configs")
            made += 0.05
            continue
        made += 1
        name = f"complex|{c}"
        lo, hi = c.get("min_magnitude", 0), c.get("max_magnitude")
        half = c.get("width", 128) // 2

        def obs(v):
            if type(v) is not complex:
                return f"not complex: {type(v)}"
            parts = (v.real, v.imag)
            for p in parts:
                if not is_width(p, half):
                    return f"{p} is not {half} bits wide"
                if c.get("allow_subnormal") is False and p != 0 and abs(p) < SMALLEST[half]:
                    return "subnormal part"
            if any(map(math.isnan, parts)):
                ok = c.get("allow_nan")
                if ok is None:
                    ok = lo == 0 and hi is None
                return None if ok else "nan not allowed"
            if any(map(math.isinf, parts)):
                ok = c.get("allow_infinity")
                if ok is None:
                    ok = hi is None
                return None if ok else "infinity not allowed"
            # exact comparison of squared magnitudes, with one part in 10^9 (2^-20 for narrow
            # widths) of slack for rounding of the computed component bounds
            m2 = Fraction(v.real) ** 2 + Fraction(v.imag) ** 2
            tol = Fraction(1, 10**9) if half == 64 else Fraction(1, 500 if half == 16 else 10**6)
            if m2 < Fraction(lo) ** 2 * (1 - tol):
                return f"magnitude {abs(v)} below {lo}"
            if hi is not None and m2 > Fraction(hi) ** 2 * (1 + tol):
                return f"magnitude {abs(v)} above {hi}"
        rec.count("configs")
        rec.observed(name)
        drive(rec, name, s, obs, n=60, fuzz_n=30, replay_n=30)
        rec.sample(strategy=name)


def exhaust(rec, name, s, want, n=None, key=lambda v: v, unbits=None):
    want = set(want)
    seen, calls = finite_values(s, n=n or 4 * len(want) + 200, sd=rec.rng.getrandbits(30), key=key)
    rec.count("finite_domains")
    rec.count("finite_members", len(want))
    for w in want:
        rec.observed((name, str(w)))
    missing = want - set(seen)
    if unbits:  # narrow floats are rounded 64-bit ones, so their choice space is not small
        missing = {m for m in missing if m not in map(key, replay_gives(s, [unbits(m)]))}
    extra = set(seen) - want
    if missing:
        rec.violation(f"incomplete:{name.split('|')[0]}",
                      f"{name}: {len(missing)} of {len(want)} members never produced, e.g. "
                      f"{sorted(map(repr, missing))[:5]}")
    if extra:
        rec.violation(f"extra:{name.split('|')[0]}",
                      f"{name}: produced {sorted(map(repr, extra))[:5]}")
    return calls


def bits(v):
    return struct.pack("<d", v)


def unbits(b):
    return struct.unpack("<d", b)[0]


def run_finite_ints(rec):
    rng = rec.rng
    for _ in rec.loop(20 if rec.quick else 60):
        a = rand_int(rng)
        size = rng.choice([1, 2, 3, 5, 17, 64, 100, 128, 130, 200, 256, 300])
        exhaust(rec, f"integers|({a}, {a + size - 1})", st.integers(a, a + size - 1),
                range(a, a + size))
    exhaust(rec, "booleans|", st.booleans(), [False, True], key=lambda v: v)
    seen, _ = finite_values(st.booleans())
    rec.check(set(seen) == {"True", "False"}, "booleans", f"{seen}")


def run_finite_floats(rec):
    rng = rec.rng
    for _ in rec.loop(30 if rec.quick else 90):
        w = rng.choice([16, 32, 64])
        lo = rand_float(rng, w)
        if math.isinf(lo):
            continue
        vals = [lo]
        for _ in range(rng.choice([0, 1, 3, 10, 40])):
            nxt = step(vals[-1], 1, w)
            if vals[-1] == 0 and math.copysign(1, vals[-1]) < 0:
                nxt = 0.0
            elif nxt == 0 and vals[-1] < 0:
                nxt = -0.0
            if math.isinf(nxt):
                break
            vals.append(nxt)
        s = try_make(st.floats, min_value=vals[0], max_value=vals[-1], width=w)
        if s is None:
            rec.count("rejected_configs")
            continue
        want = list(vals)
        exhaust(rec, f"floats|{w} {vals[0]!r}..{vals[-1]!r}", s, map(bits, want), key=bits, unbits=unbits if w < 64 else None)
        if len(vals) > 2:
            s = st.floats(vals[0], vals[-1], width=w, exclude_min=True, exclude_max=True)
            want = [v for v in vals if vals[0] < v < vals[-1]]
            if want:
                exhaust(rec, f"floats-excl|{w} {vals[0]!r}..{vals[-1]!r}", s, map(bits, want), key=bits, unbits=unbits if w < 64 else None)
        if w == 64 and len(vals) > 3:
            pass
    # half-precision: infinities and nan on top of a bounded tail
    for lo, hi in ((65472.0, None), (None, -65472.0)):
        c = dict(width=16, allow_nan=False)
        if lo is not None:
            want = [65472.0, 65504.0, math.inf]
            s = st.floats(min_value=lo, **c)
        else:
            want = [-65472.0, -65504.0, -math.inf]
            s = st.floats(max_value=hi, **c)
        exhaust(rec, f"floats-tail|{lo} {hi}", s, map(bits, want), key=bits, unbits=unbits)


def run_finite_decimals(rec):
    rng = rec.rng
    for _ in rec.loop(20 if rec.quick else 60):
        places = rng.choice([0, 1, 2, 3])
        unit = Decimal(1).scaleb(-places)
        a = rng.randint(-2000, 2000)
        n = rng.choice([0, 1, 2, 9, 10, 30, 60])
        lo, hi = a * unit, (a + n) * unit
        if rng.random() < 0.4:  # bounds that are not themselves multiples
            lo -= unit / 3
            hi += unit / 3
        elif rng.random() < 0.3:
            lo, hi = int(lo) if lo == int(lo) else lo, hi
        exhaust(rec, f"decimals|{lo} {hi} {places}",
                st.decimals(lo, hi, places=places, allow_nan=False),
                [i * unit for i in range(a, a + n + 1)])


def run_finite_fractions(rec):
    rng = rec.rng
    for _ in rec.loop(14 if rec.quick else 40):
        d = rng.choice([1, 2, 3, 4, 5, 6, 7])
        lo = Fraction(rng.randint(-20, 20), rng.randint(1, d))
        hi = lo + Fraction(rng.randint(0, 8), rng.randint(1, d))
        if hi.denominator > d:
            hi = hi.limit_denominator(d)
            if hi < lo:
                continue
        want = {Fraction(p, q) for q in range(1, d + 1)
                for p in range(math.ceil(lo * q), math.floor(hi * q) + 1)}
        exhaust(rec, f"fractions|{lo} {hi} {d}", st.fractions(lo, hi, max_denominator=d), want,
                n=40 * len(want) + 2000)


def run_fixed(rec):
    """Configurations that the documentation promises to accept."""
    F = st.floats
    inf = math.inf
    cases = [
        (F, dict(min_value=-0.0, max_value=0.0), [0.0, -0.0]),
        (F, dict(min_value=0.0, max_value=0.0), [0.0]),
        (F, dict(min_value=-0.0, max_value=-0.0), [-0.0]),
        (F, dict(min_value=5e-324, max_value=5e-324), [5e-324]),
        (F, dict(min_value=-5e-324, max_value=5e-324, allow_subnormal=False), [0.0, -0.0]),
        (F, dict(min_value=MAXF[64], max_value=MAXF[64]), [MAXF[64]]),
        (F, dict(min_value=MAXF[64]), [MAXF[64], inf]),
        (F, dict(min_value=MAXF[64], exclude_min=True), [inf]),
        (F, dict(min_value=inf, max_value=inf), [inf]),
        (F, dict(max_value=-inf), [-inf]),
        (F, dict(min_value=0.0, max_value=5e-324, exclude_min=True), [5e-324]),
        (F, dict(min_value=0, max_value=5e-324, exclude_max=True), [0.0]),
        (F, dict(min_value=-5e-324, max_value=0.0, exclude_min=True), [-0.0, 0.0]),
        (F, dict(min_value=1, max_value=1), [1.0]),
        (F, dict(min_value=2**53, max_value=2**53 + 2), [2.0**53, 2.0**53 + 2]),
        (F, dict(min_value=65504, max_value=65504, width=16), [65504.0]),
        (st.integers, dict(min_value=2**128, max_value=2**128 + 1), [2**128, 2**128 + 1]),
        (st.integers, dict(min_value=3.0, max_value=4.0), [3, 4]),
        (st.integers, dict(min_value=-1, max_value=-1), [-1]),
        (st.decimals, dict(min_value="0.1", max_value="0.1"), [Decimal("0.1")]),
        (st.decimals, dict(min_value=1, max_value=1), [Decimal(1)]),
        (st.decimals, dict(min_value=0, max_value=1, places=0), [Decimal(0), Decimal(1)]),
        (st.decimals, dict(min_value="1.05", max_value="1.14", places=1), [Decimal("1.1")]),
        (st.fractions, dict(min_value="1/3", max_value="1/3"), [Fraction(1, 3)]),
        (st.fractions, dict(min_value=1, max_value=1, max_denominator=1), [Fraction(1)]),
        (st.fractions, dict(min_value="1/3", max_value="1/2", max_denominator=3),
         [Fraction(1, 3), Fraction(1, 2)]),
        (st.complex_numbers, dict(max_magnitude=0), [0j]),
    ]
    for f, c, want in cases:
        name = f"{f.__name__}|{c}"
        rec.count("configs")
        rec.observed(name)
        try:
            s = f(**c)
            s.validate()
        except InvalidArgument as e:
            rec.violation(f"rejected:{f.__name__}", f"{name} was rejected: {e}")
            continue
        drive(rec, name, s, lambda v: None, n=40, fuzz_n=10, replay_n=20)
        seen, _ = finite_values(s, n=300, sd=rec.rng.getrandbits(30),
                                key=lambda v: v if not isinstance(v, float) else bits(v))
        want_k = {bits(w) if isinstance(w, float) else w for w in want}
        rec.check(set(seen) == want_k, f"domain:{f.__name__}",
                  f"{name}: produced {list(seen.values())[:6]} instead of {want}")
    # values every default strategy must be able to give
    for s, name, vals in [
        (st.floats(), "floats()", [math.nan, inf, -inf, 0.0, -0.0, 5e-324, -5e-324, MAXF[64],
                                   -MAXF[64], 1 / 3]),
        (st.floats(width=32), "floats(width=32)", [math.nan, inf, -0.0, MAXF[32], 2.0**-149]),
        (st.floats(width=16), "floats(width=16)", [math.nan, inf, -0.0, 65504.0, 2.0**-24]),
        (st.integers(), "integers()", [0, 1, -1, 2**127, -(2**128), 2**1000]),
        (st.floats(allow_nan=False, allow_infinity=False), "floats(finite)", [MAXF[64], -0.0]),
    ]:
        reachable(rec, name, s, vals, same_float if "floats" in name else (lambda x, y: x == y))
    for s, name, vals in [
        (st.decimals(), "decimals()", [Decimal("Infinity"), Decimal("-Infinity"), Decimal(0)]),
    ]:
        miss = produces(s, vals, n=1000, seeds=(1, 2), eq=lambda x, y: not y.is_nan() and x == y)
        rec.check(not miss, "unreachable:decimals", f"{name} never gives {miss}")
    miss = produces(st.decimals(), [1], n=1000, seeds=(1, 2), eq=lambda x, y: y.is_nan())
    rec.check(not miss, "unreachable:decimals", "decimals() never gives nan")


def run(unit, rec):
    k = unit["kind"]
    if k.startswith("floats"):
        run_floats(rec, int(k[6:] or 64))
    else:
        globals()["run_" + k](rec)
