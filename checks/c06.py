"""C06: NumPy, array-API and pandas strategies."""
import itertools
import math
import operator
import warnings

import numpy as np
import pandas as pd

from hypothesis import given, strategies as st
from hypothesis.errors import InvalidArgument
from hypothesis.extra import numpy as nps, pandas as pdst
from hypothesis.extra.array_api import make_strategies_namespace

from hv.util import S, call, drive, extremes, finite_values, report_unexpected

INFO = dict(
    technique="runtime monitoring: NumPy/pandas-based oracle over every generated array, shape, index and frame",
    level="exploration",
    rule="One evaluation = one array, shape, axis tuple, index, dtype, Series, Index or DataFrame "
         "seen by a test in some engine mode and judged against its specification, recomputed "
         "with NumPy/pandas themselves. Non-trivial = distinct specification.",
    floors={"specs": 40, "executions": 2000, "finite_spaces": 5},
)
KINDS = ["arrays0", "arrays1", "dtypes", "shapes", "indices", "xp", "series", "frames0", "frames1"]


def units(tier, seed):
    reps = 1 if tier == "quick" else 10
    return [dict(name=f"{k}-{i}", kind=k, timeout=800) for i in range(reps) for k in KINDS]


# ------------------------------------------------------------------ element domains
def rand_elements(rng, dtype):
    """(strategy or dict or None, predicate on a python value)"""
    k = dtype.kind
    if k in "iu":
        info = np.iinfo(dtype)
        lo = rng.choice([info.min, 0, 3, rng.randint(info.min, info.max)])
        hi = rng.choice([info.max, lo, min(info.max, lo + rng.randrange(50))])
        lo, hi = min(lo, hi), max(lo, hi)
        kw = dict(min_value=lo, max_value=hi)
        return rng.choice([kw, st.integers(lo, hi), nps.from_dtype(dtype, **kw)]), \
            lambda v: lo <= int(v) <= hi
    if k == "f":
        w = dtype.itemsize * 8
        if rng.random() < 0.4:
            return dict(allow_nan=False), lambda v: not math.isnan(v)
        if rng.random() < 0.3:
            return dict(allow_nan=False, allow_infinity=False), lambda v: math.isfinite(v)
        lo, hi = rng.choice([(0.0, 1.0), (-2.0, 2.0), (1.0, 1.5), (-256.0, -0.5), (0.5, 0.5)])
        ex = rng.random() < 0.3 and lo < hi
        kw = dict(min_value=lo, max_value=hi, exclude_min=ex)
        return rng.choice([kw, st.floats(lo, hi, exclude_min=ex, width=min(w, 64)) if w <= 64 else kw]), \
            lambda v: lo <= float(v) <= hi and not (ex and v == lo)
    if k == "c":
        if rng.random() < 0.5:
            return dict(allow_nan=False), lambda v: not np.isnan(v)
        m = rng.choice([1.0, 8.0])
        return dict(max_magnitude=m, allow_nan=False), lambda v: abs(v) <= m * (1 + 1e-6)
    if k == "b":
        return rng.choice([(None, lambda v: True), (st.just(True), bool), (st.booleans(), lambda v: True)])
    if k == "U":
        n = dtype.itemsize // 4
        m = rng.randrange(0, n + 1)
        kw = dict(alphabet="abz", min_size=0, max_size=m)
        return rng.choice([kw, st.text("abz", max_size=m)]), \
            lambda v: set(v) <= set("abz") and len(v) <= m
    if k == "S":
        n = dtype.itemsize
        m = rng.randrange(0, n + 1)
        return rng.choice([dict(max_size=m), st.binary(max_size=m).filter(lambda b: not b.endswith(b"\0"))]), \
            lambda v: len(v) <= m
    if k in "mM":
        return rng.choice([(None, lambda v: True),
                           (dict(allow_nan=False), lambda v: not np.isnat(v)),
                           (dict(min_value=-5, max_value=9), lambda v: True),  # (ignored)
                           ])
    return None, lambda v: True


DTYPES = ["?", "i1", "u1", "<i2", ">i2", "<u4", ">i4", "i8", "u8", "f2", ">f4", "f4", "f8", ">f8",
          "c8", "c16", ">c16", "U1", "U4", ">U3", "S1", "S5", "M8[ns]", "M8[D]", "<m8[s]", ">M8[us]", "m8[Y]"]


def eq_nan(a, b):
    return a == b or (a != a and b != b)


def k_arrays(rec):
    rng = rec.rng
    for _ in rec.loop(250 if rec.quick else 4000):
        dt = np.dtype(rng.choice(DTYPES))
        elements, pred = rand_elements(rng, dt)
        if rng.random() < 0.3 or dt.kind == "V":
            elements, pred = None, lambda v: True
        shp = rng.choice([0, 1, 3, (), (0,), (2, 3), (1, 1, 2), (2, 0, 3), 12, (4, 5),
                          nps.array_shapes(max_dims=3, max_side=4), st.integers(0, 6),
                          nps.array_shapes(min_dims=0, max_dims=2, min_side=0, max_side=3)])
        unique = rng.random() < 0.3 and (elements is None or dt.kind not in "iuUSfc")
        if unique and "just" in repr(elements):
            unique = False
        fillkind = rng.choice(["default", "default", "nothing", "own"])
        kw = {}
        estrat = nps.from_dtype(dt) if elements is None else (
            nps.from_dtype(dt, **elements) if isinstance(elements, dict) else elements)
        if elements is not None:
            kw["elements"] = elements
        if fillkind == "nothing":
            kw["fill"] = st.nothing()
        elif fillkind == "own" and not unique:
            kw["fill"] = estrat
        if unique:
            kw["unique"] = True
        dts = rng.choice([dt, dt, dt, st.just(dt)])
        name = f"arrays({dt.str},{shp},{kw})"
        rec.count("specs")
        rec.observed(name, 0)
        strat = nps.arrays(dts, shp, **kw)
        fixed = shp if isinstance(shp, tuple) else (shp,) if isinstance(shp, int) else None

        def observe(a):
            if dt.kind != "O" and not isinstance(a, np.ndarray):
                return f"not an array: {a!r}"
            if a.dtype != dt or a.dtype.byteorder != dt.byteorder and a.dtype.str != dt.str:
                return f"dtype {a.dtype.str}"
            if fixed is not None and a.shape != fixed:
                return f"shape {a.shape}"
            if fixed is None and isinstance(shp, st.SearchStrategy):
                if "integers" in repr(shp):
                    if a.ndim != 1 or not 0 <= a.shape[0] <= 6:
                        return f"shape {a.shape}"
                elif "min_side=0" in repr(shp):
                    if a.ndim > 2 or any(not 0 <= s <= 3 for s in a.shape):
                        return f"shape {a.shape}"
                elif not 1 <= a.ndim <= 3 or any(not 1 <= s <= 4 for s in a.shape):
                    return f"shape {a.shape}"
            if not a.flags.writeable:
                return "not writable"
            flat = a.reshape(-1)
            for v in flat:
                if not pred(v):
                    return f"element {v!r} is outside the domain"
            if unique:
                vals = [v for v in flat.tolist()] if dt.kind not in "mM" else flat.astype("i8").tolist()
                if dt.kind in "mM":
                    vals = [v for v, f in zip(vals, flat) if not np.isnat(f)]
                vals = [v for v in vals if v == v]
                if len(set(vals)) != len(vals):
                    return f"duplicates in {flat.tolist()!r}"
            # poison it: nothing that comes later may see this
            try:
                a[...] = np.zeros((), dt) if dt.kind not in "iu" else np.iinfo(dt).max
            except Exception as e:
                return f"writing failed: {e!r}"

        if unique and dt.kind == "?" and False:
            continue
        modes = rng.choice(["gx", "gf", "sr", "g", "gr"])
        size = fixed and math.prod(fixed)
        # (unique arrays can be bigger than their element domain)
        drive(rec, name, strat, observe, n=30, modes=modes, fuzz_n=20, replay_n=15,
              expect_sat=not unique, keyfn=lambda a: repr(a)[:300])
    # finite spaces
    for f, n in [(st.nothing(), 3), (None, 2)]:
        kw = {} if f is None else dict(fill=f)
        seen, calls = finite_values(nps.arrays(bool, n, **kw), n=600, sd=rng.getrandbits(32),
                                    key=lambda a: tuple(a.tolist()))
        rec.count("finite_spaces")
        want = set(itertools.product([False, True], repeat=n))
        rec.check(set(seen) == want, "arrays-incomplete", f"fill={f}: missing {want - set(seen)}")
    seen, calls = finite_values(nps.arrays(np.int8, 3, elements=st.integers(0, 2), unique=True), n=900,
                                sd=rng.getrandbits(32), key=lambda a: tuple(a.tolist()))
    rec.check(set(seen) == set(itertools.permutations(range(3))), "arrays-unique-incomplete", seen)
    # elements that do not fit are refused, not silently changed
    for dt, el in [(np.int8, st.just(300)), (np.uint8, st.just(-1)), 
                   ("U2", st.just("abc")), ("S1", st.just(b"xy")), (np.float32, st.just(0.1)), (np.complex64, st.just(0.1j)), (np.int32, st.just(1.5)),
                   (np.float16, st.just(1e6))]:
        for kw in [{}, dict(fill=st.nothing())]:
            @S(max_examples=10)
            @given(nps.arrays(dt, 3, elements=el, **kw))
            def t(a):
                rec.violation("arrays-lossy", f"arrays({dt}, elements={el}) gave {a!r}", v=a)
            out = call(t)
            rec.observed(("lossy", str(dt), bool(kw)))
            rec.check(isinstance(out.exc, (InvalidArgument, OverflowError)), "arrays-lossy-exc",
                      f"arrays({dt}, elements={el}, {kw}): {out.exc!r}")


# ------------------------------------------------------------------ dtypes
def k_dtypes(rec):
    rng = rec.rng
    cases = []
    E = {"?": "", "<": "<", ">": ">", "=": "="}

    def endian_ok(d, e):
        if d.itemsize == 1 or d.byteorder == "|":
            return True
        o = d.newbyteorder("=").str[0]
        if e == "?":
            return True
        if e == "=":
            return d.isnative
        return d.str[0] == e
    for e in "?<>=":
        for fn, kind, sizes in [
            (nps.integer_dtypes, "i", rng.sample([8, 16, 32, 64], rng.randint(1, 4))),
            (nps.unsigned_integer_dtypes, "u", rng.sample([8, 16, 32, 64], rng.randint(1, 4))),
            (nps.floating_dtypes, "f", rng.sample([16, 32, 64], rng.randint(1, 3))),
            (nps.complex_number_dtypes, "c", rng.sample([64, 128], rng.randint(1, 2))),
        ]:
            strat = fn(endianness=e, sizes=tuple(sizes))
            cases.append((f"{fn.__name__}({e},{sizes})", strat,
                          lambda d, kind=kind, sizes=sizes, e=e: d.kind == kind and d.itemsize * 8 in sizes and endian_ok(d, e),
                          sizes))
        lo, hi = sorted([rng.randint(1, 20), rng.randint(1, 20)])
        cases.append((f"unicode({e},{lo},{hi})", nps.unicode_string_dtypes(endianness=e, min_len=lo, max_len=hi),
                      lambda d, e=e, lo=lo, hi=hi: d.kind == "U" and lo <= d.itemsize // 4 <= hi and endian_ok(d, e), None))
        cases.append((f"bytes({e},{lo},{hi})", nps.byte_string_dtypes(endianness=e, min_len=lo, max_len=hi),
                      lambda d, lo=lo, hi=hi: d.kind == "S" and lo <= d.itemsize <= hi, None))
        per = ["Y", "M", "D", "h", "m", "s", "ms", "us", "ns", "ps", "fs", "as"]
        a, b = sorted(rng.sample(range(len(per)), 2))
        for fn, k in [(nps.datetime64_dtypes, "M"), (nps.timedelta64_dtypes, "m")]:
            cases.append((f"{fn.__name__}({per[a]},{per[b]},{e})",
                          fn(max_period=per[a], min_period=per[b], endianness=e),
                          lambda d, k=k, e=e, a=a, b=b: d.kind == k and np.datetime_data(d)[0] in per[a:b + 1]
                          and np.datetime_data(d)[1] == 1 and endian_ok(d, e),
                          None))
    cases.append(("scalar_dtypes", nps.scalar_dtypes(), lambda d: d.kind in "?biufcmM", None))
    cases.append(("boolean_dtypes", nps.boolean_dtypes(), lambda d: d == np.dtype(bool), None))
    for sz in (100, 400):
        cases.append((f"nested({sz})", nps.nested_dtypes(max_itemsize=sz),
                      lambda d, sz=sz: isinstance(d, np.dtype) and d.itemsize <= sz, None))
        for al in (True, False):
            cases.append((f"array_dtypes({sz},{al})",
                          nps.array_dtypes(max_size=3, min_size=1, allow_subarrays=al),
                          lambda d, al=al: d.names is not None and 1 <= len(d.names) <= 3 and len(set(d.names)) == len(d.names)
                          and (al or all(d.fields[n][0].subdtype is None for n in d.names)), None))
    for name, strat, ok, sizes in cases:
        if not any(True for _ in rec.loop(1)):
            break
        rec.count("specs")
        rec.observed(name, 0)
        got = set()

        def observe(d):
            if isinstance(d, np.dtype) and d.kind != "V":
                got.add(d.itemsize * 8)
            if not isinstance(d, np.dtype) or not ok(d):
                return f"{d!r} does not fit"
        drive(rec, name, strat, observe, n=40, modes="gfr", fuzz_n=15, replay_n=10)
        if sizes:
            rec.check(set(sizes) == got, "dtype-size-missing", f"{name}: got {got}")
    # from_dtype
    for _ in rec.loop(60 if rec.quick else 800):
        dt = np.dtype(rng.choice(DTYPES))
        el, pred = rand_elements(rng, dt)
        kw = el if isinstance(el, dict) else {}
        if not isinstance(el, dict):
            pred = lambda v: True
        rec.count("specs")
        name = f"from_dtype({dt.str},{kw})"
        rec.observed(name, 0)

        def observe(v):
            x = np.array(v, dtype=dt)
            if x.shape != ():
                return "not a scalar"
            y = x[()]
            if not (eq_nan(y, v) or (dt.kind in "mM" and np.isnat(y) and np.isnat(v))):
                return f"changes when stored: {y!r}"
            if not pred(v if dt.kind not in "mM" else y):
                return "outside the requested domain"
        drive(rec, name, nps.from_dtype(dt, **kw), observe, n=25, modes="gfx", fuzz_n=15)
    for _ in rec.loop(20 if rec.quick else 200):
        # structured and nested dtypes through arrays
        dt = None
        got = []

        @S(max_examples=1, database=None)
        @given(st.data())
        def pick(data):
            got.append(data.draw(rng.choice([nps.array_dtypes(max_size=3), nps.nested_dtypes(max_itemsize=60)])))
        call(pick)
        name = "arrays-nested"
        d0 = [np.dtype([("a", "i1"), ("b", "f8", (2,))]), np.dtype([("x", "U2"), ("y", [("z", "?")])]),
              np.dtype([("q", ("i2", (2, 2)))])] + got
        d = rng.choice(d0)
        rec.count("specs")
        want = np.zeros((2,), d)
        drive(rec, f"{name}|{d}", nps.arrays(d, 2), lambda a: None if (a.dtype == want.dtype and a.shape == want.shape)
              else f"{a.dtype} {a.shape} for {d}", n=15, modes="gf", fuzz_n=8)


# ------------------------------------------------------------------ shapes
def shape_cases(rng, mod):
    d = sorted([rng.randrange(0, 5), rng.randrange(0, 5)])
    s = sorted([rng.randrange(0, 5), rng.randrange(0, 6)])
    kw = dict(min_dims=d[0], max_dims=d[1], min_side=s[0], max_side=s[1])
    if rng.random() < 0.3:
        del kw["max_dims"]
    if rng.random() < 0.3:
        del kw["max_side"]
    yield f"array_shapes({kw})", mod.array_shapes(**kw), lambda x: (
        isinstance(x, tuple) and d[0] <= len(x) <= kw.get("max_dims", min(d[0] + 2, 32))
        and all(s[0] <= e <= kw.get("max_side", s[0] + 5) for e in x)
        or f"bad shape {x}")

    base = tuple(rng.choice([1, 1, 2, 3, 5, 0]) for _ in range(rng.randrange(0, 4)))
    lo = rng.randrange(0, 4)
    kw2 = dict(min_dims=lo, max_dims=lo + rng.randrange(0, 4))
    smin = rng.choice([0, 1, 1, 1, 2])
    kw2.update(min_side=smin, max_side=smin + rng.randrange(0, 5))

    def okb(x):
        try:
            np.broadcast_shapes(base, x)
        except ValueError:
            return f"{x} is not broadcastable with {base}"
        if not kw2["min_dims"] <= len(x) <= kw2["max_dims"]:
            return f"{len(x)} dims"
        if any(not kw2["min_side"] <= e <= kw2["max_side"] for e in x):
            return f"sides {x}"
        return True
    try:
        b = mod.broadcastable_shapes(base, **kw2)
        b.validate()
    except InvalidArgument:
        pass
    else:
        yield f"broadcastable_shapes({base},{kw2})", b, okb

    n = rng.choice([1, 2, 3, 4])
    kw3 = dict(kw2)

    def okm(x):
        shapes, result = x.input_shapes, x.result_shape
        if len(shapes) != n:
            return f"{len(shapes)} shapes"
        try:
            r = np.broadcast_shapes(base, *shapes)
        except ValueError:
            return f"{shapes} do not broadcast with {base}"
        if r != result:
            return f"result {result} should be {r}"
        for q in shapes:
            if not kw3["min_dims"] <= len(q) <= kw3["max_dims"]:
                return f"{len(q)} dims"
            if any(not kw3["min_side"] <= e <= kw3["max_side"] for e in q):
                return f"sides {q}"
        return True
    try:
        b = mod.mutually_broadcastable_shapes(*([n] if mod is not nps else []), **({} if mod is not nps else dict(num_shapes=n)), base_shape=base, **kw3)
        b.validate()
    except InvalidArgument:
        pass
    else:
        yield f"mutually_broadcastable({n},{base},{kw3})", b, okm

    nd = rng.randrange(0, 5)
    lo = rng.randrange(0, nd + 1)
    hi = rng.randrange(lo, nd + 1)

    def okx(x):
        if not isinstance(x, tuple) or not lo <= len(x) <= hi:
            return f"size of {x}"
        if any(not -nd <= a < nd for a in x):
            return f"{x} out of range"
        if len({a % nd for a in x}) != len(x):
            return f"{x} repeats an axis"
        return True
    yield f"valid_tuple_axes({nd},{lo},{hi})", mod.valid_tuple_axes(nd, min_size=lo, max_size=hi), okx


def parse_sig(sig):
    ins, out = sig.split("->")
    p = lambda s: [tuple(x for x in t.split(",") if x) for t in s[1:-1].split("),(")]
    return p(ins), p(out)[0]


def gufunc_ok(sig, base, x):
    ins, outdims = parse_sig(sig)
    shapes, result = x.input_shapes, x.result_shape
    if len(shapes) != len(ins):
        return f"{len(shapes)} inputs"
    sizes, loops = {}, []
    for core, shape in zip(ins, shapes):
        # optional dims may be absent: try with and without, from the end
        names = [c.rstrip("?") for c in core]
        opt = [c.endswith("?") for c in core]
        k = len(core)
        frozen_missing = None
        if len(shape) < k:
            keep = [i for i in range(k) if not opt[i]]
            if len(shape) < len(keep):
                return f"{shape} has fewer than the core dimensions {core}"
            names = [names[i] for i in keep]
            k = len(names)
        elif any(opt):
            return None if True else ""  # ambiguous: judged only on the absent case
        cs = shape[len(shape) - k:]
        loops.append(shape[:len(shape) - k])
        for nme, sz in zip(names, cs):
            if nme.isdigit():
                if sz != int(nme):
                    return f"fixed dimension {nme} is {sz}"
            elif sizes.setdefault(nme, sz) != sz:
                return f"core dimension {nme} is both {sizes[nme]} and {sz}"
    try:
        lr = np.broadcast_shapes(base, *loops)
    except ValueError:
        return f"loop dimensions {loops} do not broadcast (base {base})"
    o = []
    for c in outdims:
        if c.endswith("?") and c[:-1] not in sizes:
            continue
        c = c.rstrip("?")
        if c.isdigit():
            o.append(int(c))
        elif c not in sizes:
            return None
        else:
            o.append(sizes[c])
    if tuple(result) != lr + tuple(o):
        return f"result {result}, expected {lr + tuple(o)}"
    return None


SIGS = ["(i)->()", "(i),(i)->()", "(m,n),(n,p)->(m,p)", "(m,n),(n)->(m)", "(3),(3)->(3)", "(n),(n),(n)->(n)",
        "(i,j)->(j,i)", "(),()->()", "(a,b,c),(c)->(a,b)", "(m?,n),(n,p?)->(m?,p?)", "(i),(2)->(i)"]


def k_shapes(rec):
    rng = rec.rng
    api = make_strategies_namespace_np()
    for i in rec.loop(35 if rec.quick else 1000):
        mod = rng.choice([nps, nps, api])
        for name, strat, ok in shape_cases(rng, mod):
            rec.count("specs")
            rec.observed(name, 0)

            def observe(x):
                r = ok(x)
                return None if r is True else r
            drive(rec, name, strat, observe, n=25, modes=rng.choice(["g", "gx", "gf", "s", "gr"]),
                  fuzz_n=12, replay_n=10)
    for sig in SIGS:
        base = rng.choice([(), (2,), (3, 1), (1,)])
        kw = dict(signature=sig, base_shape=base)
        if rng.random() < 0.5:
            kw.update(min_side=1, max_side=4)
        rec.count("specs")
        name = f"gufunc|{sig},{base}"
        rec.observed(name, 0)
        drive(rec, name, nps.mutually_broadcastable_shapes(**kw), lambda x: gufunc_ok(sig, base, x), n=40,
              modes="gfs", fuzz_n=20)
    # a real ufunc agrees
    for uf, ops in [(np.matmul, 2), (np.add, 2)]:
        sig = uf.signature

        def observe(x):
            a = [np.ones(s) for s in x.input_shapes]
            try:
                r = uf(*a)
            except ValueError as e:
                return f"{uf} refuses {x}: {e}"
            if np.shape(r) != tuple(x.result_shape):
                return f"{uf} gives {np.shape(r)}, not {x.result_shape}"
        s = nps.mutually_broadcastable_shapes(signature=sig) if sig else nps.mutually_broadcastable_shapes(num_shapes=2)
        drive(rec, f"ufunc|{uf.__name__}", s, observe, n=60, modes="gfsx", fuzz_n=20)
    # exact finite spaces
    seen, _ = finite_values(nps.array_shapes(min_dims=0, max_dims=2, min_side=1, max_side=3), n=900, sd=rng.getrandbits(32))
    rec.count("finite_spaces")
    rec.check(len(seen) == 1 + 3 + 9, "shapes-incomplete", f"{sorted(seen)}")
    for nd in (1, 2, 3):
        seen, _ = finite_values(nps.valid_tuple_axes(nd), n=4000, sd=rng.getrandbits(32))
        want = {repr(t) for k in range(nd + 1) for p in itertools.permutations(range(nd), k)
                for t in itertools.product(*[(a, a - nd) for a in p])}
        rec.count("finite_spaces")
        rec.check(set(seen) == want, "axes-incomplete",
                  f"ndim={nd}: missing {sorted(want - set(seen))[:5]} extra {sorted(set(seen) - want)[:5]}")
    for base in [(2,), (1, 2), (), (3, 1)]:
        seen, _ = finite_values(nps.broadcastable_shapes(base, max_dims=2, min_dims=0, max_side=3), n=4000, sd=rng.getrandbits(32), key=lambda x: x)
        want = set()
        for k in range(3):
            for s in itertools.product([1, 2, 3], repeat=k):
                try:
                    np.broadcast_shapes(s, base)
                    want.add(s)
                except ValueError:
                    pass
        rec.count("finite_spaces")
        rec.check(set(seen) == want, "broadcastable-incomplete", f"{base}: missing {sorted(want - set(seen))} extra {sorted(set(seen) - want)}")


# ------------------------------------------------------------------ indices
def k_indices(rec):
    rng = rec.rng
    api = make_strategies_namespace_np()
    for i in rec.loop(150 if rec.quick else 4000):
        shape = tuple(rng.choice([0, 1, 2, 3, 5]) for _ in range(rng.randrange(0, 5)))
        arr = np.arange(math.prod(shape)).reshape(shape)
        rec.count("specs")
        which = rng.choice(["basic", "basic", "int", "xp"])
        if which == "basic":
            kw = dict(allow_ellipsis=rng.random() < 0.6, allow_newaxis=rng.random() < 0.4)
            lo = rng.choice([0, 0, 1, 2])
            kw["min_dims"] = lo
            if rng.random() < 0.7:
                kw["max_dims"] = lo + rng.randrange(0, 4)
            try:
                s = nps.basic_indices(shape, **kw)
                s.validate()
            except InvalidArgument:
                rec.count("invalid_specs")
                continue
            name = f"basic_indices({shape},{kw})"

            def observe(ix):
                parts = ix if isinstance(ix, tuple) else (ix,)
                for p in parts:
                    if not (isinstance(p, (int, slice)) or p is None or p is Ellipsis):
                        return f"part {p!r}"
                if not kw["allow_ellipsis"] and any(p is Ellipsis for p in parts):
                    return "ellipsis"
                if not kw["allow_newaxis"] and any(p is None for p in parts):
                    return "newaxis"
                try:
                    r = arr[ix]
                except IndexError as e:
                    return f"invalid index: {e}"
                nd = np.ndim(r)
                if nd < kw["min_dims"]:
                    return f"{nd} dims < {kw['min_dims']}"
                if nd > kw.get("max_dims", 32):
                    return f"{nd} dims > {kw['max_dims']}"
        elif which == "int":
            if not shape or 0 in shape:
                continue
            rs = (rng.choice([(2,), (1, 3), (), (0,), (2, 2)]))
            kw = {}
            if rng.random() < 0.6:
                kw["result_shape"] = st.just(rs)
            dt = rng.choice([np.int8, np.int64, np.uint8])
            if rng.random() < 0.5:
                kw["dtype"] = np.dtype(dt)
            s = nps.integer_array_indices(shape, **kw)
            name = f"integer_array_indices({shape},{kw})"

            def observe(ix):
                if not isinstance(ix, tuple) or len(ix) != len(shape):
                    return f"{len(ix)} arrays for {shape}"
                for a, side in zip(ix, shape):
                    if a.dtype != np.dtype(kw.get("dtype", np.dtype(np.int_))):
                        return f"dtype {a.dtype}"
                    if a.size and not ((-side <= a) & (a < side)).all():
                        return "out of range"
                r = arr[ix]
                if "result_shape" in kw and np.shape(r) != rs:
                    return f"result shape {np.shape(r)} not {rs}"
        else:
            if not shape or len(shape) > 3:
                continue
            lo = rng.choice([0, 0, 1])
            kw = dict(min_dims=lo, allow_newaxis=rng.random() < 0.4, allow_ellipsis=rng.random() < 0.6)
            if rng.random() < 0.5:
                kw["max_dims"] = lo + rng.randrange(0, 3)
            try:
                s = api.indices(shape, **kw)
                s.validate()
            except InvalidArgument:
                rec.count("invalid_specs")
                continue
            name = f"xp.indices({shape},{kw})"

            def observe(ix):
                parts = ix if isinstance(ix, tuple) else (ix,)
                if sum(p is Ellipsis for p in parts) > int(kw["allow_ellipsis"]):
                    return "ellipsis"
                nn = sum(p is None for p in parts)
                if nn and not kw["allow_newaxis"]:
                    return "newaxis"
                if not any(p is Ellipsis for p in parts) and len(parts) - nn != len(shape):
                    return "array-API indices must cover all the axes"
                try:
                    r = arr[ix]
                except IndexError as e:
                    return f"invalid index: {e}"
                if np.ndim(r) < lo or np.ndim(r) > kw.get("max_dims", 32):
                    return f"rank {np.ndim(r)}"
                for p, side in zip([p for p in parts if p is not None] if not any(p is Ellipsis for p in parts) else [], shape):
                    if isinstance(p, slice):
                        # the standard's rules for in-bounds slices
                        if p.step is None or p.step > 0:
                            if p.start is not None and not -side <= p.start <= side:
                                return f"slice start {p}"
                            if p.stop is not None and not -side <= p.stop <= side:
                                return f"slice stop {p}"
        rec.observed(name, 0)
        sat = not shape or 0 not in shape
        if which != "int":
            sat = kw["min_dims"] <= len(shape) <= kw.get("max_dims", 32) and sat
        drive(rec, name, s, observe, n=25, modes=rng.choice(["g", "gx", "gf", "s", "gr"]), fuzz_n=12, replay_n=10,
              expect_sat=sat)
    # every integer, the ellipsis and the empty index are reachable
    seen, n = finite_values(nps.basic_indices((3,)), n=3000, sd=rng.getrandbits(32))
    want = {repr(x) for x in [0, 1, 2, -1, -2, -3, (0,), Ellipsis, (Ellipsis, 0), (0, Ellipsis), ()]} - {"()"}
    rec.count("finite_spaces")
    rec.check(want <= set(seen) or n >= 3000, "index-incomplete", f"missing {want - set(seen)}; {n} calls")
    seen, n = finite_values(nps.integer_array_indices((2,), result_shape=st.just((2,))), n=500, sd=rng.getrandbits(32),
                            key=lambda x: tuple(x[0].tolist()))
    rec.count("finite_spaces")
    want = set(itertools.product([0, 1], repeat=2))
    neg = set(itertools.product([0, 1, -1, -2], repeat=2))
    rec.check(want <= set(seen) <= neg, "intindex-incomplete", f"{sorted(seen)}")


# ------------------------------------------------------------------ array API
def make_strategies_namespace_np():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return make_strategies_namespace(np, api_version="2022.12")


def k_xp(rec):
    rng = rec.rng
    api = make_strategies_namespace_np()
    for i in rec.loop(200 if rec.quick else 3000):
        dtn = rng.choice(["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64",
                          "float32", "float64", "complex64", "complex128"])
        dt = getattr(np, dtn if dtn != "bool" else "bool_")
        nd = np.dtype(dt)
        kw = {}
        pred = lambda v: True
        if nd.kind in "iu":
            ii = np.iinfo(nd)
            lo = rng.randint(ii.min, ii.max)
            hi = rng.randint(lo, ii.max)
            if rng.random() < 0.7:
                kw = dict(min_value=lo, max_value=hi)
                pred = lambda v: lo <= int(v) <= hi
        elif nd.kind == "f":
            kw = rng.choice([{}, dict(allow_nan=False), dict(min_value=0, max_value=1, exclude_max=True),
                             dict(min_value=-1.0, allow_infinity=False, max_value=None), dict(allow_subnormal=False)])
            tiny = np.finfo(nd).smallest_normal
            pred = lambda v: (kw.get("allow_nan", True) and not ("min_value" in kw) or v == v) \
                and ("min_value" not in kw or not v < kw["min_value"]) \
                and (kw.get("max_value") is None or v < 1) \
                and (kw.get("allow_infinity", True) or not math.isinf(v)) \
                and (kw.get("allow_subnormal", True) or v == 0 or not abs(v) < tiny)
        elif nd.kind == "c":
            kw = rng.choice([{}, dict(allow_nan=False), dict(allow_infinity=False, allow_nan=False)])
            pred = lambda v: (not kw or v == v) and (len(kw) < 2 or np.isfinite(v))
        shp = rng.choice([(), 0, 3, (2, 3), (0, 2), (6,), 30, api.array_shapes(max_dims=2, max_side=3)])
        unique = rng.random() < 0.3
        rec.count("specs")
        if rng.random() < 0.4:
            name = f"xp.from_dtype({dtn},{kw})"

            def observe(v):
                py = {"b": bool, "i": int, "u": int, "f": float, "c": complex}[nd.kind]
                if not isinstance(v, py):
                    return f"type {type(v)}"
                if not pred(v):
                    return "outside the domain"
                if not eq_nan(py(nd.type(v)), v) and nd.kind != "c":
                    return "not representable"
            rec.observed(name, 0)
            drive(rec, name, api.from_dtype(dt, **kw), observe, n=25, modes="gfx", fuzz_n=12)
            continue
        el = kw or None
        akw = dict(elements=el, unique=unique)
        if rng.random() < 0.3:
            akw["fill"] = st.nothing()
        name = f"xp.arrays({dtn},{shp},{akw})"
        rec.observed(name, 0)
        fixed = shp if isinstance(shp, tuple) else (shp,) if isinstance(shp, int) else None

        def observe(a):
            if a.dtype != nd:
                return f"dtype {a.dtype}"
            if fixed is not None and a.shape != fixed:
                return f"shape {a.shape}"
            for v in a.reshape(-1):
                if not pred(v):
                    return f"element {v!r}"
            if unique:
                vals = [v for v in a.reshape(-1).tolist() if v == v]
                if len(set(vals)) != len(vals):
                    return "duplicates"
            if not a.flags.writeable:
                return "not writable"
            a[...] = 0 if nd.kind != "f" else -77
        drive(rec, name, api.arrays(dt, shp, **akw), observe, n=25, modes=rng.choice(["gf", "gx", "sr"]),
              fuzz_n=12, replay_n=10, expect_sat=not unique, keyfn=lambda a: repr(a)[:300])
    groups = dict(
        scalar_dtypes="?bhilqBHILQfdFD", boolean_dtypes="?", numeric_dtypes="bhilqBHILQfdFD", real_dtypes="bhilqBHILQfd",
        integer_dtypes="bhilq", unsigned_integer_dtypes="BHILQ", floating_dtypes="fd", complex_dtypes="FD")
    for g, chars in groups.items():
        seen, _ = finite_values(getattr(api, g)(), n=300, sd=rng.getrandbits(32), key=lambda d: np.dtype(d).str)
        want = {np.dtype(c).str for c in chars}
        rec.count("finite_spaces")
        rec.check(set(seen) == want, "xp-dtypes", f"{g}: {sorted(seen)} vs {sorted(want)}")
    for v in ["2021.12", "2022.12"]:
        a2 = make_strategies_namespace(np, api_version=v)
        rec.check(hasattr(a2, "complex_dtypes") == (v != "2021.12"), "xp-version", f"{v}")


# ------------------------------------------------------------------ pandas
PD_DT = ["int8", "int64", "float64", "float32", "bool", "datetime64[ns]", "timedelta64[ns]", "object", "uint16"]


def pd_elements(rng, dt):
    if dt == "object":
        return rng.choice([
            (st.tuples(st.integers(0, 3), st.booleans()), lambda v: isinstance(v, tuple) and len(v) == 2 and 0 <= v[0] <= 3),
            (st.text("ab", max_size=3), lambda v: isinstance(v, str) and set(v) <= set("ab")),
            (st.sampled_from([None, "x", 3]), lambda v: v is None or v in ("x", 3) or v != v)])
    if dt == "bool":
        return st.booleans(), lambda v: isinstance(v, (bool, np.bool_))
    if "64[ns]" in dt:
        return None, lambda v: True
    if dt.startswith("float"):
        return st.floats(1.0, 8.0, width=32), lambda v: 1 <= v <= 8
    return st.integers(5, 120), lambda v: 5 <= v <= 120 and float(v).is_integer()


def rand_index(rng):
    k = rng.randrange(7)
    u = rng.random() < 0.6
    if k == 0:
        a = rng.randrange(4)
        b = a + rng.randrange(6)
        return f"range({a},{b})", pdst.range_indexes(a, b), lambda ix: isinstance(ix, pd.RangeIndex) and \
            a <= len(ix) <= b and list(ix) == list(range(len(ix)))
    if k == 1:
        return f"ints(u={u})", pdst.indexes(elements=st.integers(-4, 4), dtype="int64", unique=u, max_size=6), \
            lambda ix: len(ix) <= 6 and all(-4 <= v <= 4 for v in ix) and (not u or ix.is_unique) and ix.dtype == np.int64
    if k == 2:
        return f"text(u={u})", pdst.indexes(elements=st.text("ab", max_size=2), dtype=object, unique=u, max_size=5), \
            lambda ix: all(isinstance(v, str) for v in ix) and len(ix) <= 5 and (not u or ix.is_unique) and ix.dtype == object
    if k == 3:
        return "dt", pdst.indexes(dtype="datetime64[ns]", min_size=1, max_size=4), \
            lambda ix: 1 <= len(ix) <= 4 and ix.dtype == "M8[ns]"
    if k == 4:
        return "floats", pdst.indexes(elements=st.floats(0, 3), dtype=float, max_size=5, unique=True), \
            lambda ix: all(0 <= v <= 3 for v in ix) and len(ix) <= 5 and len(set(ix)) == len(ix)
    if k == 5:
        return "lists", st.lists(st.integers(0, 9), min_size=1, max_size=4), lambda ix: 1 <= len(ix) <= 4
    return f"named(u={u})", pdst.indexes(elements=st.integers(0, 9), min_size=2, max_size=5, unique=u, name=st.just("nm")), \
        lambda ix: ix.name == "nm" and 2 <= len(ix) <= 5 and (not u or ix.is_unique)


def dtype_matches(got, dt):
    return got == np.dtype(dt)


def k_series(rec):
    rng = rec.rng
    for i in rec.loop(130 if rec.quick else 2500):
        iname, istrat, iok = rand_index(rng)
        rec.count("specs")
        if rng.random() < 0.3:
            rec.observed(("index", iname), 0)

            def observe(ix):
                if not iok(ix):
                    return f"bad index {ix!r}"
            drive(rec, f"indexes|{iname}", istrat, observe, n=25, modes=rng.choice(["gf", "gx", "sr"]), fuzz_n=12, replay_n=10)
            continue
        dt = rng.choice(PD_DT)
        el, pred = pd_elements(rng, dt)
        unique = rng.random() < 0.3 and dt != "bool" and "sampled" not in repr(el)
        kw = dict(dtype=dt, elements=el, unique=unique, index=istrat)
        if rng.random() < 0.3:
            kw["fill"] = st.nothing()
        elif rng.random() < 0.3 and not unique and el is not None:
            kw["fill"] = el
        named = rng.random() < 0.3
        if named:
            kw["name"] = st.just("q")
        name = f"series|{dt},{unique},{iname},{kw.get('fill')}"
        rec.observed(name, 0)

        def observe(s):
            if not isinstance(s, pd.Series) or not dtype_matches(s.dtype, dt):
                return f"dtype {s.dtype}, asked for {dt}"
            if not iok(s.index):
                return f"index {s.index!r}"
            if s.name != ("q" if named else None):
                return f"name {s.name!r}"
            for v in s.tolist() if dt != "object" else list(s):
                if not pred(v):
                    return f"element {v!r}"
            if unique:
                vals = [v for v in s if v == v]
                if len(set(vals)) != len(vals):
                    return "duplicates"
            if len(s) and dt != "object":
                s.iloc[:] = s.iloc[0]   # (writable)
        drive(rec, name, pdst.series(**kw), observe, n=20, modes=rng.choice(["gf", "gx", "sr"]),
              fuzz_n=10, replay_n=10, expect_sat=not unique, keyfn=lambda s: repr(s.tolist()))


def k_frames(rec):
    rng = rec.rng
    for i in rec.loop(90 if rec.quick else 1500):
        iname, istrat, iok = rand_index(rng)
        ncol = rng.randrange(1, 4)
        cols, specs = [], []
        with_rows = rng.random() < 0.35
        for j in range(ncol):
            dt = rng.choice(PD_DT)
            el, pred = pd_elements(rng, dt)
            unique = rng.random() < 0.35 and dt != "bool" and not with_rows and "sampled" not in repr(el)
            kw = dict(dtype=dt, unique=unique)
            if el is not None:
                kw["elements"] = el
            if rng.random() < 0.4:
                kw["fill"] = st.nothing()
            nm = rng.choice([None, f"c{j}", ("t", j), 10 + j])
            cols.append(pdst.column(name=nm, **kw))
            specs.append((j if nm is None else nm, dt, pred, unique, el))
        rec.count("specs")
        akw = dict(index=istrat)
        uniq_rows = None
        if with_rows:
            parts = [el if el is not None else nps.from_dtype(np.dtype(dt)) for (_, dt, _, _, el) in specs]
            for c in cols:
                c.fill = None
            mode = rng.choice(["tuple", "dict", "dictmissing", "short"])
            if mode == "tuple":
                akw["rows"] = st.tuples(*parts)
            elif mode == "short":
                # the fill strategy completes a row which is too short
                keep = ncol
                while keep > 1 and specs[keep - 1][1] in ("int8", "int64", "uint16", "float64"):
                    keep -= 1
                    cols[keep].fill = parts[keep]
                akw["rows"] = st.tuples(*parts[:keep])
                if keep < ncol and rng.random() < 0.7:
                    cols[-1].unique = True
                    specs[-1] = specs[-1][:3] + (True,) + specs[-1][4:]
            else:
                opt = {}
                req = {s[0]: p for s, p in zip(specs, parts)}
                if mode == "dictmissing" and ncol > 1:
                    k0 = specs[-1][0]
                    if specs[-1][1] not in ("object", "datetime64[ns]", "timedelta64[ns]"):
                        cols[-1].fill = parts[-1]
                        opt = {k0: req.pop(k0)}
                akw["rows"] = st.fixed_dictionaries(req, optional=opt)
            if rng.random() < 0.5 and specs[0][1] in ("int8", "int64", "uint16", "float64"):
                cols[0].unique = True
                specs[0] = specs[0][:3] + (True,) + specs[0][4:]
        name = f"data_frames|{[s[:2] + s[3:4] for s in specs]},{iname},rows={with_rows}"
        rec.observed(name, 0)
        try:
            strat = pdst.data_frames(cols, **akw)
            strat.validate()
        except InvalidArgument as e:
            rec.violation("frames-refused", f"{name}: {e}")
            continue

        def observe(f):
            if list(f.columns) != [s[0] for s in specs]:
                return f"columns {list(f.columns)}"
            if not iok(f.index):
                return f"index {f.index!r}"
            for j, (nm, dt, pred, unique, _) in enumerate(specs):
                c = f.iloc[:, j]
                if not dtype_matches(c.dtype, dt):
                    return f"column {nm!r}: dtype {c.dtype}, asked for {dt}"
                vals = list(c)
                for v in vals:
                    if not pred(v):
                        return f"column {nm!r}: element {v!r}"
                if unique:
                    vals = [v for v in vals if v == v]
                    if len(set(vals)) != len(vals):
                        return f"column {nm!r}: duplicates"
        drive(rec, name, strat, observe, n=15, modes=rng.choice(["gf", "gx", "sr", "g"]), fuzz_n=8, replay_n=8,
              expect_sat=not any(s[3] for s in specs), keyfn=lambda f: repr(f.to_dict("list")))
    # columns(): names and number
    for arg, want in [(3, [0, 1, 2]), (["a", "b"], ["a", "b"]), ("xyz", ["x", "y", "z"])]:
        drive(rec, f"columns|{arg}", pdst.data_frames(pdst.columns(arg, dtype=int)),
              lambda f: None if list(f.columns) == want and all(d == np.dtype(int) for d in f.dtypes) else f"{f}", n=10, modes="gf")
    # only rows
    drive(rec, "rows-only", pdst.data_frames(rows=st.tuples(st.integers(0, 3), st.integers(5, 8)),
                                             index=pdst.indexes(elements=st.integers(-3, 3), max_size=4)),
          lambda f: None if list(f.columns) == [0, 1] and f.iloc[:, 0].between(0, 3).all() and f.iloc[:, 1].between(5, 8).all()
          and len(f) <= 4 else f"{f}", n=25, modes="gfr", replay_n=10, fuzz_n=10)


def run(unit, rec):
    warnings.simplefilter("ignore")
    k = unit["kind"].rstrip("01")
    globals()["k_" + k](rec)
