"""C07: filters."""
import decimal
import fractions
import functools
import importlib.util
import itertools
import math
import operator
import os
import re
import shutil
import struct
import sys
import tempfile

from hypothesis import Phase, given, seed, strategies as st
from hypothesis.errors import InvalidArgument, Unsatisfiable

from hv.util import (NASTY_FLOATS, FeedDatabase, S, call, choices_to_bytes, drive, extremes,
                     finite_values, report_unexpected)

INFO = dict(
    technique="runtime monitoring: the predicate itself is re-evaluated on every value seen, and lost "
              "values are looked for by replaying candidates and by exhausting finite spaces",
    level="exploration",
    rule="One evaluation = one value seen by a test under a filtered strategy, re-judged by the "
         "predicate, or one candidate value that must survive the filter. Non-trivial = distinct "
         "(base strategy, predicate, spelling).",
    floors={"filters": 150, "candidates": 1500, "exhausted": 15, "executions": 2000},
)
KINDS = ["int0", "int1", "float0", "float1", "len", "text", "pick", "chain"]


def units(tier, seed):
    reps = 1 if tier == "quick" else 10
    return [dict(name=f"{k}-{i}", kind=k, timeout=800) for i in range(reps) for k in KINDS]


HEADER = '''
import functools, math, operator, re
from functools import partial
from fractions import Fraction
from decimal import Decimal
G = {G!r}
NAN = float("nan")
INF = float("inf")
def negate(f):
    def g(x):
        return not f(x)
    return g
def negate_wraps(f):
    @functools.wraps(f)
    def g(x):
        return not f(x)
    return g
class Callable_:
    def __init__(self, f): self.f = f
    def __call__(self, x): return self.f(x)
class Holder:
    def __init__(self, c): self.c = c
    def below(self, x):
        return x < self.c
    @staticmethod
    def above(x):
        return x > G
P = []
'''


def spell(rng, expr, const):
    """Source lines which append predicates meaning `expr` (a condition on x)."""
    k = rng.randrange(12)
    if k <= 3:
        return f"P.append(lambda x: {expr})"
    if k == 4:
        return f"def f(x):\n    return {expr}\nP.append(f)"
    if k == 5:
        return f"def f(x):\n    'doc'\n    return {expr}\nP.append(f)"
    if k == 6:
        return f"P.append([lambda x: {expr}, lambda x: x != x][0])"
    if k == 7:
        return f"P.append(\n    lambda x: (\n        {expr}\n    )\n)"
    if k == 8:
        return f"P.append((lambda y: lambda x: {expr} and (x == x or y))({const}))"
    if k == 9:
        return f"P.append(Callable_(lambda x: {expr}))"
    if k == 10:
        return f"@negate\ndef f(x):\n    return not ({expr})\nP.append(f)"
    return f"@negate_wraps\ndef f(x):\n    return not ({expr})\nP.append(f)"


def num_expr(rng, consts, depth=0):
    c = lambda: rng.choice(consts)
    k = rng.randrange(16)
    ops = ["<", "<=", ">", ">=", "==", "!="]
    if k < 5:
        return f"x {rng.choice(ops)} {c()}"
    if k < 7:
        return f"{c()} {rng.choice(ops)} x"
    if k < 9:
        return f"{c()} {rng.choice(ops[:4])} x {rng.choice(ops[:4])} {c()}"
    if k == 9:
        return f"x {rng.choice(ops)} G"
    if k == 10 and depth < 2:
        return f"{num_expr(rng, consts, depth + 1)} and {num_expr(rng, consts, depth + 1)}"
    if k == 11 and depth < 2:
        return f"({num_expr(rng, consts, depth + 1)} or {num_expr(rng, consts, depth + 1)})"
    if k == 12 and depth < 2:
        return f"not ({num_expr(rng, consts, depth + 1)})"
    if k == 13:
        return f"x * 2 {rng.choice(ops)} {c()}"
    if k == 14:
        return f"{c()} {rng.choice(ops[:4])} {c()} {rng.choice(ops[:4])} x"
    return f"abs(x) {rng.choice(ops)} {c()}"


def num_spelling(rng, consts):
    k = rng.randrange(10)
    c = rng.choice(consts)
    if k < 6:
        return spell(rng, num_expr(rng, consts), c)
    if k == 6:
        op = rng.choice(["lt", "le", "eq", "ge", "gt", "ne"])
        return f"P.append(partial(operator.{op}, {c}))"
    if k == 7:
        op = rng.choice(["isfinite", "isinf", "isnan"])
        return f"P.append(math.{op})"
    if k == 8:
        return f"P.append({rng.choice(['Holder(%s).below' % c, 'Holder.above', 'frozenset([%s, 1, 2]).__contains__' % c])})"
    wrap = rng.choice(["Fraction(%s)", "Decimal(%s)"])
    op = rng.choice(["lt", "le", "eq", "ge", "gt"])
    if "inf" in c.lower() or "nan" in c.lower():
        wrap = "%s"
    return f"P.append(partial(operator.{op}, {wrap % c}))"


class Mods:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="hv_c07_")
        self.n = 0

    def load(self, sources, G):
        self.n += 1
        name = f"hv_c07_preds_{os.getpid()}_{self.n}"
        path = os.path.join(self.dir, name + ".py")
        text = HEADER.format(G=G) + "\n".join(sources) + "\n"
        with open(path, "w") as f:
            f.write(text)
        spec = importlib.util.spec_from_file_location(name, path)
        mod = importlib.util.module_from_spec(spec)
        sys.modules[name] = mod
        spec.loader.exec_module(mod)
        return mod.P

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def bits(v):
    if isinstance(v, float):
        return "nan" if v != v else struct.pack("<d", v)
    return (type(v).__name__, repr(v))


def replay_many(strat, values, out=None):
    """Which values does the test see when each is replayed as its only choice?"""
    got = {}

    @S(database=FeedDatabase([choices_to_bytes([v]) for v in values]), phases=[Phase.reuse],
       max_examples=10_000)
    @given(strat)
    def t(v):
        got[bits(v)] = v
    o = call(t)
    if out is not None:
        out.append(o)
    return got


def safe(p, v):
    try:
        return bool(p(v))
    except Exception as e:
        return e


def apart(p, v):
    """Is this a zero, where the predicate holds on the far side of it as well?"""
    return isinstance(v, float) and v == 0 and safe(p, math.copysign(5e-324, v)) is True


def judge(rec, name, base, p, cands, n=40, modes="g"):
    """base.filter(p): sound on everything seen, and no candidate lost."""
    import unittest
    rec.count("filters")
    rec.observed(name, 0)
    truth = {bits(v): safe(p, v) for v in cands}
    raises = any(isinstance(t, Exception) for t in truth.values())
    if raises:
        rec.count("raising_predicates")
        return
    strat = base.filter(p)

    def observe(v):
        t = safe(p, v)
        if t is not True:
            return f"{v!r} passed the filter but predicate gives {t!r}"
    inbase = replay_many(base, cands)
    should = {b: v for b, v in inbase.items() if b in truth and truth[b] is True}
    outs = []
    got = replay_many(strat, cands, outs)
    rec.count("candidates", len(cands))
    rec.observed(None, len(got))
    for b, v in got.items():
        m = observe(v)
        if m:
            rec.violation("unsound", f"{name}: {m}")
    # (where the filter's bound is zero itself, 0.0 stands for -0.0, and vice versa)
    seen_values = [v for v in got.values() if v == v]
    lost = {b: v for b, v in should.items() if b not in got and (v not in seen_values or apart(p, v))}
    if lost:  # (a rewritten strategy might need other choices)
        again = finite_values(strat, n=300, key=bits)[0]
        lost = {b: v for b, v in lost.items() if b not in again}
    if lost:
        rec.violation("lost", f"{name}: values {list(lost.values())[:6]!r} satisfy the predicate "
                      f"and are values of the strategy, but cannot be produced ({outs[0].exc!r})")
    o = outs[0]
    if o.exc is not None and not isinstance(o.exc, (Unsatisfiable, unittest.SkipTest)):
        report_unexpected(rec, name, o.exc, "replay")
    # generation
    seen = []

    @S(max_examples=n, phases=[Phase.generate])
    @seed(rec.rng.getrandbits(32))
    @given(strat)
    def t(v):
        seen.append(v)
    o = call(t)
    rec.count("executions", len(seen))
    for v in seen:
        rec.observed()
        m = observe(v)
        if m:
            rec.violation("unsound", f"{name}: {m}")
    if isinstance(o.exc, Unsatisfiable):
        rec.count("unsat")
        # (rejection sampling may miss rare values; but a filter that keeps most must not)
        if len(should) > 0.8 * len(inbase) > 3 and len(inbase) > 20:
            rec.violation("unsat", f"{name}: unsatisfiable although {list(should.values())[:5]} satisfy it")
    elif o.exc is not None:
        report_unexpected(rec, name, o.exc, "generate")
    else:
        rec.check(seen, "passed-without-values", name)
        if o.out:
            rec.violation("output", f"{name}: printed {o.out!r}")
    for v in extremes(strat, rec.rng, n=4):
        m = observe(v)
        rec.observed()
        if m:
            rec.violation("unsound", f"{name}: {m}")


def k_int(rec, mods):
    rng = rec.rng
    for _ in rec.loop(20 if rec.quick else 600):
        lo = rng.choice([None, None, 0, -5, 3, -(2**70), rng.randrange(-50, 50)])
        hi = rng.choice([None, None, lo if lo is not None else 9, (lo or 0) + rng.randrange(0, 12), (lo or 0) + 300, 2**80])
        if lo is not None and hi is not None and lo > hi:
            hi = lo
        base = st.integers(lo, hi)
        ints = sorted({c for a in [0, 1, -1, lo, hi, 5, 2**63, 2**53, -(2**64)] if a is not None for c in (a - 2, a - 1, a, a + 1, a + 2)})
        near = [c for c in ints if (lo is None or lo - 3 <= c) and (hi is None or c <= hi + 3)]
        consts = [repr(rng.choice(near)) for _ in range(4)] + [
            repr(rng.choice(near) + 0.5) if abs(near[0]) < 2**50 else "1.5", "1e300", "-1e300", "True", "float('inf')",
            "1e308*10", "-0.0", "0.0", "1e400", "-1e400", "NAN"][: rng.randrange(12)] + [repr(rng.choice(near) - 0.25)]
        srcs = [num_spelling(rng, consts) for _ in range(12)]
        G = rng.choice(near)
        try:
            preds = mods.load(srcs, G)
        except Exception:
            rec.count("bad_sources")
            continue
        for src, p in zip(srcs, preds):
            judge(rec, f"integers({lo},{hi}).filter({src!r} G={G})", base, p, ints)


def k_float(rec, mods):
    rng = rec.rng
    for _ in rec.loop(20 if rec.quick else 600):
        kw = rng.choice([{}, {}, dict(min_value=0.0), dict(max_value=0.0), dict(min_value=-0.0, max_value=1.5), dict(min_value=1.0),
                         dict(min_value=-1.0, max_value=1.0), dict(min_value=0.0, exclude_min=True), dict(min_value=math.inf),
                         dict(max_value=-math.inf), dict(allow_subnormal=False), dict(allow_subnormal=False), dict(allow_subnormal=False, allow_nan=False, min_value=-1), dict(width=32), dict(width=16, min_value=-2),
                         dict(allow_nan=False), dict(allow_infinity=False, allow_nan=False), dict(min_value=-1, allow_infinity=False),
                         dict(width=32, allow_subnormal=False), dict(min_value=1.5, max_value=1.5), dict(max_value=1.0, exclude_max=True)])
        base = st.floats(**kw)
        vals = {0.0, -0.0, math.inf, -math.inf, math.nan}
        for a in [0.0, 1.0, -1.0, 1.5, 2.0, -2.0, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 2.0**53, 1 / 3, 0.1,
                  1.1754943508222875e-38, 1.401298464324817e-45]:
            for s in (1, -1):
                v = a * s
                vals |= {v, math.nextafter(v, math.inf), math.nextafter(v, -math.inf)}
                for w in "ef":
                    # neighbours in narrower formats
                    try:
                        x = struct.unpack("<" + w, struct.pack("<" + w, v))[0]
                    except OverflowError:
                        continue
                    vals.add(x)
        cands = sorted(vals, key=repr) + [0.0, -0.0]  # (equal, so the set has only one)
        consts = [repr(rng.choice([v for v in cands if math.isfinite(v)])) for _ in range(5)] + rng.sample([
            "1", "0", "2**53 + 1", "10**400", "-10**400", "float('inf')", "-INF", "INF", "True", "-0.0", "0.0", "NAN", "1e400", "-1e400", "9007199254740993", "3"], 5)
        if kw.get("allow_subnormal") is False:
            consts += rng.sample(["-1e-310", "1e-310", "-1e-46", "1e-46", "-2.2250738585072e-308", "-5e-324", "5e-324", "2.2250738585072e-308"], 4) * 2
        srcs = [num_spelling(rng, consts) for _ in range(12)]
        G = rng.choice([0.0, -0.0, 1, 1.5])
        try:
            preds = mods.load(srcs, G)
        except Exception:
            rec.count("bad_sources")
            continue
        for src, p in zip(srcs, preds):
            judge(rec, f"floats({kw}).filter({src!r} G={G})", base, p, cands)


def exhaust(rec, name, base, preds, universe=None, n=3000, key=repr, base_values=None):
    """base.filter(p0).filter(p1)...: exactly the satisfying values, when the space is finite."""
    rec.count("filters")
    rec.observed(name, 0)
    rng = rec.rng
    if base_values is None:
        base_values, c = finite_values(base, n=n, sd=rng.getrandbits(32), key=key)
        if c >= n:
            rec.count("not_exhausted")
            return
    ok = lambda v: all(safe(p, v) is True for p in preds)
    if any(isinstance(safe(p, v), Exception) for p in preds for v in base_values.values()):
        return
    want = {k for k, v in base_values.items() if ok(v)}
    s = base
    for p in preds:
        s = s.filter(p)
    got, calls = finite_values(s, n=n, sd=rng.getrandbits(32), key=key)
    rec.observed(None, len(got))
    extra = [v for k, v in got.items() if k not in want]
    if extra:
        bad = [v for v in extra if not ok(v)]
        rec.violation("unsound" if bad else "new-values",
                      f"{name}: {'fails the predicate' if bad else 'is no value of the base'}: {(bad or extra)[:4]!r}")
    missing = want - set(got)
    if calls >= n:
        rec.count("not_exhausted")
    else:
        rec.count("exhausted")
        # A run can also stop early when almost every draw is rejected.
        if missing and len(want) >= 0.34 * len(base_values):
            rec.violation("lost", f"{name}: never produced {sorted(missing)[:5]} of {len(want)} ({calls} executions)")
        elif missing:
            # decide rare ones by replay of what the unfiltered strategy recorded
            rec.count("rare_missing")


def k_len(rec, mods):
    rng = rec.rng
    bases = [
        ("lists(bool)", lambda a, b: st.lists(st.booleans(), min_size=a, max_size=b), 3),
        ("lists(sampled,unique)", lambda a, b: st.lists(st.sampled_from("xyz"), unique=True, min_size=a, max_size=b), 3),
        ("lists(int,unique_by)", lambda a, b: st.lists(st.integers(0, 3), unique_by=lambda v: v % 3, min_size=a, max_size=b), 3),
        ("text", lambda a, b: st.text("ab", min_size=a, max_size=b), 3),
        ("sets", lambda a, b: st.sets(st.integers(0, 2), min_size=a, max_size=b), 3),
        ("frozensets", lambda a, b: st.frozensets(st.integers(0, 2), min_size=a, max_size=b), 3),
        ("dicts", lambda a, b: st.dictionaries(st.integers(0, 1), st.booleans(), min_size=a, max_size=b), 2),
        ("tuples", lambda a, b: st.lists(st.booleans(), min_size=a, max_size=b).map(tuple), 3),
        ("fixed", lambda a, b: st.tuples(*[st.booleans()] * b), 3),
    ]
    for _ in rec.loop(30 if rec.quick else 600):
        nm, mk, top = rng.choice(bases)
        a = rng.randrange(0, 2)
        b = rng.randrange(max(a, 1), top + 1)
        base = mk(a, b)
        srcs = []
        for _ in range(8):
            k = rng.randrange(9)
            c = rng.choice(["0", "1", "2", "3", "1.5", "-1", "True", "4", "INF", "10**400"])
            op = rng.choice(["<", "<=", ">", ">=", "==", "!="])
            if k < 3:
                srcs.append(spell(rng, f"len(x) {op} {c}", "1"))
            elif k == 3:
                srcs.append(spell(rng, f"{rng.choice('012')} {rng.choice(['<', '<='])} len(x) {rng.choice(['<', '<='])} {c}", "1"))
            elif k == 4:
                srcs.append(f"P.append({rng.choice(['len', 'bool', 'any', 'all', 'lambda x: x', 'lambda x: len(x)', 'lambda x: not x', 'list', 'set', 'tuple', 'sorted'])})")
            elif k == 5:
                srcs.append(f"def mk():\n    len = lambda y: 2\n    P.append(lambda x: len(x) {op} {c})\nmk()")
            elif k == 6:
                srcs.append(f"P.append(lambda x: len(x) {op} {c} and len(x) {rng.choice(['<', '>='])} {rng.choice('012')})")
            elif k == 7:
                srcs.append(f"P.append(lambda x: len(x) {op} {c} or len(x) == 1)")
            else:
                srcs.append(f"P.append(lambda x: len(x) + 1 {op} {c})")
        preds = mods.load(srcs, 1)
        bv, c = finite_values(base, n=1500, sd=rng.getrandbits(32))
        if c >= 1500:
            rec.count("not_exhausted")
            continue
        for src, p in zip(srcs, preds):
            exhaust(rec, f"{nm}({a},{b}).filter({src!r})", base, [p], base_values=bv, n=1500)
        i, j = rng.randrange(len(srcs)), rng.randrange(len(srcs))
        exhaust(rec, f"{nm}({a},{b}).filter({srcs[i]!r}).filter({srcs[j]!r})", base, [preds[i], preds[j]], base_values=bv, n=1500)
    # bigger collections: only soundness
    for c in [5, 30, 1000, 10**6]:
        for src in [f"P.append(lambda x: len(x) >= {c % 40})", f"P.append(lambda x: {c % 40} == len(x))", f"P.append(lambda x: len(x) <= {c})"]:
            [p] = mods.load([src], 0)
            for b in [st.lists(st.integers()), st.text(), st.binary(), st.sets(st.integers()), st.dictionaries(st.integers(), st.none())]:
                if not list(rec.loop(1)):
                    return
                drive(rec, f"bigger|{b!r}.filter({src})", b.filter(p),
                      lambda v: None if p(v) else "fails the predicate", n=12, modes="gx", expect_sat=c % 40 < 8)


STR_METHODS = ["isalpha", "isdigit", "isdecimal", "isnumeric", "isalnum", "isidentifier", "isupper", "islower", "istitle",
               "isspace", "isprintable", "isascii", "strip", "upper", "capitalize"]
PATS = ["a", "^a", "a$", r"a\Z", "ab|b", "a|^b", "(?i)A", "(?x) a # b", "a(?=b)", "[ab]b", "^$", "", "b+", "(?s).", "a.b", "^(a|b)*$",
        r"\Aa", r"(a)\1", "a{2}", r"\bab", "(?m)^b", "(?a:\\w)", "[^a]", "a??b", "(?!a)", "(?:)", "\\d", "a\n"]


def k_text(rec, mods):
    rng = rec.rng
    for _ in rec.loop(60 if rec.quick else 1500):
        alpha = rng.choice(["ab", "aB1", "a\n", "a1_", "A ", "bß", "aé"])
        a, b = rng.choice([(0, 2), (0, 3), (1, 2), (2, 2)])
        if rng.random() < 0.8:
            base, nm = st.text(alpha, min_size=a, max_size=b), f"text({alpha!r},{a},{b})"
        else:
            base, nm = st.sampled_from(["", "a", "ab", "b", "B1", "aa\n", "\n"]), "sampled"
        preds, names = [], []
        for _ in range(rng.choice([1, 1, 1, 2])):
            k = rng.randrange(4)
            if k == 0:
                m = rng.choice(STR_METHODS)
                preds.append(getattr(str, m))
                names.append("str." + m)
            else:
                pat = rng.choice(PATS)
                fl = rng.choice([0, 0, 0, re.I, re.M, re.S, re.X, re.A])
                how = rng.choice(["match", "search", "fullmatch", "findall", "sub"])
                try:
                    r = re.compile(pat, fl)
                except re.error:
                    continue
                if how == "sub":
                    preds.append(lambda s, r=r: r.search(s) is None)
                else:
                    preds.append(getattr(r, how))
                names.append(f"{how} {pat!r} {int(fl)}")
        if preds:
            exhaust(rec, f"{nm}.filter{names}", base, preds, n=500)
        # bytes too
        if rng.random() < 0.5 and preds:
            how = rng.choice(["match", "search", "fullmatch"])
            pat = rng.choice([p for p in PATS if p.isascii()]).encode()
            try:
                r = re.compile(pat, rng.choice([0, 0, re.I, re.S, re.M]))
            except re.error:
                continue
            p = getattr(r, how)
            f = lambda v: None if p(v) else "fails the predicate"
            lo, hi = rng.choice([(0, 3), (1, 2), (2, 6), (0, 8)])
            nm2 = f"binary({lo},{hi}).filter({how} {pat!r})"

            def obs(v):
                if not lo <= len(v) <= hi:
                    return f"length {len(v)}"
                return f(v)
            rec.count("filters")
            rec.observed(nm2, 0)
            drive(rec, nm2, st.binary(min_size=lo, max_size=hi).filter(p), obs, n=25, modes="gf", fuzz_n=10, expect_sat=False)
    # whole unicode, all methods
    for m in STR_METHODS:
        p = getattr(str, m)
        if not list(rec.loop(1, 11 if rec.quick else 400)):
            return
        for base in [st.text(), st.text(st.characters(codec="ascii")), st.text(st.characters(min_codepoint=0x300, max_codepoint=0x1000))]:
            drive(rec, f"str.{m}|{base!r}", base.filter(p), lambda v: None if p(v) else "fails the predicate", n=20,
                  modes="gfx", fuzz_n=10, expect_sat=False)
    # identifiers: each character that may start or continue one is still available
    ids = [c for c in "aZ_é中ªº℘ﬁ" if c.isidentifier()]
    for c in ids:
        got, n = finite_values(st.text(c + "0 ", max_size=2).filter(str.isidentifier), n=500)
        want = {repr(x) for k in (1, 2) for x in map("".join, itertools.product(c + "0 ", repeat=k)) if x.isidentifier()}
        rec.check(set(got) == want, "identifier", f"{c!r}: {sorted(got)} vs {sorted(want)}")


def k_pick(rec, mods):
    """sampled_from, just, booleans, one_of, builds, mapped..., with arbitrary predicates."""
    rng = rec.rng
    for _ in rec.loop(120 if rec.quick else 3000):
        pool = rng.sample([0, 1, 2, -3, True, "a", "", None, 1.5, (1, 2), math.inf, b"x", "b", 7], rng.randrange(2, 8))
        salt = rng.getrandbits(16)
        thr = rng.choice([1, 2, 3, 3, 4])

        def rule(v, salt=salt, thr=thr):
            return __import__("zlib").crc32(repr((v, salt)).encode()) % 4 < thr
        calls = []

        def p(v):
            calls.append(v)
            return rule(v)
        k = rng.randrange(9)
        if k == 0:
            base, nm = st.sampled_from(pool), "sampled_from"
        elif k == 1:
            base, nm = st.one_of(*[st.just(x) for x in pool]), "one_of"
        elif k == 2:
            base, nm = st.sampled_from(pool).map(lambda x: (x,)), "map"
        elif k == 3:
            base, nm = st.sampled_from(pool) | st.integers(0, 2).map(str), "or"
        elif k == 4:
            base, nm = st.tuples(st.sampled_from(pool), st.booleans()), "tuples"
        elif k == 5:
            base, nm = st.sampled_from(pool).flatmap(lambda x: st.tuples(st.just(x), st.booleans())), "flatmap"
        elif k == 6:
            base, nm = st.builds(lambda a, b: (a, b), st.integers(0, 2), st.sampled_from(pool)), "builds"
        elif k == 7:
            base, nm = st.sampled_from(range(12)).map(lambda x: x * 2).filter(lambda x: x % 3), "mapfilter"
        else:
            base, nm = st.shared(st.sampled_from(pool), key="q"), "shared"
        order = rng.randrange(3)
        name = f"{nm}({pool!r}).filter(crc {salt} < {thr})"
        exhaust(rec, name, base, [p] if order else [p, lambda v, s=salt: rule(v, s + 1, 3)], n=700)
        bv, _ = finite_values(base, n=700)
        keys = set(bv)
        alien = [c for c in calls if repr(c) not in keys]
        if alien:
            rec.violation("alien-argument", f"{name}: the predicate was called on {alien[:3]!r}, not values of the base")
    # never-true filters
    for base in [st.integers(), st.sampled_from("ab"), st.booleans(), st.just(1), st.text(), st.lists(st.booleans()),
                 st.one_of(st.just(1), st.just(2)), st.floats(), st.none(), st.integers(0, 3).map(str)]:
        for p in rng.sample([lambda v: False, lambda v: None, lambda v: 0, functools.partial(operator.is_, object())], 1 if rec.quick else 4):
            ran = []

            @S(max_examples=3)
            @given(base.filter(p))
            def t(v):
                ran.append(v)
            o = call(t)
            rec.observed(("never", repr(base)))
            rec.check(not ran and isinstance(o.exc, Unsatisfiable), "never-true",
                      f"{base!r}.filter(never): ran {ran[:2]}, {o.exc!r}")
    # errors of the predicate reach the user
    for base in [st.integers(), st.sampled_from("ab"), st.lists(st.booleans()), st.text(), st.floats(0, 1), st.none()]:
        class Boom(Exception):
            pass

        def bad(v):
            raise Boom
        @S(max_examples=5)
        @given(base.filter(bad))
        def t(v):
            pass
        o = call(t)
        rec.check(isinstance(o.exc, Boom), "predicate-error", f"{base!r}: {o.exc!r}")
    for f in [3, "x"]:
        o = call(lambda: st.integers().filter(f).example())
        rec.check(o.exc is not None, "not-callable", f"filter({f!r}) accepted")


def k_chain(rec, mods):
    """Several filters on numbers in any order, with maps between them."""
    rng = rec.rng
    for _ in rec.loop(60 if rec.quick else 1200):
        lo = rng.randrange(-6, 1)
        hi = lo + rng.randrange(3, 14)
        consts = [repr(rng.randrange(lo - 1, hi + 2)) for _ in range(4)] + [repr(rng.randrange(lo, hi) + 0.5)]
        srcs = [num_spelling(rng, consts) for _ in range(6)]
        try:
            preds = mods.load(srcs, rng.randrange(lo, hi))
        except Exception:
            rec.count("bad_sources")
            continue
        for perm in range(4):
            idx = rng.sample(range(6), rng.choice([2, 2, 3]))
            which = rng.randrange(4)
            if which == 0:
                base, nm = st.integers(lo, hi), f"integers({lo},{hi})"
            elif which == 1:
                base, nm = st.integers(lo, hi).map(lambda x: -x), "negated"
            elif which == 2:
                base, nm = st.sampled_from(range(lo, hi + 1)), "sampled"
            else:
                base, nm = st.integers(lo, 0) | st.integers(1, max(1, hi)), "one_of"
            exhaust(rec, f"{nm}" + "".join(f".filter({srcs[i]!r})" for i in idx), base, [preds[i] for i in idx], n=400)
    # filters must not modify the strategy they are applied to
    for base in [st.integers(0, 5), st.lists(st.booleans(), max_size=2), st.sampled_from("abc"), st.floats(0, 1), st.text("ab", max_size=2)]:
        before = repr(base)
        a = finite_values(base, n=150)[0] if "floats" not in before else None
        base.filter(lambda x: x).filter(lambda x: len(x) > 1 if not isinstance(x, (int, float)) else x > 1)
        rec.check(repr(base) == before and (a is None or finite_values(base, n=150)[0].keys() == a.keys()), "modified",
                  f"{before} became {base!r}")


def run(unit, rec):
    mods = Mods()
    try:
        globals()["k_" + unit["kind"].rstrip("01")](rec, mods)
    finally:
        mods.close()
