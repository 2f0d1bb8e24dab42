"""C27: recursive, deferred, shared, function, data and random strategies keep their contracts over whole histories."""
import os
import copy
import functools
import inspect
import math
import operator
import random
import re
from collections import Counter

from hypothesis import given, seed, strategies as st
from hypothesis.errors import InvalidArgument, InvalidState, Unsatisfiable

from hv.util import FIRED, OutOfTime, time_limit, HvFail, S, call

INFO = dict(
    technique="runtime monitoring: strategies for leaves and results hand out tokens whose identity the monitor knows, and histories of "
              "draws and calls within one test case are compared with a reference: signatures bound by inspect, a real Random, and a "
              "fixpoint over the grammar which the deferred strategies were built from",
    level="exploration",
    rule="One evaluation = one test case whose whole history was checked. Non-trivial = distinct (kind, definition) and methods called.",
    floors={"random_calls": 6000, "random_invalid": 250, "random_pairs": 500, "random_mirror": 500, "random_notes": 25,
            "recursive": 600, "recursive_full": 25, "deferred_values": 250, "deferred_empty": 2, "shared_draws": 2500,
            "shared_repeats": 900, "calls": 2000, "calls_refused": 300, "calls_repeated": 5, "function_notes": 30, "after_test": 35,
            "data_draws": 40},
)
KINDS = ["randoms0", "randoms1", "notes0", "recursive0", "deferred0", "shared0", "functions0", "data0"]


def units(tier, seed):
    reps = 1 if tier == "quick" else 10
    return [dict(name=f"{k}-{i}", kind=k, timeout=800) for i in range(reps) for k in KINDS]


def run(unit, rec):
    globals()["k_" + unit["kind"].rstrip("0123456789")](rec)


class Token:
    """A value which is equal only to itself."""
    made = 0

    def __init__(self, *contents):
        Token.made += 1
        self.n = Token.made
        self.contents = contents

    def __repr__(self):
        return f"<{self.n}>"


# ---------------------------------------------------------------- random objects

FL = [0.0, -0.0, 1.0, -1.0, 0.5, 2.5, 1e-9, 1e9, -3.25, 1e300, -1e300, 100.0]
POSITIVE = [0.5, 1.0, 2.5, 100.0]


def gen_call(rng):
    """A call of a random object's method as (method, positional arguments, keyword arguments), invalid now and then."""
    pop = list(range(100, 100 + rng.choice([1, 2, 3, 5, 12])))
    if rng.random() < 0.15:
        pop = tuple(pop)
    n = len(pop)
    m = rng.choice(["random", "uniform", "triangular", "betavariate", "binomialvariate", "choice", "choices", "choices", "expovariate",
                    "gammavariate", "gauss", "getrandbits", "lognormvariate", "normalvariate", "paretovariate", "randint", "randrange",
                    "sample", "sample", "shuffle", "vonmisesvariate", "weibullvariate", "randbytes"])
    if m == "random":
        return m, (), {}
    if m == "uniform":
        return m, (rng.choice(FL), rng.choice(FL)), {}
    if m == "triangular":
        a, b = rng.choice(FL), rng.choice(FL)
        form = rng.randrange(4)
        if form == 0:
            return m, (), {}
        if form == 1:
            return m, (a, b), {}
        mode = rng.choice([a, b] + [f for f in FL if min(a, b) <= f <= max(a, b)])
        return (m, (a, b, mode), {}) if form == 2 else (m, (a,), dict(high=b, mode=mode))
    if m in ("betavariate", "gammavariate", "weibullvariate", "lognormvariate"):
        return m, (rng.choice(POSITIVE), rng.choice(POSITIVE)), {}
    if m == "binomialvariate":
        a = (rng.choice([0, 1, 2, 10, 1000, -1]), rng.choice([0.0, 1.0, 0.5, 0.01, 0.99, 0, 1, 1.5, -0.5]))
        return m, a[:rng.choice([0, 1, 2, 2, 2])], {}
    if m == "choice":
        return m, (rng.choice([pop, pop, pop, [], "", "abc", range(10**30)]) if rng.random() < 0.5 else pop,), {}
    if m == "choices":
        k = rng.choice([0, 1, 2, 3, 8])
        kw = dict(k=k) if rng.random() < 0.8 else {}
        form = rng.randrange(8)
        w = [rng.choice([0, 1, 0.5, 3, 0]) for _ in pop]
        if form == 0 and rng.random() < 0.3:
            return m, ([],), kw
        if form == 1:
            return m, (pop, w), kw
        if form in (2, 3):
            return m, (pop,), dict(kw, weights=w)
        if form == 4:
            return m, (pop,), dict(kw, cum_weights=[sum(w[:i + 1]) for i in range(n)])
        if form == 5 and rng.random() < 0.3:
            return m, (pop,), dict(kw, weights=w + [1])
        if form == 5 and rng.random() < 0.3:
            return m, (pop,), dict(kw, weights=w, cum_weights=w)
        if form == 5 and rng.random() < 0.3:
            return m, (pop, 3), {}
        return m, (pop,), kw
    if m == "expovariate":
        return m, (rng.choice([0.5, 1.0, 20.0, -1.0, -0.25, 0.0]),)[:rng.choice([0, 1, 1, 1])], {}
    if m in ("gauss", "normalvariate"):
        return m, (rng.choice([0.0, 1.5, -1000.0]), rng.choice(POSITIVE))[:rng.choice([0, 1, 2])], {}
    if m == "getrandbits":
        return m, (rng.choice([0, 1, 2, 8, 31, 64, 65, 200, -1]),), {}
    if m == "paretovariate":
        return m, (rng.choice([1.0, 2.5, 100.0]),), {}
    if m == "randint":
        return m, (rng.choice([-5, 0, 1, 3, 2**70]), rng.choice([-5, 0, 3, 7, 2**70])), {}
    if m == "randrange":
        a, b = rng.choice([-5, 0, 1, 3, 10, 2**70]), rng.choice([-5, 0, 3, 7, 10, 2**70, -2**65])
        form = rng.randrange(5)
        if form == 0:
            return m, (b,), {}
        if form == 1:
            return m, (a, b), {}
        step = rng.choice([1, 2, 3, -1, -2, -7, 10**20, 0])
        return (m, (a, b, step), {}) if form != 4 else (m, (a,), dict(stop=b, step=step))
    if m == "sample":
        k = rng.choice([0, 1, 1, 2, 3, n, n + 1, -1]) if rng.random() < 0.5 else rng.randint(0, n)
        form = rng.randrange(5)
        if form < 3:
            return (m, (pop, k), {}) if form else (m, (pop,), dict(k=k))
        counts = [rng.choice([0, 1, 2, 5]) for _ in pop]
        if form == 4 and rng.random() < 0.2:
            counts.append(1)
        return m, (pop, rng.randint(0, max(1, min(10, sum(counts))))), dict(counts=counts)
    if m == "shuffle":
        return m, (list(pop) if rng.random() < 0.9 else [],), {}
    if m == "vonmisesvariate":
        return m, (rng.choice([0.0, 1.0, 6.0]), rng.choice([0.0, 0.5, 10.0])), {}
    if m == "randbytes":
        return m, (rng.choice([0, 1, 5, 40, -1]),), {}
    raise AssertionError(m)


def bind(m, args, kwargs):
    if m in ("random", "getrandbits"):
        return dict(enumerate(args))
    b = inspect.signature(getattr(random.Random, m)).bind(None, *args, **kwargs)
    b.apply_defaults()
    return b.arguments


def complaint(m, args, kwargs, before, v):
    """What is wrong with v as the result of a valid call, or None."""
    a = bind(m, args, kwargs)
    if m in ("random", "betavariate", "uniform", "triangular", "expovariate", "gammavariate", "gauss", "lognormvariate", "normalvariate",
             "paretovariate", "vonmisesvariate", "weibullvariate"):
        if not isinstance(v, float) or math.isnan(v):
            return "is not a number"
    if m == "random":
        return None if 0 <= v < 1 else "is not in [0, 1)"
    if m == "betavariate":
        return None if 0 <= v <= 1 else "is not in [0, 1]"
    if m == "uniform":
        return None if min(a["a"], a["b"]) <= v <= max(a["a"], a["b"]) else "is not between the bounds"
    if m == "triangular":
        return None if min(a["low"], a["high"]) <= v <= max(a["low"], a["high"]) else "is not between the bounds"
    if m == "expovariate":
        return None if (v >= 0 if a["lambd"] > 0 else v <= 0) else "has the wrong sign"
    if m in ("gammavariate", "lognormvariate", "weibullvariate"):
        return None if v >= 0 else "is negative"
    if m == "paretovariate":
        return None if v >= 1 else "is less than one"
    if m == "vonmisesvariate":
        return None if 0 <= v <= 2 * math.pi else "is not an angle"
    if m in ("gauss", "normalvariate"):
        return None
    if m in ("binomialvariate", "getrandbits", "randint", "randrange") and type(v) is not int:
        return "is not an int"
    if m == "binomialvariate":
        lo, hi = (a["n"] if a["p"] == 1 else 0), (0 if a["p"] == 0 else a["n"])
        return None if lo <= v <= hi else f"is not in [{lo}, {hi}]"
    if m == "getrandbits":
        return None if 0 <= v < 2 ** args[0] else "has too many bits"
    if m == "randint":
        return None if a["a"] <= v <= a["b"] else "is not between the bounds"
    if m == "randrange":
        r = range(a["start"]) if a["stop"] is None else range(a["start"], a["stop"], a["step"])
        return None if v in r else f"is not in {r}"
    if m == "choice":
        return None if v in a["seq"] else "is not an element"
    if m == "randbytes":
        return None if isinstance(v, bytes) and len(v) == a["n"] else "is not that many bytes"
    if m == "choices":
        w = a["weights"]
        if a["cum_weights"] is not None:
            c = list(a["cum_weights"])
            w = [x - y for x, y in zip(c, [0] + c)]
        if type(v) is not list or len(v) != a["k"]:
            return "is not a list of k"
        allowed = [p for i, p in enumerate(a["population"]) if w is None or w[i] > 0]
        return None if all(x in allowed for x in v) else f"has elements not in {allowed}"
    if m == "sample":
        if type(v) is not list or len(v) != a["k"]:
            return "is not a list of k"
        counts = a["counts"] or [1] * len(a["population"])
        have = Counter(dict(zip(a["population"], counts)))
        return None if not Counter(v) - have else "has elements more often than the population"
    if m == "shuffle":
        return None if v is None and sorted(args[0]) == sorted(before) else "is not None, or the list no permutation"
    raise AssertionError(m)


def perform(r, m, args, kwargs):
    args, kwargs = copy.deepcopy((args, kwargs))
    try:
        v = getattr(r, m)(*args, **kwargs)
    except Exception as e:
        return "raised", type(e), e
    return "returned", (v, args[0]) if m == "shuffle" else v, args


def k_randoms(rec):
    rng = rec.rng
    for _ in rec.loop(60 if rec.quick else 400, 9):
        true = rng.random() < 0.35
        scripts = [[gen_call(rng) for _ in range(rng.choice([1, 2, 5, 12]))] for _ in range(4)]
        share = rng.choice(["seed", "copy", "deepcopy", "state", "reset", "reseed"])
        seed_arg = rng.choice([0, 1, None, -1, 2**70, "s", b"b", 1.5])
        seed_form = rng.randrange(3)
        salt = rng.randrange(2**32)

        def do_seed(r):
            if seed_form == 0:
                r.seed(seed_arg if seed_arg is not None else 17)
            elif seed_form == 1:
                r.seed(a=seed_arg if seed_arg is not None else 17)
            else:
                r.seed(seed_arg if seed_arg is not None else 17, 2)

        def go(r, mirror, script):
            out = []
            for m, args, kwargs in script:
                kind, v, extra = perform(r, m, args, kwargs)
                what = f"{r!r}.{m}(*{args!r}, **{kwargs!r})"
                rec.count("random_calls")
                if mirror is not None:
                    mkind, mv, _ = perform(mirror, m, args, kwargs)
                    rec.count("random_mirror")
                    if kind == "raised" and mkind == "raised":
                        break    # arguments which are refused may have used up some randomness before
                    if (kind, repr(v)) != (mkind, repr(mv)):
                        rec.violation("randoms:true", f"{what} {kind} {v!r}, but a real one {mkind} {mv!r}")
                        break
                else:
                    mkind, mv, _ = perform(random.Random(salt), m, args, kwargs)
                    if mkind != kind or (kind == "raised" and not issubclass(v, mv)):
                        rec.violation(f"randoms:{m}:{kind}", f"{what} {kind} {extra if kind == 'raised' else v!r}, but a real one "
                                                             f"{mkind} {mv!r}")
                        break
                if kind == "raised":
                    rec.count("random_invalid")
                else:
                    if m == "shuffle":
                        wrong = complaint(m, (v[1],), {}, args[0], v[0])
                    else:
                        wrong = complaint(m, args, kwargs, None, v)
                    if wrong:
                        rec.violation(f"randoms:{m}", f"{what} gave {v!r}, which {wrong}")
                        break
                out.append((m, kind, repr(v)))
                rec.observed((m, kind, true))
            return out

        @S(max_examples=12 if rec.quick else 40)
        @seed(rng.randrange(2**32))
        @given(st.randoms(use_true_random=true), st.randoms(use_true_random=true))
        def test(r1, r2):
            m1 = eval(repr(r1), {"Random": random.Random}) if true else None
            go(r1, m1, scripts[0])
            go(r2, None if not true else eval(repr(r2), {"Random": random.Random}), scripts[1])
            if share in ("seed", "reseed"):
                r2.seed()
                do_seed(r1)
                if share == "reseed":
                    go(r1, None, scripts[2])
                    do_seed(r1)
                do_seed(r2)
            elif share in ("copy", "deepcopy"):
                r2 = getattr(copy, share)(r1)
                if type(r2) is not type(r1) or not isinstance(r2, random.Random):
                    rec.violation("randoms:copy", f"a {share} of {r1!r} is {r2!r}")
            elif share == "state":
                r2.setstate(r1.getstate())
            else:
                state = r1.getstate()
                a = go(r1, None, scripts[2])
                go(r1, None, scripts[1])
                r1.setstate(state)
                b = go(r1, None, scripts[2])
                rec.count("random_pairs")
                if a != b:
                    rec.violation("randoms:state", f"after setstate the calls {scripts[2]} gave {b}, not {a}")
                return
            if rng.random() < 0.5:
                a = go(r1, None, scripts[2])
                b = go(r2, None, scripts[2])
            else:
                a, b = [], []
                for c in scripts[2]:
                    b += go(r2, None, [c])
                    a += go(r1, None, [c])
            rec.count("random_pairs")
            if a != b:
                rec.violation(f"randoms:{share}", f"after {share} of the other ({seed_arg!r}) the calls {scripts[2]} gave {a} and {b}")

        out = call(test)
        if out.exc is not None and not isinstance(out.exc, Unsatisfiable):
            rec.violation("randoms:error", f"{share} {seed_arg!r} {scripts}: {out.exc!r}")


NOTE = re.compile(r"^(Random\(\d+\)|HypothesisRandom\(generated data\))\.(\w+)\((.*)\) -> (.*)$", re.S)


def k_notes(rec):
    """The calls printed for a failing test are those it made, with their results."""
    rng = rec.rng
    for _ in rec.loop(30 if rec.quick else 200, 8):
        true = rng.random() < 0.5
        script = [gen_call(rng) for _ in range(rng.randint(1, 6))]
        log = []

        @S(max_examples=8)
        @seed(rng.randrange(2**32))
        @given(st.randoms(use_true_random=true, note_method_calls=True))
        def test(r):
            log.clear()
            for m, args, kwargs in script:
                kind, v, used = perform(r, m, args, kwargs)
                if kind == "returned":
                    log.append((m, args, kwargs, None if m == "shuffle" else v, repr(r)))
            raise HvFail(1)

        out = call(test)
        if not isinstance(out.exc, HvFail):
            if out.exc is not None and not isinstance(out.exc, Unsatisfiable):
                rec.violation("notes:error", f"{script}: {out.exc!r}")
            continue
        # what is printed is either a note of the error or reported directly
        lines = [ln for part in [*getattr(out.exc, "__notes__", []), out.out] for ln in part.splitlines() if " -> " in ln]
        if len(lines) != len(log):
            rec.violation("notes:count", f"{len(log)} calls {log} were reported as {lines}")
            continue
        for line, (m, args, kwargs, v, rep) in zip(lines, log):
            got = NOTE.match(line)
            if got is None or got[1] != rep or got[2] != m or got[4] != repr(v):
                rec.violation("notes:line", f"the call {(m, args, kwargs)} of {rep} giving {v!r} is reported as {line!r}")
                continue
            rec.count("random_notes")
            if m == "shuffle":
                continue
            pa, pk = eval(f"(lambda *a, **k: (a, k))({got[3]})", {"nan": math.nan, "inf": math.inf})
            if bind(m, pa, pk) != bind(m, args, kwargs):
                rec.violation("notes:arguments", f"the call {(m, args, kwargs)} is reported as {line!r}")
        rec.observed(tuple(m for m, *_ in script))


# ---------------------------------------------------------------- recursive

def leaves(v, out):
    """All tokens in v, where a token with contents is no leaf."""
    if isinstance(v, Token):
        if v.contents:
            for c in v.contents:
                leaves(c, out)
        else:
            out.append(v)
    elif isinstance(v, (list, tuple, frozenset)):
        for x in v:
            leaves(x, out)
    elif isinstance(v, dict):
        for x in v.values():
            leaves(x, out)
    elif v is not None and not isinstance(v, (int, str)):
        raise TypeError(v)
    return out


def gen_extend(rng, depth=0):
    """(text, function) of a way to make strategies of larger values from one for smaller values."""
    form = rng.randrange(12 if depth < 2 else 8)
    if form == 0:
        lo = rng.choice([0, 0, 1, 2])
        hi = rng.choice([None, 2, 4])
        return f"lists(c,{lo},{hi})", lambda c: st.lists(c, min_size=lo, max_size=hi)
    if form == 1:
        n = rng.choice([1, 2, 3])
        return f"tuples(c*{n})", lambda c: st.tuples(*[c] * n)
    if form == 2:
        return "dicts(c)", lambda c: st.dictionaries(st.integers(0, 5), c, max_size=4)
    if form == 3:
        return "fixed(a=c,b=c?)", lambda c: st.fixed_dictionaries({"a": c}, optional={"b": c})
    if form == 4:
        return "builds(c,c)", lambda c: st.builds(Token, c, c)
    if form == 5:
        return "flatmap(c)", lambda c: st.integers(0, 3).flatmap(lambda n: st.lists(c, min_size=n, max_size=n))
    if form == 6:
        @st.composite
        def comp(draw, c):
            out = [draw(c)]
            while len(out) < 5 and draw(st.booleans()):
                out.append(draw(c))
            return out
        return "composite(c)", comp
    if form == 7:
        return "c.map", lambda c: c.map(lambda x: [x])
    t1, f1 = gen_extend(rng, depth + 1)
    t2, f2 = gen_extend(rng, depth + 1)
    if form == 8:
        return f"({t1})|({t2})", lambda c: f1(c) | f2(c)
    if form == 9:
        return f"({t1}) of ({t2})", lambda c: f1(f2(c))
    if form == 10:
        return f"tuples({t1},{t2})", lambda c: st.tuples(f1(c), f2(c))
    m = rng.choice([1, 2, 5])
    return f"recursive(c,{t1},{m})", lambda c: st.recursive(c, f1, max_leaves=m)


def k_recursive(rec):
    rng = rec.rng
    for _ in rec.loop(60 if rec.quick else 500, 10):
        most = rng.choice([1, 2, 3, 4, 7, 10, 25, 100])
        text, extend = gen_extend(rng)
        given_out = []
        base_form = rng.randrange(3)

        def leaf():
            t = Token()
            given_out.append(id(t))
            keep.append(t)
            return t

        base = st.builds(leaf)
        if base_form == 1:
            base = st.integers(0, 9).map(lambda i: leaf())
        elif base_form == 2:
            base = base | st.booleans().map(lambda b: leaf())
        itself = rng.random() < 0.2
        box = []
        if itself:
            inner = extend

            def extend(c):
                return inner(c | st.deferred(lambda: box[0]))
        box.append(st.recursive(base, extend, max_leaves=most))
        s = box[0]
        keep = []
        n = [0, 0]

        # several values of one strategy can be drawn in a test case
        @S(max_examples=25 if rec.quick else 60)
        @seed(rng.randrange(2**32))
        @given(st.data())
        def test(data):
            n[0] += 1
            given_out.clear()
            keep.clear()
            vs = [data.draw(s) for _ in range(2)]
            n[1] += 1
            for v in vs:
                got = leaves(v, [])
                rec.count("recursive")
                rec.count("recursive_full", len(got) == most > 1)
                if len(got) > most:
                    rec.violation("recursive:leaves", f"recursive(base, {text}, {most}){' of itself' * itself} gave {v!r} with "
                                                      f"{len(got)} leaves")
                if any(id(t) not in given_out for t in got):
                    rec.violation("recursive:base", f"recursive(base, {text}, {most}) gave {v!r} with a leaf not from its base")
                rec.observed((text[:60], most, min(len(got), 8)))

        out = call(test)
        if out.exc is not None and not isinstance(out.exc, Unsatisfiable):
            rec.violation("recursive:error", f"recursive(base, {text}, {most}){' of itself' * itself}: {out.exc!r}")


# ---------------------------------------------------------------- deferred

class Grammar:
    """Strategies defined by each other. A definition is a tree of constructors over numbered definitions; what each can
    give is decided by a least fixpoint."""

    def __init__(self, rng):
        self.n = rng.randint(1, 4)
        self.leafless = rng.random() < 0.25
        self.defs = [self.definition(rng, i) for i in range(self.n)]
        self.strategies = [st.deferred(lambda i=i: self.build(self.defs[i])) for i in range(self.n)]

    def definition(self, rng, i):
        while True:
            d = e = self.expr(rng, 0)
            while e[0] == "or1":
                e = e[1]
            if e != ("ref", i):    # which is refused as being itself
                return d

    def expr(self, rng, depth):
        if depth > 2 or rng.random() < 0.25:
            k = rng.random()
            if k < 0.6:
                return ("ref", rng.randrange(self.n))
            return ("leaf",) if k < 0.9 and not self.leafless else ("nothing",)
        form = rng.choice(["or", "or", "or", "tuple", "list", "listu", "list1", "map", "fixed", "optional", "dict", "flatmap", "builds", "shared",
                           "unique", "filter", "or1", "recursive"])
        if form == "or":
            return (form, *[self.expr(rng, depth + 1) for _ in range(rng.randint(2, 3))])
        if form in ("tuple", "builds"):
            return (form, *[self.expr(rng, depth + 1) for _ in range(rng.randint(1, 2))])
        if form == "listu":    # which grows too fast with itself inside
            return (form, (rng.choice(["leaf", "nothing"]),))
        if form == "shared":
            return (form, self.expr(rng, depth + 1), rng.randrange(10**9))
        return (form, self.expr(rng, depth + 1))

    def build(self, e):
        k, *xs = e
        if k == "ref":
            return self.strategies[xs[0]]
        if k == "leaf":
            return st.sampled_from(["L", "M"])
        if k == "nothing":
            return st.nothing()
        if k == "shared":
            return st.shared(self.build(xs[0]), key=xs[1])
        cs = [self.build(x) for x in xs]
        c = cs[0]
        if k in ("or", "or1"):
            return st.one_of(*cs)
        if k == "tuple":
            return st.tuples(*cs)
        if k == "list":
            return st.lists(c, max_size=2)
        if k == "listu":
            return st.lists(c)
        if k == "list1":
            return st.lists(c, min_size=1, max_size=2)
        if k == "unique":
            return st.lists(c, max_size=2, unique_by=repr)
        if k == "map":
            return c.map(lambda x: ("map", x))
        if k == "filter":
            return c.filter(lambda x: True)
        if k == "fixed":
            return st.fixed_dictionaries({"k": c})
        if k == "optional":
            return st.fixed_dictionaries({}, optional={"k": c})
        if k == "dict":
            return st.dictionaries(st.just("k"), c)
        if k == "flatmap":
            return st.just("f").flatmap(lambda f: st.tuples(st.just(f), c))
        if k == "builds":
            return st.builds(lambda *a: {"b": a}, *cs)
        if k == "recursive":
            return st.recursive(c, lambda d: st.tuples(st.just("r"), d), max_leaves=3)
        raise AssertionError(k)

    def empty(self):
        """Which definitions have no finite value: those never found to have one."""
        some = set()
        while True:
            more = {i for i in range(self.n) if self.has(self.defs[i], some)}
            if more == some:
                return [i not in some for i in range(self.n)]
            some = more

    def has(self, e, some):
        k, *xs = e
        if k == "ref":
            return xs[0] in some
        if k in ("leaf", "list", "listu", "optional", "dict", "unique"):
            return True
        if k == "nothing":
            return False
        if k in ("or", "or1"):
            return any(self.has(x, some) for x in xs)
        if k == "shared":
            return self.has(xs[0], some)
        return all(self.has(x, some) for x in xs)

    def member(self, e, v, path=frozenset(), fuel=None):
        """Whether v can come from e. A derivation which comes back to the same definition and value is not needed."""
        k, *xs = e
        fuel = fuel or [20000]
        fuel[0] -= 1
        if fuel[0] <= 0:
            return True
        f = (path, fuel)

        def sub(x, y):
            return self.member(x, y, *f)

        if k == "ref":
            if (xs[0], id(v)) in path:
                return False
            return self.member(self.defs[xs[0]], v, path | {(xs[0], id(v))}, fuel)
        if k == "leaf":
            return v in ("L", "M")
        if k == "nothing":
            return False
        if k == "or" or k == "or1":
            return any(sub(x, v) for x in xs)
        if k in ("shared", "filter"):
            return sub(xs[0], v)
        if k == "tuple":
            return type(v) is tuple and len(v) == len(xs) and all(map(sub, xs, v))
        if k in ("list", "listu", "list1", "unique"):
            return type(v) is list and (k == "list1") <= len(v) and (k == "listu" or len(v) <= 2) and all(sub(xs[0], y) for y in v)
        if k == "map":
            return type(v) is tuple and len(v) == 2 and v[0] == "map" and sub(xs[0], v[1])
        if k == "fixed":
            return type(v) is dict and list(v) == ["k"] and sub(xs[0], v["k"])
        if k in ("optional", "dict"):
            return type(v) is dict and set(v) <= {"k"} and all(sub(xs[0], y) for y in v.values())
        if k == "flatmap":
            return type(v) is tuple and len(v) == 2 and v[0] == "f" and sub(xs[0], v[1])
        if k == "builds":
            return type(v) is dict and list(v) == ["b"] and len(v["b"]) == len(xs) and all(map(sub, xs, v["b"]))
        if k == "recursive":
            return sub(xs[0], v) or (type(v) is tuple and len(v) == 2 and v[0] == "r" and sub(e, v[1]))
        raise AssertionError(k)

    def loops(self, e, seen):
        """Whether following the first way to make a value from e could come back to a definition which is being followed."""
        k, *xs = e
        if k == "ref":
            return xs[0] in seen or self.loops(self.defs[xs[0]], seen | {xs[0]})
        if k in ("leaf", "nothing", "list", "listu", "optional", "dict", "unique"):
            return False
        if k == "or":
            return all(self.loops(x, seen) for x in xs)
        return any(self.loops(x, seen) for x in xs if isinstance(x, tuple))


def s_empty(s):
    try:
        return s.is_empty
    except InvalidArgument:
        return False


def k_deferred(rec):
    rng = rec.rng
    for _ in rec.loop(120 if rec.quick else 1200, 10):
        g = Grammar(rng)
        empty = g.empty()
        for i in rng.sample(range(g.n), min(g.n, 2)):
            s = g.strategies[i]
            got = []
            what = f"definition {i} of {g.defs}"
            if s_empty(s) and not empty[i]:
                rec.violation("deferred:is_empty", f"{what} has finite values, but is_empty is true")
            if empty[i] and not s_empty(s) and rng.random() < 0.95:
                continue    # a thousand test cases are tried, which takes long

            @S(max_examples=15)
            @seed(rng.randrange(2**32))
            @given(s)
            def test(v):
                got.append(v)

            try:
                with time_limit(5 if rec.quick else 60):
                    out = call(test)
            except OutOfTime:
                out = None
            if out is None or FIRED:
                rec.count("cut_short")
                if os.environ.get("HV_DEBUG"): print("SLOW", what)
                continue
            if isinstance(out.exc, InvalidArgument) and re.search("Cannot create (a collection of max_size|non-empty lists)", str(out.exc)):
                rec.count("refused_collections")    # limited collections of nothing are taken for mistakes
                continue
            if out.exc is not None and not isinstance(out.exc, (Unsatisfiable, InvalidArgument)):
                rec.violation("deferred:error", f"{what}: {out.exc!r}")
                continue
            wrong = [v for v in got if not g.member(g.defs[i], v)]
            if wrong:
                rec.violation("deferred:values", f"{what} gave {wrong[0]!r}")
            rec.count("deferred_values", len(got))
            rec.count("deferred_empty", empty[i])
            if empty[i] and got:
                rec.violation("deferred:empty", f"{what} has no finite values, but {got[0]!r} was generated")
            if not empty[i] and not got and not (g.loops(g.defs[i], {i})):
                rec.violation("deferred:none", f"{what} has finite values, but the test did not run: {out.exc!r}")
            if isinstance(out.exc, InvalidArgument) and not empty[i]:
                rec.violation("deferred:refused", f"{what} has finite values, but was refused: {out.exc!r}")
            rec.observed((str(g.defs[i])[:80], empty[i]))


# ---------------------------------------------------------------- shared

KEYS = [None, "a", "b", "", 0, 1, (), (1,), frozenset(), frozenset([1]), 2.5, b"", "None", -1, ("a",), int, Ellipsis]


def k_shared(rec):
    rng = rec.rng
    for _ in rec.loop(60 if rec.quick else 500, 8):
        keys = [rng.choice(KEYS) for _ in range(rng.randint(2, 7))]
        bases = [rng.randrange(4) for _ in keys]
        bare = [st.builds(Token), st.integers(0, 9).map(lambda i: Token()), st.booleans().flatmap(lambda b: st.builds(Token)),
                st.builds(Token) | st.none().map(lambda x: Token())]
        objects = [st.shared(bare[b], key=k) if k is not None or rng.random() < 0.5 else st.shared(bare[b])
                   for k, b in zip(keys, bases)]
        plan = [(rng.randrange(len(keys)), rng.randrange(6)) for _ in range(rng.randint(2, 12))]
        everything = set()
        keep = []

        def identity(i):
            return ("object", i) if keys[i] is None else ("key", keys[i])

        def wrapped(i, how):
            s = objects[i]
            if how == 1:
                return st.tuples(s, s).map(list)
            if how == 2:
                return st.lists(s, min_size=1, max_size=3)
            if how == 3:
                return st.just(0).flatmap(lambda _: s).map(lambda x: [x])
            if how == 4:
                return st.fixed_dictionaries({"x": s}).map(lambda d: [d["x"]])
            if how == 5:
                return (s | s).map(lambda x: [x])
            return s.map(lambda x: [x])

        args = [wrapped(i, how) for i, how in plan[:3]]

        @S(max_examples=20 if rec.quick else 50)
        @seed(rng.randrange(2**32))
        @given(st.tuples(*args), st.data())
        def test(first, data):
            by_id = {}
            history = [(i, v) for (i, how), v in zip(plan, first)]
            history += [(i, data.draw(wrapped(i, how))) for i, how in plan[3:]]
            for i, vs in history:
                for v in vs:
                    rec.count("shared_draws")
                    ident = identity(i)
                    if ident in by_id:
                        rec.count("shared_repeats")
                    if by_id.setdefault(ident, v) is not v:
                        rec.violation("shared:same", f"draws with keys {keys}, bases {bases}, plan {plan}: {history}")
            distinct = set(map(id, by_id.values()))
            if len(distinct) != len(by_id):
                rec.violation("shared:distinct", f"different keys share a value: {by_id}")
            if distinct & everything:
                rec.violation("shared:fresh", f"a value of an earlier test case is used again: {by_id}")
            everything.update(distinct)
            keep.extend(by_id.values())    # so that the ids stay theirs

        out = call(test)
        if out.exc is not None:
            rec.violation("shared:error", f"keys {keys}, bases {bases}, plan {plan}: {out.exc!r}")
        rec.observed((str(keys), len(plan)))


# ---------------------------------------------------------------- functions

ARGS = ["x", "y", 3, 4.5, None, (1, 2), "kwargs", frozenset([2])]


def gen_like(rng):
    """A callable with a random signature, as (text, callable)."""
    parts = []
    names = iter("abcdefgh")
    defaulted = False

    def params(n):
        nonlocal defaulted
        out = []
        for _ in range(n):
            defaulted = defaulted or rng.random() < 0.3
            out.append(next(names) + (f"={rng.choice(ARGS[:5])!r}" if defaulted else ""))
        return out
    pos = params(rng.choice([0, 0, 0, 1, 2]))
    parts += pos + (["/"] if pos else [])
    parts += params(rng.choice([0, 1, 1, 2]))
    star = rng.random()
    kwonly = [next(names) + (f"={rng.choice(ARGS[:5])!r}" if rng.random() < 0.5 else "") for _ in range(rng.choice([0, 0, 1, 2]))]
    if star < 0.3:
        parts.append("*args")
    elif kwonly:
        parts.append("*")
    parts += kwonly
    if rng.random() < 0.25:
        parts.append("**kw")
    sig = ", ".join(parts)
    ns = {}
    form = rng.randrange(7)
    if form == 4:
        like = rng.choice([len, abs, divmod, ord, sorted, operator.itemgetter(1), functools.partial(sorted, key=len)])
        return repr(like), like
    if form == 5:
        exec(f"class Thing:\n    def __call__(self, {sig}): pass\nf = Thing()", ns)
        return f"object({sig})", ns["f"]
    if form == 0:
        text = f"lambda {sig}: 0"
        return text, eval(text)
    if form == 1:
        exec(f"class Thing:\n    def __init__(self, {sig}): pass", ns)
        return f"class({sig})", ns["Thing"]
    if form == 2:
        exec(f"class Thing:\n    def method(self, {sig}): pass\nf = Thing().method", ns)
        return f"method({sig})", ns["f"]
    exec(f"def f({sig}):\n    'docs'\n    return 0", ns)
    return f"def f({sig})", ns["f"]


def gen_args(rng, sig):
    """Arguments which often fit sig."""
    args, kwargs = [], {}
    for p in sig.parameters.values():
        v = rng.choice(ARGS[:6])
        if rng.random() < 0.08:
            continue
        if p.kind is p.VAR_POSITIONAL:
            args += [rng.choice(ARGS) for _ in range(rng.randrange(3))]
        elif p.kind is p.VAR_KEYWORD:
            kwargs.update({k: rng.choice(ARGS) for k in rng.sample(["x1", "x2", "args", "self", "data"], rng.randrange(3))})
        elif p.default is not p.empty and rng.random() < 0.5:
            continue
        elif p.kind is p.POSITIONAL_ONLY or (p.kind is p.POSITIONAL_OR_KEYWORD and not kwargs and rng.random() < 0.6):
            args.append(v)
        else:
            kwargs[p.name] = v
    if rng.random() < 0.05:
        args.append("more")
    if rng.random() < 0.05:
        kwargs["unknown"] = 1
    items = list(kwargs.items())
    rng.shuffle(items)
    return tuple(args), dict(items)


def k_functions(rec):
    rng = rec.rng
    for _ in rec.loop(60 if rec.quick else 500, 9):
        text, like = gen_like(rng)
        sig = inspect.signature(like)
        pure = rng.random() < 0.6
        domain = []
        infer = text.startswith("def") and rng.random() < 0.1
        if infer:
            like.__annotations__ = {"return": int}
            sig = inspect.signature(like)

        def result():
            domain.append(Token())
            return domain[-1]

        kw = {} if infer else dict(returns=rng.choice([st.builds(result), st.integers().map(lambda i: result()),
                                                       st.lists(st.builds(result), min_size=1, max_size=2).map(lambda x: x[-1])]))
        s = st.functions(like=like, pure=pure, **kw)
        history = [(rng.randrange(2), *gen_args(rng, sig)) for _ in range(rng.choice([2, 6, 15]))]
        escaped = []
        fail = rng.random() < 0.4
        noted = []
        want = int if infer else Token

        @S(max_examples=10 if rec.quick else 30)
        @seed(rng.randrange(2**32))
        @given(s, s)
        def test(f, g):
            domain.clear()
            seen = [{}, {}]
            returned = set()
            escaped[:] = [f]
            noted.clear()
            name = getattr(like, "__name__", type(like).__name__)
            if inspect.signature(f) != inspect.signature(like) or f.__name__ != name:
                rec.violation("functions:signature", f"functions(like={text}) gave {f!r} with signature {inspect.signature(f)}")
            for which, args, kwargs in history:
                what = f"functions(like={text}, pure={pure}): call *{args!r}, **{kwargs!r}"
                try:
                    b = sig.bind(*args, **kwargs)
                    b.apply_defaults()
                except TypeError:
                    b = None
                try:
                    v = (f, g)[which](*args, **kwargs)
                except TypeError as e:
                    if b is not None:
                        rec.violation("functions:refused", f"{what} is refused: {e!r}")
                    rec.count("calls_refused")
                    continue
                rec.count("calls")
                if b is None:
                    rec.violation("functions:accepted", f"{what} is accepted")
                    continue
                if type(v) is not want or (want is Token and v not in domain):
                    rec.violation("functions:returns", f"{what} gave {v!r}")
                if not pure or infer:
                    noted.append((args, kwargs, repr(v)))
                    continue
                key = tuple((k, tuple(sorted(x.items(), key=repr)) if isinstance(x, dict) else x) for k, x in b.arguments.items())
                if key in seen[which]:
                    rec.count("calls_repeated")
                    if seen[which][key] is not v:
                        rec.violation("functions:pure", f"{what} gave {v!r} after {seen[which][key]!r}: {history}")
                else:
                    noted.append((args, kwargs, repr(v)))
                if key not in seen[which] and v.n in returned:
                    rec.violation("functions:conflated", f"{what} gave {v!r}, which other arguments or another function gave: {history}")
                seen[which][key] = v
                returned.add(v.n)
            if fail:
                raise HvFail(1)

        out = call(test)
        if isinstance(out.exc, HvFail):
            lines = [n for n in getattr(out.exc, "__notes__", []) if n.startswith("Called function: ")]
            if len(lines) != len(noted):
                rec.violation("functions:notes", f"functions(like={text}, pure={pure}) {history}: {noted} are reported as {lines}")
                continue
            for line, (args, kwargs, r) in zip(lines, noted):
                rec.count("function_notes")
                shown, _, value = line[len("Called function: "):].rpartition(" -> ")
                at = ends(shown)
                try:
                    a, k = eval("(lambda *a, **k: (a, k))" + shown[at:])
                    same = full(sig, a, k) == full(sig, args, kwargs)
                except Exception as e:
                    same = e
                if value != r or same is not True:
                    rec.violation("functions:notes", f"functions(like={text}): the call {args} {kwargs} giving {r} is reported as {line} ({same})")
        elif out.exc is not None:
            rec.violation("functions:error", f"functions(like={text}, pure={pure}) {history}: {out.exc!r}")
            continue
        if escaped:
            # after the test, a function which was not refused for its arguments says why it cannot be called
            ok = [(a, k) for _, a, k in history if fits(sig, a, k)]
            for a, k in ok[:2]:
                try:
                    v = escaped[0](*a, **k)
                except InvalidState:
                    rec.count("after_test")
                except BaseException as e:
                    rec.violation("functions:after", f"functions(like={text}) after the test raises {e!r}")
                else:
                    rec.violation("functions:after", f"functions(like={text}) after the test returns {v!r}")
        rec.observed((text, pure, len(history)))


def ends(text):
    """Where the parenthesis begins which is closed at the end of text."""
    depth = 0
    for i in range(len(text) - 1, -1, -1):
        depth += (text[i] == ")") - (text[i] == "(")
        if depth == 0:
            return i


def full(sig, args, kwargs):
    b = sig.bind(*args, **kwargs)
    b.apply_defaults()
    return b.arguments


def fits(sig, args, kwargs):
    try:
        sig.bind(*args, **kwargs)
    except TypeError:
        return False
    return True


# ---------------------------------------------------------------- data

DRAW = re.compile(r"^Draw (\d+)(?: \((.*)\))?: (.*)$")


def k_data(rec):
    rng = rec.rng
    for _ in rec.loop(40 if rec.quick else 300, 6):
        pool = [st.integers(), st.text(max_size=3), st.lists(st.booleans(), max_size=3), st.sampled_from("abc"), st.none(),
                st.integers(0, 9).map(lambda x: x * 2), st.floats(0, 1)]
        plan = [(rng.randrange(len(pool)), rng.choice([None, None, "label", "a b", "x)", 0]), rng.random() < 0.3)
                for _ in range(rng.randint(1, 8))]
        limit = rng.randint(0, len(plan) - 1)
        log = []
        runs = []

        def nested(data, i, label):
            return data.draw(pool[i], label=label)

        @S(max_examples=20)
        @seed(rng.randrange(2**32))
        @given(st.data())
        def test(data):
            log.clear()
            for at, (i, label, sub) in enumerate(plan):
                v = nested(data, i, label) if sub else data.draw(pool[i], label)
                log.append((label, repr(v)))
                if at >= limit and v:
                    runs.append(list(log))
                    raise HvFail(at)
            if limit == len(plan) - 1:
                runs.append(list(log))
                raise HvFail("end")

        out = call(test)
        if out.exc is None:
            continue
        if not isinstance(out.exc, HvFail):
            if not isinstance(out.exc, BaseExceptionGroup):
                rec.violation("data:error", f"{plan}: {out.exc!r}")
            continue
        lines = [DRAW.match(n) for n in getattr(out.exc, "__notes__", []) if n.startswith("Draw ")]
        got = [(m[2], m[3]) for m in lines]
        final = [(None if lb is None else str(lb), r) for lb, r in runs[-1]]
        rec.count("data_draws", len(got))
        if [int(m[1]) for m in lines] != list(range(1, len(lines) + 1)):
            rec.violation("data:numbers", f"{plan}: draws are numbered {[m[1] for m in lines]}")
        if got != final:
            rec.violation("data:notes", f"{plan}: the draws {final} are reported as {got}")
        if runs.count(runs[-1]) < 2:
            rec.violation("data:replay", f"{plan}: the reported failure {final} was executed once only")
        rec.observed((str(plan)[:60], len(got)))
