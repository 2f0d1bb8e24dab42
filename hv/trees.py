"""Random strategies together with an independent statement of what they may produce."""
import collections
import dataclasses
import itertools
import math

from hypothesis import strategies as st


@dataclasses.dataclass
class Rec2:
    x: object
    y: object = 0


class Plain:
    """A class which is equal by identity only, to see what is shared."""

    def __init__(self, a, b=None):
        self.a, self.b = a, b

    def __repr__(self):
        return f"Plain({self.a!r}, {self.b!r})"


def canon(v):
    """A hashable stand-in which tells apart type, sign of zero and element order."""
    t = type(v)
    if t in (list, tuple):
        return (t.__name__, tuple(map(canon, v)))
    if t in (set, frozenset):
        return (t.__name__, frozenset(map(canon, v)))
    if t is dict:  # the order of optional keys is free
        return ("dict", frozenset((canon(k), canon(x)) for k, x in v.items()))
    if t is collections.OrderedDict:
        return (t.__name__, tuple((canon(k), canon(x)) for k, x in v.items()))
    if t is float:
        return ("float", v.hex() if v == v else "nan")
    if t is Rec2:
        return ("Rec2", canon(v.x), canon(v.y))
    if t is Plain:
        return ("Plain", canon(v.a), canon(v.b))
    return (t.__name__, repr(v))


def deep_mutate(v, junk="JUNK"):
    if isinstance(v, list):
        for x in v:
            deep_mutate(x)
        v.append(junk)
    elif isinstance(v, tuple):
        for x in v:
            deep_mutate(x)
    elif isinstance(v, set):
        v.add(junk)
    elif isinstance(v, dict):
        for x in v.values():
            deep_mutate(x)
        v[junk] = junk
    elif isinstance(v, Rec2):
        deep_mutate(v.x)
        deep_mutate(v.y)
        v.x = junk
    elif isinstance(v, Plain):
        deep_mutate(v.a)
        v.a = junk


class Node:
    """strategy, complaint(v) -> None | str, and the finite domain (list) if small."""

    def __init__(self, strategy, complaint, desc, domain=None, hashable=True, unordered=False):
        self.strategy, self.complaint, self.desc = strategy, complaint, desc
        self.domain, self.hashable = domain, hashable
        if domain is not None and len(domain) > 400:
            self.domain = None


def typ(v, t):
    return None if type(v) is t else f"{v!r} is not exactly a {t.__name__}"


def leaf(rng, finite=False):
    k = rng.randrange(5 if finite else 9)
    if k == 0:
        return Node(st.booleans(), lambda v: typ(v, bool), "booleans()", [False, True])
    if k == 1:
        lo = rng.randint(-5, 5)
        hi = lo + rng.randint(0, 4)
        return Node(st.integers(lo, hi),
                    lambda v: typ(v, int) or (None if lo <= v <= hi else f"{v} not in {lo}..{hi}"),
                    f"integers({lo}, {hi})", list(range(lo, hi + 1)))
    if k == 2:
        vals = rng.sample([0, 1, "a", "b", None, 2.5, (1, 2), "xyz", -7], rng.randint(1, 4))
        seq = rng.choice([list, tuple])(vals)
        keys = {canon(x) for x in vals}
        return Node(st.sampled_from(seq),
                    lambda v: None if canon(v) in keys else f"{v!r} not in {vals}",
                    f"sampled_from({seq!r})", list(vals))
    if k == 3:
        val = rng.choice([0, "q", None, 3.5, ()])
        return Node(rng.choice([st.just(val), st.just(val)]),
                    lambda v: None if canon(v) == canon(val) else f"{v!r} is not {val!r}",
                    f"just({val!r})", [val])
    if k == 4:
        return Node(st.none(), lambda v: None if v is None else f"{v!r} is not None", "none()", [None])
    if k == 5:
        lo, hi = rng.choice([(0.0, 1.0), (-2.5, 8.0), (0.0, math.inf)])
        return Node(st.floats(lo, hi),
                    lambda v: typ(v, float) or (None if lo <= v <= hi else f"{v} not in {lo}..{hi}"),
                    f"floats({lo}, {hi})")
    if k == 6:
        n = rng.randint(0, 3)
        return Node(st.text("abc", max_size=n),
                    lambda v: typ(v, str) or (None if len(v) <= n and set(v) <= set("abc") else repr(v)),
                    f"text('abc', max_size={n})")
    if k == 7:
        n = rng.randint(0, 3)
        return Node(st.binary(min_size=n), lambda v: typ(v, bytes) or (
            None if len(v) >= n else repr(v)), f"binary(min_size={n})")
    return Node(st.integers(), lambda v: typ(v, int), "integers()")


def each(complaint, vs):
    for x in vs:
        m = complaint(x)
        if m:
            return m


def sizes(rng, top=4):
    lo = rng.choice([0, 0, 1, 2])
    hi = rng.choice([None, lo, lo + 1, lo + top])
    return lo, hi


def size_msg(v, lo, hi):
    if len(v) < lo or (hi is not None and len(v) > hi):
        return f"size {len(v)} of {v!r} is not in {lo}..{hi}"


def distinct(vs, key=lambda x: x):
    seen = []
    for v in vs:
        k = key(v)
        if any(k == s for s in seen):
            return False
        seen.append(k)
    return True


def dedupe(vals):
    """Representatives by == (as collections with unique values see them)."""
    out = []
    for v in vals:
        if not any(v == o for o in out):
            out.append(v)
    return out


def tree(rng, depth=2, finite=False, hashable=False):
    if depth == 0:
        return leaf(rng, finite)
    k = rng.randrange(14)
    sub = lambda **kw: tree(rng, depth - 1, finite=finite, **{"hashable": hashable, **kw})  # noqa
    if k == 0 and not hashable:
        e = sub()
        lo, hi = sizes(rng, 2 if finite else 4)
        if finite:
            hi = lo + rng.randint(0, 1) if hi is None else hi
        dom = None
        if e.domain is not None and hi is not None and \
                sum(len(e.domain) ** n for n in range(lo, hi + 1)) <= 400:
            dom = [list(t) for n in range(lo, hi + 1) for t in itertools.product(e.domain, repeat=n)]
        return Node(st.lists(e.strategy, min_size=lo, max_size=hi),
                    lambda v: typ(v, list) or size_msg(v, lo, hi) or each(e.complaint, v),
                    f"lists({e.desc}, {lo}, {hi})", dom, False)
    if k == 1:
        parts = [sub() for _ in range(rng.randint(0, 3))]
        dom = None
        if all(p.domain is not None for p in parts) and math.prod(len(p.domain) for p in parts) <= 400:
            dom = list(itertools.product(*(p.domain for p in parts)))
        return Node(st.tuples(*(p.strategy for p in parts)),
                    lambda v: typ(v, tuple) or (
                        None if len(v) == len(parts) else "wrong length") or next(
                            filter(None, (p.complaint(x) for p, x in zip(parts, v))), None),
                    f"tuples({', '.join(p.desc for p in parts)})", dom)
    if k in (2, 3):
        parts = [sub() for _ in range(rng.randint(1, 3))]
        dom = None
        if all(p.domain is not None for p in parts):
            dom = [x for p in parts for x in p.domain]
        if k == 2 or len(parts) < 2:
            s = st.one_of(*(p.strategy for p in parts)) if rng.random() < 0.5 else \
                st.one_of([p.strategy for p in parts])
        else:
            s = parts[0].strategy
            for p in parts[1:]:
                s = s | p.strategy
        return Node(s, lambda v: None if any(p.complaint(v) is None for p in parts)
                    else f"{v!r} is of no alternative",
                    f"one_of({', '.join(p.desc for p in parts)})", dom)
    if k in (4, 5):
        e = sub(hashable=True)
        lo, hi = sizes(rng, 2)
        lo = min(lo, 1) if e.domain is None or len(dedupe(e.domain)) < 3 else lo
        if e.domain is not None:
            if hi is None or hi > 3:
                hi = 3
        if hi is not None and hi < lo:
            hi = lo
        f, t, name = ((st.sets, set, "sets"), (st.frozensets, frozenset, "frozensets"))[
            1 if hashable or rng.random() < 0.5 else 0]
        dom = None
        if e.domain is not None:
            reps = dedupe(e.domain)
            if len(reps) == len(e.domain):
                dom = [t(c) for n in range(lo, hi + 1) for c in itertools.combinations(reps, n)]
        return Node(f(e.strategy, min_size=lo, max_size=hi),
                    lambda v: typ(v, t) or size_msg(v, lo, hi) or each(e.complaint, v),
                    f"{name}({e.desc}, {lo}, {hi})", dom, t is frozenset)
    if k == 6 and not hashable:
        kn, vn = sub(hashable=True), sub()
        hi = rng.choice([None, 1, 2, 3])
        lo = 0 if rng.random() < 0.7 else min(1, hi or 1)
        cls = rng.choice([dict, dict, collections.OrderedDict])
        return Node(st.dictionaries(kn.strategy, vn.strategy, min_size=lo, max_size=hi, dict_class=cls),
                    lambda v: typ(v, cls) or size_msg(v, lo, hi) or each(kn.complaint, v)
                    or each(vn.complaint, v.values()),
                    f"dictionaries({kn.desc}, {vn.desc}, {lo}, {hi}, {cls.__name__})", None, False)
    if k == 7 and not hashable:
        req = {key: sub() for key in rng.sample(["a", "b", 1, None], rng.randint(0, 2))}
        opt = {key: sub() for key in rng.sample(["x", "y", 2], rng.randint(0, 2))}
        allk = {**req, **opt}
        kw = {"optional": {q: p.strategy for q, p in opt.items()}} if opt else {}

        def bad(v):
            m = typ(v, dict)
            if m:
                return m
            if not (set(req) <= set(v) <= set(allk)):
                return f"keys {list(v)} are not as specified"
            if [q for q in v if q in req] != list(req) and not opt:
                return f"key order {list(v)} is not {list(req)}"
            return next(filter(None, (allk[q].complaint(x) for q, x in v.items())), None)
        dom = None
        if all(p.domain is not None for p in allk.values()):
            n = math.prod(len(p.domain) for p in req.values()) * math.prod(
                1 + len(p.domain) for p in opt.values())
            if n <= 400:
                dom = []
                for present in itertools.product([0, 1], repeat=len(opt)):
                    ks = list(req) + [q for q, on in zip(opt, present) if on]
                    for t in itertools.product(*(allk[q].domain for q in ks)):
                        dom.append(dict(zip(ks, t)))
        return Node(st.fixed_dictionaries({q: p.strategy for q, p in req.items()}, **kw), bad,
                    f"fixed_dictionaries({ {q: p.desc for q, p in req.items()} }, "
                    f"{ {q: p.desc for q, p in opt.items()} })", dom, False)
    if k == 8 and not hashable:
        items = rng.sample([0, 1, 2, "a", "b", None, 2.5], rng.randint(0, 4))
        src = rng.choice([list, tuple])(items)
        want = sorted(map(canon, items), key=repr)
        return Node(st.permutations(src),
                    lambda v: typ(v, list) or (
                        None if sorted(map(canon, v), key=repr) == want else f"{v!r} is no permutation"),
                    f"permutations({src!r})", [list(t) for t in itertools.permutations(items)], False)
    if k == 9:
        e = sub()
        return Node(e.strategy.map(lambda v: ("m", v)),
                    lambda v: typ(v, tuple) or (
                        None if len(v) == 2 and v[0] == "m" else "not mapped") or e.complaint(v[1]),
                    f"{e.desc}.map(tag)",
                    None if e.domain is None else [("m", x) for x in e.domain], e.hashable)
    if k == 10:
        n = rng.randint(0, 2)
        e = sub()
        s = st.integers(0, n).flatmap(lambda i: st.tuples(*([e.strategy] * i)))
        dom = None
        if e.domain is not None and sum(len(e.domain) ** i for i in range(n + 1)) <= 400:
            dom = [t for i in range(n + 1) for t in itertools.product(e.domain, repeat=i)]
        return Node(s, lambda v: typ(v, tuple) or (None if len(v) <= n else "too long")
                    or each(e.complaint, v), f"integers(0,{n}).flatmap(tuples of {e.desc})", dom)
    if k == 11:
        e, f = sub(), sub()

        @st.composite
        def comp(draw, tag):
            a = draw(e.strategy)
            b = draw(f.strategy)
            return (tag, a, b)
        dom = None
        if e.domain is not None and f.domain is not None and len(e.domain) * len(f.domain) <= 400:
            dom = [("c", a, b) for a in e.domain for b in f.domain]
        return Node(comp("c"), lambda v: typ(v, tuple) or (
            None if len(v) == 3 and v[0] == "c" else "bad composite")
            or e.complaint(v[1]) or f.complaint(v[2]), f"composite({e.desc}, {f.desc})", dom)
    if k == 12 and not hashable:
        e, f = sub(), sub()
        dom = None
        if e.domain is not None and f.domain is not None and len(e.domain) * len(f.domain) <= 400:
            dom = [Rec2(a, b) for a in e.domain for b in f.domain]
        return Node(rng.choice([st.builds(Rec2, e.strategy, f.strategy),
                                st.builds(Rec2, x=e.strategy, y=f.strategy),
                                st.builds(Rec2, e.strategy, y=f.strategy)]),
                    lambda v: typ(v, Rec2) or e.complaint(v.x) or f.complaint(v.y),
                    f"builds(Rec2, {e.desc}, {f.desc})", dom, False)
    if k == 13 and not hashable:
        e = leaf(rng, finite)
        lo, hi = (0, rng.choice([2, 3, None]))
        if e.domain is not None:
            hi = 3 if len(dedupe(e.domain)) >= 3 else len(dedupe(e.domain))
        dom = None
        if e.domain is not None:
            reps = e.domain if len(dedupe(e.domain)) == len(e.domain) else None
            if reps is not None:
                dom = [list(t) for n in range(lo, hi + 1) for t in itertools.permutations(reps, n)]
        return Node(st.lists(e.strategy, min_size=lo, max_size=hi, unique=True),
                    lambda v: typ(v, list) or size_msg(v, lo, hi) or each(e.complaint, v) or (
                        None if distinct(v) else f"{v!r} has duplicates"),
                    f"lists({e.desc}, {lo}, {hi}, unique=True)", dom, False)
    return leaf(rng, finite)
