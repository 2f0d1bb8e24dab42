"""C03: collections and combinators."""
import collections
import enum

import hypothesis
from hypothesis import given, seed, strategies as st
from hypothesis.errors import InvalidArgument, Unsatisfiable

from hv.trees import canon, deep_mutate, distinct, size_msg, tree, typ
from hv.util import S, call, drive, finite_values, produces, report_unexpected

INFO = dict(
    level="exploration",
    rule="One evaluation = one value of a randomly built strategy (lists, tuples, sets, "
         "dictionaries, one_of, map, flatmap, composite, builds, ... nested) judged against the "
         "independent description of what it may be, in any engine mode; values are then mutated "
         "in place, so anything shared between test cases shows up in a later one. Non-trivial = "
         "distinct strategy tree, or distinct member of a finite tree.",
    floors={"trees": 60, "finite_trees": 40, "finite_members": 500, "unsat_cases": 10,
            "executions_s": 300, "executions_r": 100, "executions_f": 200},
)
KINDS = ["tree0", "tree1", "tree2", "finite0", "finite1", "unique", "misc", "unsat"]


def units(tier, seed):
    reps = 1 if tier == "quick" else 12
    return [dict(name=f"{k}-{i}", kind=k, timeout=800) for i in range(reps) for k in KINDS]


def run_tree(rec):
    rng = rec.rng
    for _ in rec.loop(40 if rec.quick else 400):
        node = tree(rng, rng.choice([1, 2, 2, 3]))
        rec.count("trees")
        rec.observed(node.desc)

        def obs(v):
            m = node.complaint(v)
            key[0] = canon(v)
            if m is None:
                deep_mutate(v)
            return m
        key = [None]
        drive(rec, f"tree|{node.desc}", node.strategy, obs, n=30, fuzz_n=15, replay_n=15,
              keyfn=lambda v: str(key[0]))
        rec.sample(strategy=node.desc)


def run_finite(rec):
    rng = rec.rng
    n = 0
    for _ in rec.loop(2000):
        if n >= (60 if rec.quick else 600):
            break
        node = tree(rng, rng.choice([1, 2, 2]), finite=True)
        if node.domain is None:
            continue
        n += 1
        want = {canon(v) for v in node.domain}
        if len(want) > 150 and rec.quick:
            continue
        rec.count("finite_trees")
        rec.count("finite_members", len(want))
        for w in want:
            rec.observed((node.desc, str(w)))
        limit = 12 * len(node.domain) + 300
        seen, calls = finite_values(node.strategy, n=limit, sd=rng.getrandbits(30), key=canon)
        missing = want - set(seen)
        if missing:  # the run may end early on many rejections: give it other seeds
            for sd in (1, 2, 3):
                missing -= set(finite_values(node.strategy, n=2 * limit, sd=sd, key=canon)[0])
        rec.check(not missing, "incomplete",
                  f"{node.desc}: {len(missing)} of {len(want)} never produced, e.g. {list(missing)[:2]}")
        extra = set(seen) - want
        rec.check(not extra, "extra", f"{node.desc}: {list(extra)[:2]}")
        rec.sample(strategy=node.desc, members=len(want))


class Mod:
    """Hashable only through the key function."""
    __hash__ = None

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"Mod({self.n})"


def run_unique(rec):
    rng = rec.rng
    for _ in rec.loop(40 if rec.quick else 300):
        k = rng.randrange(8)
        lo = rng.choice([0, 0, 1, 3])
        hi = rng.choice([None, lo, lo + 3])
        m = rng.choice([lo + 1, 5, 17, 256])
        keys = None
        if k == 0:
            s, keys = st.lists(st.integers(0, m), min_size=lo, max_size=hi, unique=True), [lambda x: x]
            desc = f"lists(integers(0,{m}), {lo}, {hi}, unique)"
            ok = lambda x: type(x) is int and 0 <= x <= m  # noqa
        elif k == 1:
            q = rng.choice([lo + 1, 7, 11])
            s = st.lists(st.integers(), min_size=lo, max_size=hi, unique_by=lambda x: x % q)
            keys, desc = [lambda x: x % q], f"lists(integers(), {lo}, {hi}, unique_by=mod {q})"
            ok = lambda x: type(x) is int  # noqa
        elif k == 2:
            hi = lo if hi is None else hi
            s = st.lists(st.tuples(st.integers(0, 9), st.integers(0, 9)), min_size=lo, max_size=hi,
                         unique_by=(lambda t: t[0], lambda t: t[1]))
            keys, desc = [lambda t: t[0], lambda t: t[1]], f"lists(pairs, {lo}, {hi}, unique_by both)"
            ok = lambda t: type(t) is tuple and all(0 <= x <= 9 for x in t)  # noqa
        elif k == 3:
            n = rng.randint(max(lo, 1), 8)
            hi2 = n if hi is None else min(hi, n)
            vals = rng.sample(range(100), n)
            s = st.lists(st.sampled_from(vals), min_size=lo, max_size=hi2, unique=True)
            hi = hi2
            keys, desc = [lambda x: x], f"lists(sampled_from({vals}), {lo}, {hi}, unique)"
            ok = lambda x, vals=vals: x in vals  # noqa
        elif k == 4:
            s = st.lists(st.floats(), min_size=lo, max_size=hi, unique=True)
            keys, desc = [lambda x: x], f"lists(floats(), {lo}, {hi}, unique)"
            ok = lambda x: type(x) is float  # noqa
        elif k == 5:
            s = st.lists(st.builds(Mod, st.integers(0, 500)), min_size=lo, max_size=hi,
                         unique_by=lambda o: o.n % 100)
            keys, desc = [lambda o: o.n % 100], f"lists(Mod, {lo}, {hi}, unique_by n%100)"
            ok = lambda o: type(o) is Mod  # noqa
        elif k == 6:
            s = st.lists(st.integers(0, 300).filter(lambda x: x % 3), min_size=lo, max_size=hi,
                         unique=True).map(tuple)
            keys, desc = [lambda x: x], f"lists(filtered, {lo}, {hi}, unique).map(tuple)"
            ok = lambda x: type(x) is int and x % 3  # noqa
        else:
            base = [(a, b) for a in range(4) for b in range(4)]
            hi = min(hi if hi is not None else 4, 4)
            lo2 = min(lo, 2)
            s = st.lists(st.sampled_from(base), min_size=lo2, max_size=max(hi, lo2),
                         unique_by=(lambda t: t[0], lambda t: t[1]))
            lo, hi = lo2, max(hi, lo2)
            keys, desc = [lambda t: t[0], lambda t: t[1]], f"lists(sampled pairs, {lo}, {hi}, both)"
            ok = lambda t: t in base  # noqa

        def obs(v):
            m2 = typ(v, tuple if k == 6 else list) or size_msg(v, lo, hi)
            if m2:
                return m2
            for x in v:
                if not ok(x):
                    return f"element {x!r}"
            for key in keys:
                if not distinct(v, key):
                    return f"{v!r} is not unique by every key"
        rec.count("trees")
        rec.observed(desc)
        drive(rec, f"unique|{desc}", s, obs, n=40, fuzz_n=15, replay_n=15, metric=len)
        if hi is not None and k not in (0, 1, 2):  # (there may be fewer distinct keys than hi)
            rec.count("sizes_sought")
            miss = produces(s, [lo, hi], n=500, seeds=(1, 2, 3), eq=lambda w, v: len(v) == w)
            rec.check(not miss, "unique-size", f"{desc}: sizes {miss} never produced")


class Col(enum.Enum):
    R = 1
    G = 2
    B = 3
    RED = 1


class Fl(enum.Flag):
    A = 1
    B = 2
    C = 4


def run_misc(rec):
    rng = rec.rng
    # slices
    for _ in rec.loop(12 if rec.quick else 60, 8 if rec.quick else 150):
        n = rng.choice([0, 1, 2, 3, 5, 10, 100])
        data = list(range(n))

        def obs(v):
            if type(v) is not slice:
                return f"{v!r} is not a slice"
            if v.step == 0:
                return "step 0"
            start, stop, step = v.indices(n)
            data[v]
            for q in (v.start, v.stop):
                if q is not None and not -n <= q <= n:
                    return f"{v!r} reaches outside size {n}"
        drive(rec, f"slices|{n}", st.slices(n), obs, n=60, fuzz_n=25, replay_n=15)
        rec.count("trees")
        rec.observed(f"slices({n})")
        if n == 2:
            seen, _ = finite_values(st.slices(n), n=400, sd=rng.getrandbits(30),
                                    key=lambda s: tuple(data[s]))
            rec.check({(), (0,), (1,), (0, 1), (1, 0)} <= set(seen), "slices-incomplete",
                      f"slices(2) only selects {list(seen)}")
    # iterables
    for lo, hi in ((0, None), (2, 2), (1, 4)):
        for uniq in (False, True):
            s = st.iterables(st.integers(0, 50), min_size=lo, max_size=hi, unique=uniq)

            def obs(v):
                if isinstance(v, (list, tuple, set)):
                    return "is a concrete collection"
                xs = list(v)
                m = size_msg(xs, lo, hi)
                if m:
                    return m
                if uniq and len(set(xs)) != len(xs):
                    return f"{xs} is not unique"
                if any(type(x) is not int or not 0 <= x <= 50 for x in xs):
                    return f"{xs}"
                if list(v):
                    return "can be iterated twice"
            rec.count("trees")
            drive(rec, f"iterables|{lo} {hi} {uniq}", s, obs, n=40, fuzz_n=20, replay_n=15,
                  modes="gfr")
    # sampled_from all kinds of collections; source collections stay unmodified
    src = [1, 2, 3, 4, 5]
    for s, want, name in [
        (st.sampled_from(src), set(src), "list"), (st.sampled_from(range(5, 9)), {5, 6, 7, 8}, "range"),
        (st.sampled_from(Col), set(Col), "Enum"),
        (st.sampled_from(Fl), None, "Flag"), (st.sampled_from("abc"), set("abc"), "str"),
        (st.sampled_from(collections.OrderedDict.fromkeys("xyz")), set("xyz"), "OrderedDict"),
        (st.one_of(st.nothing(), st.booleans()), {False, True}, "nothing or"),
        (st.one_of() | st.booleans(), {False, True}, "one_of() or"),
        (st.sampled_from((st.just(1), st.just(2))).flatmap(lambda s: s), {1, 2}, "of strategies"),
        (st.permutations([]), None, "permutations of nothing"),
        (st.lists(st.nothing()), None, "lists of nothing"),
        (st.sets(st.nothing()), None, "sets of nothing"),
        (st.dictionaries(st.nothing(), st.nothing()), None, "dictionaries of nothing"),
        (st.tuples(), None, "tuples()"), (st.fixed_dictionaries({}), None, "no keys"),
    ]:
        rec.count("trees")
        seen, _ = finite_values(s, n=200, sd=rng.getrandbits(30), key=lambda v: repr(v))
        got = set(seen.values()) if want is not None else None
        rec.observed(name, n=len(seen))
        rec.check(want is None or got == want, "sampled", f"{name}: {seen} instead of {want}")
        if want is None and name != "Flag":
            rec.check(len(seen) == 1 and not list(seen.values())[0], "empties", f"{name}: {seen}")
        if name == "Flag":
            rec.check(all(isinstance(v, Fl) for v in seen.values())
                      and {Fl(0), Fl.A, Fl.B, Fl.C, Fl.A | Fl.B | Fl.C} <= set(seen.values()),
                      "flags", f"{seen}")
    rec.check(src == [1, 2, 3, 4, 5], "source-modified", f"{src}")
    # permutations and sampled lists do not write to their source
    source = [3, 1, 2]

    @S(max_examples=50)
    @seed(5)
    @given(st.permutations(source), st.lists(st.sampled_from(source), unique=True))
    def t(p, q):
        rec.observed()
        rec.check(sorted(p) == [1, 2, 3], "permutations", f"{p}")
        p.append(99)
        q.append(98)
    out = call(t)
    if out.exc is not None:
        report_unexpected(rec, "perm", out.exc)
    rec.check(source == [3, 1, 2], "source-modified", f"{source}")
    # the fixed_dictionaries mapping type and order are kept
    mapping = collections.OrderedDict([("z", st.just(1)), ("a", st.booleans()), ("m", st.none())])
    seen, _ = finite_values(st.fixed_dictionaries(mapping), n=50, key=repr)
    for v in seen.values():
        rec.check(type(v) is collections.OrderedDict and list(v) == ["z", "a", "m"],
                  "fixed_dictionaries-order", f"{v!r}")


def run_unsat(rec):
    rng = rec.rng
    cases = [
        (lambda: st.lists(st.booleans(), min_size=3, unique=True), "booleans"),
        (lambda: st.sets(st.booleans(), min_size=3), "sets booleans"),
        (lambda: st.lists(st.sampled_from([1, 2, 3]), min_size=4, unique=True), "sampled"),
        (lambda: st.lists(st.sampled_from([1, 1, 2]), min_size=3, unique=True), "sampled dup"),
        (lambda: st.lists(st.integers(0, 2), min_size=4, unique=True), "ints"),
        (lambda: st.frozensets(st.just(0), min_size=2), "just"),
        (lambda: st.dictionaries(st.booleans(), st.integers(), min_size=3), "dict"),
        (lambda: st.lists(st.integers(), min_size=5, unique_by=lambda x: x % 4), "unique_by"),
        (lambda: st.lists(st.sampled_from([1, True, 1.0, 2]), min_size=3, unique=True), "equal"),
        (lambda: st.lists(st.sampled_from(range(9)), min_size=4, unique_by=lambda x: x % 3), "mod"),
        (lambda: st.sets(st.nothing(), min_size=1), "nothing"),
        (lambda: st.lists(st.nothing(), min_size=1), "lists nothing"),
        (lambda: st.sampled_from([]), "sampled nothing"),
        (lambda: st.nothing(), "nothing()"),
        (lambda: st.tuples(st.booleans(), st.nothing()), "tuple nothing"),
        (lambda: st.fixed_dictionaries({"a": st.nothing()}), "fixed nothing"),
        (lambda: st.dictionaries(st.text(), st.nothing(), min_size=1), "dict nothing"),
        (lambda: st.lists(st.lists(st.nothing(), min_size=1), min_size=1), "nested nothing"),
        (lambda: st.lists(st.sampled_from([(0, 0), (0, 1), (1, 0)]), min_size=3,
                          unique_by=(lambda t: t[0], lambda t: t[1])), "two keys"),
        (lambda: st.sets(st.text("ab", max_size=1), min_size=4), "texts"),
        (lambda: st.lists(st.sampled_from(Col), min_size=4, unique=True), "enum"),
        (lambda: st.lists(st.none(), min_size=2, unique=True), "none"),
    ]
    for make, name in cases:
        got = []
        rec.count("unsat_cases")
        rec.observed(name)

        def body():
            s = make()

            @S(max_examples=60)
            @seed(rng.getrandbits(30))
            @given(s)
            def t(v):
                got.append(v)
            t()
        out = call(body)
        rec.check(not got, "unsat-value", f"{name}: gave {got[:2]} although that is impossible")
        if not isinstance(out.exc, (Unsatisfiable, InvalidArgument)):
            if out.exc is None:
                rec.check(bool(got), "unsat-silent", f"{name}: impossible, but the test passed")
            else:
                report_unexpected(rec, f"unsat|{name}", out.exc)
                rec.violation("unsat-error", f"{name}: {out.exc!r}")
    # possible ones at the very limit must work
    for make, size, name in [
        (lambda: st.lists(st.booleans(), min_size=2, unique=True), 2, "booleans"),
        (lambda: st.sets(st.integers(0, 9), min_size=10), 10, "ints"),
        (lambda: st.sets(st.integers(0, 60), min_size=60), 60, "many ints"),
        (lambda: st.lists(st.sampled_from(range(20)), min_size=20, unique=True), 20, "sampled"),
        (lambda: st.sets(st.sampled_from(range(20)), min_size=20), 20, "sampled set"),
        (lambda: st.lists(st.sampled_from(range(9)), min_size=3, unique_by=lambda x: x % 3), 3, "mod"),
        (lambda: st.dictionaries(st.integers(0, 5), st.none(), min_size=6), 6, "dict"),
        (lambda: st.frozensets(st.sampled_from(Col), min_size=3), 3, "enum"),
        (lambda: st.lists(st.sampled_from([1, 1, 2, 2, 3]), min_size=3, unique=True), 3, "dups"),
    ]:
        got = []

        @S(max_examples=30)
        @seed(rng.getrandbits(30))
        @given(make())
        def t(v):
            got.append(v)
            rec.observed()
            rec.check(len(v) >= size, "limit-size", f"{name}: {v}")
        out = call(t)
        rec.count("limit_cases")
        if out.exc is not None:
            report_unexpected(rec, f"limit|{name}", out.exc)
        rec.check(bool(got), "limit-unsat", f"{name}: never produced")


def run(unit, rec):
    globals()["run_" + unit["kind"].rstrip("012")](rec)
