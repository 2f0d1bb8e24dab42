"""C33: internal containers agree with simple reference models."""
import bisect
import random
import threading
from collections import OrderedDict
from fractions import Fraction

from hypothesis.errors import InvalidArgument, StopTest
from hypothesis.internal.cache import GenericCache, LRUCache, LRUReusedCache
from hypothesis.internal.conjecture.data import ConjectureData, Status
from hypothesis.internal.conjecture.junkdrawer import (
    IntList, LazySequenceCopy, NotFound, SelfOrganisingList, binary_search, find_integer, replace_all,
)
from hypothesis.internal.conjecture.pareto import ParetoFront
from hypothesis.internal.conjecture.utils import Sampler, many
from hypothesis.internal.intervalsets import IntervalSet


INFO = dict(
    technique="runtime monitoring: random operation sequences on each container, every result and the whole visible state compared "
              "after each operation with a naive reference model",
    level="exploration",
    rule="One evaluation = one operation compared with the model. Non-trivial = distinct (container, operation sequence).",
    floors={"cache_ops": 30_000, "evictions": 3000, "pins": 2000, "threads": 10, "intlist_ops": 5000, "copy_ops": 5000,
            "samplers": 100, "interval_ops": 1000, "pareto_adds": 1000, "pareto_removed": 60, "many": 1000, "helpers": 500},
)
KINDS = ["cache0", "cache1", "lists0", "intervals0", "sampler0", "pareto0", "misc0"]


class Outcome:
    def __init__(self, out, exc):
        self.out, self.exc = out, exc

    def __repr__(self):
        return repr(self.exc) if self.exc is not None else repr(self.out)


def call(f, *a, **k):
    try:
        return Outcome(f(*a, **k), None)
    except (Exception, StopTest) as e:
        return Outcome(None, e)


def units(tier, seed):
    reps = 1 if tier == "quick" else 8
    return [dict(name=f"{k}-{i}", kind=k, timeout=800) for i in range(reps) for k in KINDS]


def run(unit, rec):
    globals()["k_" + unit["kind"].rstrip("0123456789")](rec)


# ---------------------------------------------------------------- caches

class Scored(GenericCache):
    __slots__ = ("rng", "log", "top")

    def __init__(self, size, rng, top):
        super().__init__(size)
        self.rng, self.log, self.top = rng, [], top

    def new_entry(self, key, value):
        s = self.rng.randrange(self.top)
        self.log.append(("new", key, value, s))
        return s

    def on_access(self, key, value, score):
        s = self.rng.randrange(self.top) if self.rng.random() < 0.7 else score
        self.log.append(("access", key, value, score, s))
        return s

    def on_evict(self, key, value, score):
        self.log.append(("evict", key, value, score))


class Reused(LRUReusedCache):
    __slots__ = ("log",)

    def __init__(self, size):
        super().__init__(size)
        self.log = []

    def on_evict(self, key, value, score):
        self.log.append(("evict", key, value))


def state(c, keys):
    out = {}
    for k in list(c):
        out[k] = True
    return set(out), len(c), {k for k in keys if k in c}


def key_pool(rng):
    return rng.choice([
        list(range(rng.choice([2, 3, 5, 12, 40]))),
        [0, 1, True, 1.0, 2, "a", ("a",), None, b"a", frozenset(), ""],
        [(i % 3, i) for i in range(12)],
    ])


def k_cache(rec):
    rng = rec.rng
    for _ in rec.loop(1200 if rec.quick else 20_000, 9 if rec.quick else 300):
        kind = rng.choice(["scored", "scored", "reused", "lru"])
        size = rng.choice([1, 1, 2, 3, 4, 7, 8, 16, 50])
        keys = key_pool(rng)
        trace = [kind, size]
        if kind == "scored":
            c = Scored(size, rng, rng.choice([1, 2, 3, 10, 1000]))
        elif kind == "reused":
            c = Reused(size)
        else:
            c = LRUCache(size)
        m = OrderedDict()  # key -> [value, score, pins]
        tick = 0

        def bad(sig, msg):
            rec.violation(sig, f"{kind} cache of size {size}, operations {trace[-60:]}: {msg}")

        ok = True
        for step in range(rng.choice([10, 60, 200])):
            k = rng.choice(keys)
            op = rng.choice(["set"] * 6 + ["get"] * 5 + ["in"] + (["pin"] * 2 + ["unpin"] * 2 + ["ispin"] if kind != "lru" else []) +
                            (["clear"] if rng.random() < 0.03 and kind != "lru" else []))
            v = rng.randrange(10**6)
            trace.append((op, k, v))
            rec.observed(None)
            rec.count("cache_ops")
            if kind != "lru":
                c.log.clear()
            before = {q: list(e) for q, e in m.items()}
            if op in ("set", "pin"):
                if op == "pin":
                    rec.count("pins")
                o = call(c.pin, k, v) if op == "pin" else call(c.__setitem__, k, v)
                full = k not in m and len(m) >= size
                victims = [q for q, e in m.items() if not e[2]] if full else []
                if full and not victims:
                    if not isinstance(o.exc, ValueError):
                        bad("pinned-full", f"every entry is pinned, yet {op} gave {o!r}")
                        ok = False
                elif o.exc is not None:
                    bad("set-raised", f"{o.exc!r}")
                    ok = False
                else:
                    if kind == "lru":
                        m[k] = [v, 0, 0]
                        m.move_to_end(k)
                        if len(m) > size:
                            m.popitem(last=False)
                            rec.count("evictions")
                    else:
                        ev = [e for e in c.log if e[0] == "evict"]
                        if k in m:
                            m[k][0] = v
                            if kind == "reused":
                                tick += 1
                                m[k][1] = (2, tick)
                            else:
                                acc = [e for e in c.log if e[0] == "access"]
                                if len(acc) != 1 or acc[0][1:4] != (k, v, m[k][1]) and acc[0][1:3] != (k, v):
                                    bad("access-calls", f"on_access calls {acc} for a write of {k!r}, whose score was {m[k][1]}")
                                    ok = False
                                else:
                                    if acc[0][3] != m[k][1]:
                                        bad("access-score", f"on_access of {k!r} got score {acc[0][3]}, it has {m[k][1]}")
                                        ok = False
                                    m[k][1] = acc[0][4]
                            if ev:
                                bad("evict-on-update", f"writing the existing key {k!r} evicted {ev}")
                                ok = False
                        else:
                            if full:
                                rec.count("evictions")
                                low = min(m[q][1] for q in victims)
                                if len(ev) != 1:
                                    bad("evict-calls", f"adding {k!r} to a full cache called on_evict {ev}")
                                    ok = False
                                else:
                                    q = ev[0][1]
                                    if q not in m or m[q][2] or m[q][1] != low or ev[0][2] != m[q][0] or kind == "scored" and ev[0][3] != low:
                                        bad("evict-wrong", f"evicted {ev[0]}; contents (value, score, pins) {dict(m)}")
                                        ok = False
                                    m.pop(q, None)
                            elif ev:
                                bad("evict-early", f"evicted {ev} while not full")
                                ok = False
                            if kind == "reused":
                                tick += 1
                                m[k] = [v, (1, tick), 0]
                            else:
                                new = [e for e in c.log if e[0] == "new"]
                                if len(new) != 1 or new[0][1:3] != (k, v):
                                    bad("new-calls", f"new_entry calls {new} for {k!r}: {v}")
                                    ok = False
                                    break
                                m[k] = [v, new[0][3], 0]
                        if op == "pin" and k in m:
                            m[k][2] += 1
                if full and not victims and kind == "reused":
                    tick += 1
            elif op == "get":
                o = call(c.__getitem__, k)
                if k in m:
                    if o.exc is not None or o.out != m[k][0]:
                        bad("get", f"read {k!r} -> {o!r}, expected {m[k][0]}")
                        ok = False
                    if kind == "lru":
                        m.move_to_end(k)
                    elif kind == "reused":
                        tick += 1
                        m[k][1] = (2, tick)
                    else:
                        acc = [e for e in c.log if e[0] == "access"]
                        if len(acc) != 1 or acc[0][1:4] != (k, m[k][0], m[k][1]):
                            bad("access-calls", f"on_access calls {acc} for a read of {k!r}: {m[k]}")
                            ok = False
                        else:
                            m[k][1] = acc[0][4]
                elif not isinstance(o.exc, KeyError):
                    bad("get-missing", f"read of missing {k!r} -> {o!r}")
                    ok = False
            elif op == "in":
                if (k in c) != (k in m):
                    bad("contains", f"{k!r} in cache is {k in c}")
                    ok = False
            elif op == "ispin":
                o = call(c.is_pinned, k)
                if (k in m and o.out != (m[k][2] > 0)) or (k not in m and not isinstance(o.exc, KeyError)):
                    bad("is-pinned", f"is_pinned({k!r}) -> {o!r}; entry {m.get(k)}")
                    ok = False
            elif op == "unpin":
                o = call(c.unpin, k)
                if k not in m:
                    good = isinstance(o.exc, KeyError)
                elif m[k][2] == 0:
                    good = isinstance(o.exc, ValueError)
                else:
                    good = o.exc is None
                    m[k][2] -= 1
                if not good:
                    bad("unpin", f"unpin({k!r}) -> {o!r}; entry was {before.get(k)}")
                    ok = False
            else:
                c.clear()
                m.clear()
            got = state(c, keys)
            if got[0] != set(m) or got[1] != len(m) or got[1] > size or got[2] != set(m) & set(keys):
                bad("contents", f"after {trace[-1]}: keys {got}, expected {set(m)}")
                ok = False
            if not ok:
                break
        # final contents, without disturbing the order of the model
        if ok:
            for k in list(m):
                o = call(c.__getitem__, k)
                if o.exc is not None or o.out != m[k][0]:
                    bad("final-value", f"{k!r} -> {o!r}, expected {m[k][0]}")
                    break
        rec.observed((kind, size, repr(trace)))
        if rng.random() < 0.05:
            threads(rec, rng)


def threads(rec, rng):
    c = rng.choice([lambda: LRUReusedCache(6), lambda: LRUCache(6), lambda: Scored(6, random.Random(1), 5)])()
    bad = []
    gate = threading.Barrier(4)

    def work(n):
        r = random.Random(n)
        mine = {}
        gate.wait()
        for i in range(60):
            k = r.randrange(6)
            if r.random() < 0.5:
                c[k] = (n, i)
                mine[k] = (n, i)
            if set(c) != set(mine) or len(c) != len(mine):
                bad.append((n, set(c), set(mine)))
                return
            if k in mine and c[k] != mine[k]:
                bad.append((n, k, c[k], mine[k]))
                return

    ts = [threading.Thread(target=work, args=(i,)) for i in range(4)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    rec.count("threads")
    rec.check(not bad and len(c) == 0, "thread-sees-other", f"threads sharing one {type(c).__name__}: {bad[:3]}; the main thread sees {len(c)} entries")


# ---------------------------------------------------------------- lists

def k_lists(rec):
    rng = rec.rng
    for _ in rec.loop(1500 if rec.quick else 20_000, 9 if rec.quick else 300):
        intlist(rec, rng)
        lazycopy(rec, rng)


EDGES = [0, 1, 255, 256, 65535, 65536, 2**32 - 1, 2**32, 2**64 - 1, 2**64, 2**70]


def rint(rng, top):
    return rng.choice([rng.randrange(3), min(rng.choice(EDGES), top), rng.randrange(top + 1)])


def intlist(rec, rng):
    top = rng.choice([200, 255, 300, 2**17, 2**33, 2**66])
    vals = [rint(rng, top) for _ in range(rng.choice([0, 1, 5, 20]))]
    trace = [("init", list(vals))]
    if rng.random() < 0.2:
        n = rng.randrange(8)
        x, m = IntList.of_length(n), [0] * n
        trace = [("of_length", n)]
    else:
        x, m = IntList(rng.choice([list, tuple])(vals)), list(vals)
    for _ in range(rng.choice([5, 20])):
        op = rng.choice(["append", "append", "extend", "set", "get", "slice", "del", "delslice", "insert", "count", "eq", "in"])
        v = rint(rng, rng.choice([top, 2**70]))
        i = rng.randrange(-len(m) - 1, len(m) + 1)
        sl = slice(rng.choice([None, i]), rng.choice([None, rng.randrange(-3, len(m) + 2)]), rng.choice([None, 1, 2, -1]))
        trace.append((op, i, v, sl))
        rec.count("intlist_ops")
        pairs = {
            "append": lambda l: l.append(v), "extend": lambda l: l.extend([v, i if i > 0 else 0, v]), "set": lambda l: l.__setitem__(i, v),
            "get": lambda l: l[i], "slice": lambda l: list(l[sl]), "del": lambda l: l.__delitem__(i), "delslice": lambda l: l.__delitem__(sl),
            "insert": lambda l: l.insert(i, v), "count": lambda l: l.count(v), "in": lambda l: (v in l, i in l),
            "eq": lambda l: True,
        }
        a, b = call(pairs[op], x), call(pairs[op], m)
        rec.observed(None)
        if op == "eq":
            other = IntList(m)
            good = x == other and not x != other and (x == IntList([*m, 0])) is False
            rec.check(good, "intlist-eq", f"IntList after {trace} does not equal IntList({m})")
            continue
        if (a.exc is None) != (b.exc is None) or (a.exc is not None and type(a.exc) is not type(b.exc)) or (a.exc is None and a.out != b.out):
            rec.violation("intlist-op", f"IntList: {trace}: {a!r}, a list gives {b!r}")
            return
        if list(x) != m or len(x) != len(m) or [x[j] for j in range(len(m))] != m or repr(x) != f"IntList({m!r})":
            rec.violation("intlist-contents", f"IntList: {trace}: {x!r}, expected {m}")
            return
    rec.observed(("intlist", repr(trace)))


def lazycopy(rec, rng):
    base = [rng.choice([i, i, None, "x", (i,)]) for i in range(rng.choice([0, 1, 2, 5, 20]))]
    orig = list(base)
    src = rng.choice([base, tuple(base)])
    x, m = LazySequenceCopy(src), list(base)
    trace = [("init", orig)]
    for _ in range(rng.choice([5, 30])):
        op = rng.choice(["pop", "popi", "set", "get", "swap", "iter", "set", "pop0"])
        i, j = (rng.randrange(-len(m) - 1, len(m) + 2) for _ in range(2))
        v = rng.choice([None, 0, "new", rng.randrange(100)])
        trace.append((op, i, j, v))
        rec.count("copy_ops")

        def swap(l):
            if isinstance(l, list):
                l[i], l[j] = l[j], l[i]
            else:
                l.swap(i, j)

        f = {"pop": lambda l: l.pop(), "popi": lambda l: l.pop(i), "pop0": lambda l: l.pop(0), "set": lambda l: l.__setitem__(i, v),
             "get": lambda l: l[i], "swap": swap, "iter": list}[op]
        if op == "swap" and i == j:
            continue
        a, b = call(f, x), call(f, m)
        rec.observed(None)
        if (a.exc is None) != (b.exc is None) or (a.exc is not None and not isinstance(a.exc, IndexError)) or (a.exc is None and a.out != b.out):
            rec.violation("lazycopy-op", f"LazySequenceCopy: {trace}: {a!r}, a list gives {b!r}")
            return
        if list(x) != m or len(x) != len(m) or [x[q] for q in range(-len(m), len(m))] != [m[q] for q in range(-len(m), len(m))]:
            rec.violation("lazycopy-contents", f"LazySequenceCopy: {trace}: {list(x)}, expected {m}")
            return
        if list(src) != orig:
            rec.violation("lazycopy-original", f"LazySequenceCopy: {trace} changed the original to {src}")
            return
    rec.observed(("lazycopy", repr(trace)))


# ---------------------------------------------------------------- interval sets

def rset(rng):
    kind = rng.randrange(4)
    if kind == 0:
        return {rng.randrange(30) for _ in range(rng.randrange(25))}
    if kind == 1:
        base = rng.choice([40, 60, 85, 0x10FFFF - 40])
        return {base + rng.randrange(40) for _ in range(rng.randrange(60))}
    if kind == 2:
        s = set()
        for _ in range(rng.randrange(5)):
            a = rng.randrange(200)
            s |= set(range(a, a + rng.randrange(40)))
        return s
    return set(rng.choice([range(0), range(48, 58), range(0, 128), range(65, 91), [0], [48], [90], [0x10FFFF], range(0x10FFF0, 0x110000)]))


def intervals_of(s):
    out = []
    for c in sorted(s):
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return tuple((a, b) for a, b in out)


def k_intervals(rec):
    rng = rec.rng
    for _ in rec.loop(1400 if rec.quick else 20_000, 9 if rec.quick else 300):
        a, b = rset(rng), rset(rng)
        if rng.random() < 0.3:
            b = {min(max(c + rng.choice([-1, 0, 1]), 0), 0x10FFFF) for c in a}
        if rng.random() < 0.5:
            x = IntervalSet(intervals_of(a))
        else:
            chars = [chr(c) for c in a for _ in range(rng.choice([1, 1, 2]))]
            rng.shuffle(chars)
            x = IntervalSet.from_string("".join(chars))
        y = IntervalSet(iter(intervals_of(b)))
        for name, z, want in [("from", x, a), ("other", y, b), ("union", x | y, a | b), ("difference", x - y, a - b), ("intersection", x & y, a & b),
                              ("union-method", y.union(x), a | b), ("difference2", y.difference(x), b - a), ("chain", (x - y) | (y - x), a ^ b)]:
            rec.observed((name, repr(sorted(a)), repr(sorted(b))))
            rec.count("interval_ops")
            where = f"{name} of {intervals_of(a)} and {intervals_of(b)}"
            exp = sorted(want)
            if list(z) != exp or len(z) != len(exp) or z.intervals != intervals_of(want):
                rec.violation("interval-contents", f"{where}: {z!r}, expected {intervals_of(want)}")
                continue
            if [z[i] for i in range(-len(exp), len(exp))] != [exp[i] for i in range(-len(exp), len(exp))]:
                rec.violation("interval-index", f"{where}: indexing is wrong for {z!r}")
            for i in (len(exp), -len(exp) - 1):
                rec.check(isinstance(call(z.__getitem__, i).exc, IndexError), "interval-bounds", lambda: f"{where}: index {i} of {z!r}")
            same = IntervalSet(intervals_of(want))
            rec.check(z == same and hash(z) == hash(same), "interval-eq", lambda: f"{where}: {z!r} != {same!r}")
            probes = {c + d for c in [*rng.sample(exp, min(5, len(exp))), rng.randrange(200)] for d in (-1, 0, 1) if 0 <= c + d < 0x110000}
            for c in probes:
                rec.check((c in z) == (c in want) and (chr(c) in z) == (c in want), "interval-in", lambda: f"{where}: {c} in {z!r} is {c in z}")
                o = call(z.index, c)
                if c in want:
                    rec.check(o.exc is None and o.out == bisect.bisect_left(exp, c), "interval-index-of", lambda: f"{where}: index({c}) -> {o!r}")
                else:
                    rec.check(isinstance(o.exc, ValueError), "interval-index-of", lambda: f"{where}: index({c}) of {z!r} -> {o!r}")
                o = call(z.index_above, c)
                rec.check(o.exc is None and o.out == bisect.bisect_left(exp, c), "index-above", lambda: f"{where}: index_above({c}) of {z!r} -> {o!r}")
            order = [call(z.char_in_shrink_order, i) for i in range(len(exp))]
            errs = [o for o in order if o.exc is not None]
            if errs:
                rec.violation("shrink-order", f"{where}: {z!r} char_in_shrink_order {errs[0]!r}")
                continue
            chars = [o.out for o in order]
            rec.check(sorted(map(ord, chars)) == exp, "shrink-order", lambda: f"{where}: {z!r} in shrink order is {chars}, not a permutation")
            back = [call(z.index_from_char_in_shrink_order, c).out for c in chars]
            rec.check(back == list(range(len(exp))), "shrink-order-inverse", lambda: f"{where}: {z!r}: positions of {chars} are {back}")
            doc = [c for c in exp if 48 <= c <= 90]
            rec.check([ord(c) for c in chars[: len(doc)]] == doc, "shrink-order-doc", lambda: f"{where}: {z!r} in shrink order is {chars}")


# ---------------------------------------------------------------- samplers

def k_sampler(rec):
    rng = rec.rng
    for _ in rec.loop(800 if rec.quick else 5000, 9 if rec.quick else 300):
        n = rng.choice([1, 1, 2, 3, 4, 5, 8, 20])
        w = rng.choice([
            lambda: [rng.random() for _ in range(n)],
            lambda: [float(rng.randrange(1, 10)) for _ in range(n)],
            lambda: [Fraction(rng.randrange(1, 10), rng.randrange(1, 7)) for _ in range(n)],
            lambda: [rng.choice([0.0, 1.0, 2.0]) for _ in range(n)],
            lambda: [1.0] * n,
            lambda: [10.0 ** rng.randrange(-12, 12) for _ in range(n)],
            lambda: [rng.randrange(1, 5) for _ in range(n)],
        ])()
        if not sum(w):
            w[rng.randrange(n)] += 1
        s = Sampler(w)
        exact = {i: 0 for i in range(n)}
        ok = True
        for base, alt, p in s.table:
            if not (0 <= base <= alt < n and 0 <= p <= 1):
                rec.violation("sampler-row", f"weights {w}: row {(base, alt, p)}")
                ok = False
                break
            exact[alt] += p
            exact[base] += 1 - p
        if not ok:
            continue
        rec.count("samplers")
        rec.check([t[:2] for t in s.table] == sorted(t[:2] for t in s.table), "sampler-order", f"weights {w}: table {s.table}")
        for i in range(n):
            want = w[i] / sum(w)
            got = exact[i] / len(s.table)
            rec.check(abs(got - want) < 1e-9, "sampler-distribution", f"weights {w}: value {i} is drawn with probability {got}, expected {want}")
        # draws from given choices
        for t in range(len(s.table)):
            base, alt, p = s.table[t]
            for b in (False, True):
                d = ConjectureData.for_choices((t, b))
                o = call(s.sample, d)
                rec.observed(("sample", repr(w), t, b))
                if o.exc is None:
                    want = alt if (b and p > 0) or p >= 1 else base
                    if len(d.choices) == 2 and d.choices[1] == b:
                        rec.check(o.out == want, "sampler-draw", f"weights {w}: choices {(t, b)} gave {o.out}, row {(base, alt, p)}")
                    rec.check(w[o.out] > 0, "sampler-zero-weight", f"weights {w} gave {o.out} from choices {(t, b)}")
                elif not isinstance(o.exc, StopTest):
                    rec.violation("sampler-raised", f"weights {w}: choices {(t, b)}: {o.exc!r}")
        for k in range(n):
            if w[k] > 0 and exact[k] > 1e-9:
                d = ConjectureData(random=random.Random(rng.randrange(10**6)))
                o = call(s.sample, d, forced=k)
                rec.check(o.exc is None and o.out == k, "sampler-forced", f"weights {w}: forced={k} gave {o!r}")
                if o.exc is None:
                    d2 = ConjectureData.for_choices(d.choices)
                    o2 = call(s.sample, d2)
                    rec.check(o2.exc is None and o2.out == k, "sampler-forced-replay", f"weights {w}: forced={k} choices {d.choices} replay to {o2!r}")


# ---------------------------------------------------------------- pareto front

def result(choices, status, targets, tags, origin):
    d = ConjectureData.for_choices(choices)
    try:
        for _ in choices:
            d.draw_integer(0, 10**6)
        d.target_observations.update(targets)
        d.tags = set(tags)
        if status == Status.INTERESTING:
            d.mark_interesting(origin)
        elif status == Status.INVALID:
            d.mark_invalid()
    except StopTest:
        pass
    d.freeze()
    return d


def key(r):
    return (len(r.choices), tuple(r.choices))


def dominates(a, b):
    """a is better than or as good as b in every way, and simpler."""
    if key(a) >= key(b) or a.status < b.status or not set(b.tags) <= set(a.tags):
        return False
    if a.status == Status.INTERESTING and a.interesting_origin != b.interesting_origin:
        return False
    lo = float("-inf")
    return all(a.target_observations.get(t, lo) >= b.target_observations.get(t, lo) for t in set(a.target_observations) | set(b.target_observations))


def k_pareto(rec):
    from hypothesis.internal.escalation import InterestingOrigin

    rng = rec.rng

    def origin(n):
        return InterestingOrigin(ValueError, "f.py", n, (), ())

    for _ in rec.loop(800 if rec.quick else 8000, 9 if rec.quick else 300):
        front = ParetoFront(random.Random(rng.randrange(10**6)))
        evicted = []
        front.on_evict(evicted.append)
        small = rng.random() < 0.8
        memo = {}
        ntarg, ntags, norig = rng.randrange(3), rng.randrange(3), rng.randrange(1, 4)
        top = rng.choice([2, 4, 8])
        pint = rng.choice([0, 0, 0.3])
        trace = []
        kept = {}
        for _ in range(rng.choice([10, 40])):
            ch = tuple(rng.randrange(8) for _ in range(rng.choice([0, 1, 2, 3, 6])))
            if ch not in memo:
                memo[ch] = (
                    rng.choices([Status.INVALID, Status.VALID, Status.INTERESTING], [0.15, 0.85 - pint, pint])[0],
                    {f"t{i}": float(rng.randrange(top)) for i in range(ntarg) if rng.random() < 0.8},
                    [f"g{i}" for i in range(ntags) if rng.random() < 0.5], origin(rng.randrange(norig)),
                )
            d = result(ch, *memo[ch])
            trace.append((ch, memo[ch][0].name, memo[ch][1], memo[ch][2], memo[ch][3].lineno))
            before = list(front.front)
            evicted.clear()
            o = call(front.add, d)
            rec.count("pareto_adds")
            rec.observed(None)
            after = list(front.front)
            r = d.as_result()
            text = f"pareto front: adding {trace[-1]} to {[(b.choices, b.status.name, b.target_observations, list(b.tags)) for b in before]}: "
            if o.exc is not None:
                rec.violation("pareto-raised", text + repr(o.exc))
                break
            keys = [key(a) for a in after]
            inside = key(r) in keys
            if d.status < Status.VALID:
                rec.check(o.out is False and len(after) == len(before), "pareto-invalid", text + f"{o!r}")
                continue
            rec.check(bool(o.out) == inside, "pareto-result", text + f"add returned {o.out}, in the front: {inside}")
            rec.check(keys == sorted(set(keys)), "pareto-order", text + f"front keys {keys}")
            bk = {key(b): b for b in before}
            removed = [b for k_, b in bk.items() if k_ not in keys]
            rec.count("pareto_removed", len(removed))
            rec.check(set(keys) <= set(bk) | {key(r)}, "pareto-invented", text + f"front keys {keys}")
            rec.check(sorted(map(key, evicted)) == sorted(map(key, removed)), "pareto-listener",
                      text + f"evict listener saw {[e.choices for e in evicted]}, removed {[b.choices for b in removed]}")
            for b in removed:
                rec.check(any(dominates(a, b) for a in [*after, *before, r]), "pareto-removed-good", text + f"removed {b.choices}, which nothing dominates")
            if key(r) not in bk and not inside:
                rec.check(any(dominates(a, r) for a in before), "pareto-rejected-good", text + "not kept although nothing dominates it")
            if key(r) not in bk and len(before) <= 9:
                for a in after:
                    rec.check(not dominates(r, a), "pareto-dominated-kept", text + f"kept {a.choices}, dominated by the element just added")
                if inside:
                    rec.check(not any(dominates(a, r) for a in before), "pareto-dominated-added", text + "kept although dominated")
        rec.observed(("pareto", repr(trace)))
        del small, kept


# ---------------------------------------------------------------- helpers

def k_misc(rec):
    rng = rec.rng
    for _ in rec.loop(1500 if rec.quick else 20_000, 9 if rec.quick else 300):
        # many: sizes stay in bounds whatever the choices; too few elements ends the test case
        lo = rng.choice([0, 0, 1, 3])
        hi = rng.choice([lo, lo + 1, lo + 5, float("inf")])
        avg = lo if hi == lo else min(hi, lo + rng.choice([0.1, 0.5, 1, 3, 5]))
        if hi != lo and avg in (lo, hi) and hi != float("inf"):
            avg = (lo + hi) / 2
        for _ in range(4):
            pattern = [rng.random() < 0.8 for _ in range(60)]
            prej = rng.choice([0, 0, 0.5, 1.0])
            rej = [rng.random() < prej for _ in range(200)]
            forced = rng.choice([None, None, min(hi, lo + rng.randrange(4))])
            forced = None if prej else forced
            d = ConjectureData.for_choices(pattern)
            size, drawn, rejected, stopped = 0, 0, 0, None
            try:
                it = many(d, lo, hi, avg, forced=forced)
                while it.more():
                    size += 1
                    drawn += 1
                    if rej[drawn % 200]:
                        size -= 1
                        rejected += 1
                        it.reject()
                    if drawn > 300:
                        rec.violation("many-runaway", f"many({lo}, {hi}, {avg}) did not stop after {drawn} elements, {rejected} rejected")
                        break
            except StopTest:
                stopped = d.status
            rec.count("many")
            rec.observed(("many", lo, hi, avg, forced, repr(pattern), prej))
            where = f"many({lo}, {hi}, {avg}, forced={forced}) with choices {pattern}: {size} elements, {rejected} of {drawn} rejected, {stopped}"
            if stopped is None and drawn <= 300:
                rec.check(lo <= size <= hi, "many-size", where)
                if forced is not None:
                    rec.check(size == forced, "many-forced", where)
            if stopped == Status.INVALID:
                rec.check(rejected > 3 and size < lo, "many-invalid", where)
        # find_integer, binary_search
        limit = rng.choice([rng.randrange(10), rng.randrange(1000), rng.randrange(10**9)])
        calls = []
        o = call(find_integer, lambda n: (calls.append(n), n <= limit)[1])
        rec.count("helpers")
        rec.check(o.out == limit and 0 not in calls and len(calls) < 80, "find-integer", f"find_integer for n <= {limit}: {o!r} after {len(calls)} calls")
        holes = {rng.randrange(1, 40) for _ in range(5)}
        o = call(find_integer, lambda n: n not in holes and n < 200)
        rec.check(o.exc is None and (o.out == 0 or o.out not in holes) and (o.out + 1 in holes or o.out + 1 >= 200), "find-integer",
                  f"find_integer with holes {holes}: {o!r}")
        a = rng.randrange(-50, 50)
        b = a + rng.randrange(1, 100)
        cut = rng.randrange(a, b)
        flip = rng.random() < 0.5
        o = call(binary_search, a, b, lambda n: (n <= cut) ^ flip)
        rec.check(o.out == cut, "binary-search", f"binary_search({a}, {b}) for n <= {cut}: {o!r}")
        # replace_all
        ls = list(range(rng.randrange(20)))
        cuts = sorted(rng.randrange(len(ls) + 1) for _ in range(2 * rng.randrange(4)))
        reps = [(u, v, ["r"] * rng.randrange(3)) for u, v in zip(cuts[::2], cuts[1::2])]
        want = list(ls)
        for u, v, r in reversed(reps):
            want[u:v] = r
        o = call(replace_all, ls, reps)
        rec.check(o.out == want, "replace-all", f"replace_all({ls}, {reps}) -> {o!r}")
        # SelfOrganisingList
        vals = [rng.randrange(10) for _ in range(rng.randrange(12))]
        s, m, trace = SelfOrganisingList(vals), list(vals), []
        for _ in range(12):
            if rng.random() < 0.4:
                v = rng.randrange(10)
                s.add(v)
                m.append(v)
                trace.append(("add", v))
            else:
                good = {rng.randrange(12) for _ in range(3)}
                o = call(s.find, lambda v: v in good)
                cand = [v for v in m if v in good]
                trace.append(("find", good))
                if cand:
                    rec.check(o.out == cand[-1], "self-organising", f"{vals} {trace}: {o!r}, expected {cand[-1]}")
                    i = len(m) - 1 - m[::-1].index(cand[-1])
                    m.append(m.pop(i))
                else:
                    rec.check(isinstance(o.exc, NotFound), "self-organising", f"{vals} {trace}: {o!r}")
        for bad in (0, -1):
            rec.check(isinstance(call(LRUReusedCache, bad).exc, InvalidArgument), "cache-size", f"LRUReusedCache({bad}) accepted")
