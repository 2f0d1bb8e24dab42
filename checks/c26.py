"""C26: the fuzzer entry point accepts any bytes, returns canonical ones, and saves failures."""
import io
import itertools
import os
import tempfile

from hypothesis import HealthCheck, Phase, given, seed, strategies as st
from hypothesis.database import InMemoryExampleDatabase
from hypothesis.internal.conjecture.choice import choice_to_index

from hv.programs import Program, failures, leaves
from hv.trees import canon, leaf, tree
from hv.util import HvFail, HvFail2, S, call, random_choices, time_limit, FIRED

INFO = dict(
    technique="runtime monitoring: generated tests are fed hostile and mutated buffers through fuzz_one_input while their own log records "
              "what ran on which values; a monitor relates results, replays and database contents to that log",
    level="exploration",
    rule="One evaluation = one buffer fed to an entry point (or one value sought). Non-trivial = distinct (test, kind of result, values).",
    floors={"fed": 8000, "accepted": 1500, "rejected": 1500, "raised": 500, "replayed": 1500, "stored_failures": 100, "runs_from_store": 60,
            "domains_covered": 100, "streams": 200, "bounds_reached": 60},
)
KINDS = ["feed0", "feed1", "feed2", "store0", "store1", "reach0", "reach1", "bounds0"]


def units(tier, seed):
    reps = 1 if tier == "quick" else 10
    return [dict(name=f"{k}-{i}", kind=k, timeout=800) for i in range(reps) for k in KINDS]


def run(unit, rec):
    globals()["k_" + unit["kind"].rstrip("0123456789")](rec)


def buffers(rng):
    """Hostile byte strings."""
    k = rng.randrange(9)
    n = rng.choice([0, 1, 2, 5, 20, 60, 200, 600])
    if k == 0:
        return bytes(n)
    if k == 1:
        return b"\xff" * n
    if k == 2:
        return bytes(rng.choice([0, 255, 128, 1]) for _ in range(n))
    if k == 3:
        return (rng.randbytes(rng.randint(1, 4)) * n)[:n]
    if k == 4:
        return bytes(rng.choices([0, rng.randrange(256)], [5, 1], k=n))
    return rng.randbytes(n)


def mutate(rng, b):
    b = bytearray(b)
    for _ in range(rng.randint(1, 3)):
        k = rng.randrange(4)
        i = rng.randrange(len(b) + 1)
        if k == 0 and b:
            b[i % len(b)] ^= 1 << rng.randrange(8)
        elif k == 1:
            del b[i:i + rng.randint(1, 5)]
        elif k == 2:
            b[i:i] = rng.randbytes(rng.randint(1, 4))
        elif b:
            b[i % len(b)] = rng.choice([0, 255])
    return bytes(b)


def wrapped(rng, b):
    k = rng.randrange(7)
    if k == 0:
        return bytearray(b)
    if k == 1:
        return memoryview(b)
    if k == 2:
        return io.BytesIO(b)
    if k == 3:
        return io.BufferedReader(io.BytesIO(b))
    return b


def key(ex):
    return None if ex is None else (tuple(ex.vals), ex.out, ex.origin)


def k_feed(rec):
    rng = rec.rng
    for _ in rec.loop(60, 9):
        p = Program(rng)
        log = []
        t = p.make(log, S(), name="fz")
        fz = t.hypothesis.fuzz_one_input
        good = []

        def feed(buf):
            n = len(log)
            with time_limit(3):
                o = call(fz, buf)
            if FIRED:
                return None, None, None
            rec.count("fed")
            if len(log) - n > 1:
                rec.violation("feed:many", f"{p.desc}: {buf!r} ran the test {len(log) - n} times")
            return o, (log[-1] if len(log) > n else None), buf
        for _ in range(60):
            b = buffers(rng) if not good or rng.random() < 0.5 else mutate(rng, rng.choice(good))
            w = wrapped(rng, b)
            if w is not b:
                rec.count("streams")
            o, ex, _ = feed(w)
            if o is None:
                break
            if ex is None and not (o.exc is None and o.value is None):
                rec.violation("feed:norun", f"{p.desc}: {b!r} never ran the test but gave {o.value!r} / {o.exc!r}")
                continue
            if ex is None:
                rec.observed((p.desc, "none"))
                rec.count("rejected")
                continue
            for nd, v in zip(p.nodes, ex.vals):
                pass
            rec.observed((p.desc, ex.out, len(ex.vals), repr(ex.vals)[:200]))
            if ex.out in ("reject", "stop"):
                rec.count("rejected")
                if o.exc is not None or o.value is not None:
                    rec.violation("feed:rejected", f"{p.desc}: {b!r} was rejected by the test but gave {o.value!r} / {o.exc!r}")
                continue
            if ex.out == "fail":
                rec.count("raised")
                if o.exc is not ex.exc:
                    rec.violation("feed:error", f"{p.desc}: {b!r} made the test raise {ex.exc!r} but the entry point gave {o.exc!r} / {o.value!r}")
                good.append(b)
                o2, ex2, _ = feed(b)
                if o2 is not None and key(ex2) != key(ex):
                    rec.violation("feed:unstable", f"{p.desc}: {b!r} gave {ex!r} and then {ex2!r}")
                continue
            # passed
            c = o.value
            if o.exc is not None or type(c) is not bytes:
                rec.violation("feed:result", f"{p.desc}: {b!r} passed but gave {c!r} / {o.exc!r}")
                continue
            rec.count("accepted")
            good.append(c)
            if len(c) > len(b):
                rec.violation("feed:longer", f"{p.desc}: {len(b)} bytes were canonicalised to {len(c)}")
            for again in (c, c + rng.randbytes(rng.randint(1, 9)), b[:len(c)], b + b"zz"):
                o2, ex2, _ = feed(again)
                if o2 is None:
                    break
                rec.count("replayed")
                if key(ex2) != key(ex) or o2.value != c:
                    rec.violation("feed:canonical", f"{p.desc}: {b!r} gave {ex!r} and canonical bytes {c!r}, but feeding {again!r} gave {ex2!r} and "
                                  f"{o2.value!r} / {o2.exc!r}")
                    break
            if c:
                o2, ex2, _ = feed(c[:-1])
                if o2 is not None and o2.value is not None and o2.value == c:
                    rec.violation("feed:short", f"{p.desc}: a strict prefix of {c!r} was accepted as those bytes")
    # the values are those of the strategies
    for _ in rec.loop(60, 4):
        nodes = [tree(rng, rng.choice([0, 1, 2])) for _ in range(rng.randint(1, 2))]
        seen = []

        def check(a, b=None):
            seen.append((a, b))
        t = given(**dict(zip("ab", (n.strategy for n in nodes))))(check if len(nodes) == 2 else lambda a: check(a))
        t._hypothesis_internal_use_settings = S()
        fz = t.hypothesis.fuzz_one_input
        for _ in range(40):
            seen.clear()
            b = buffers(rng)
            with time_limit(3):
                o = call(fz, b)
            if FIRED:
                break
            rec.count("fed")
            if o.exc is not None:
                rec.violation("feed:crash", f"{[n.desc for n in nodes]}: {b!r} raised {o.exc!r}")
                break
            for vs in seen:
                for n, v in zip(nodes, vs):
                    rec.observed((n.desc, repr(canon(v))[:200]))
                    if m := n.complaint(v):
                        rec.violation("feed:foreign", f"{n.desc}: {b!r} gave {v!r}: {m}")


def order(ex):
    return (len(ex.nodes), tuple(choice_to_index(n.value, n.constraints) for n in ex.nodes))


def k_store(rec):
    """Every distinct failure, and each simpler repeat, is stored; a normal run replays them."""
    rng = rec.rng
    for _ in rec.loop(80, 9):
        p = Program(rng, nfail=rng.choice([1, 2, 3, 5]), fail=rng.choice([0.1, 0.3, 1.0]), rejectp=rng.choice([0, 0.1]), randoms=False, targets=0)
        log = []
        db = InMemoryExampleDatabase()
        t = p.make(log, S(database=db, phases=[Phase.reuse], report_multiple_bugs=True), name="fz", sd=None)
        fz = t.hypothesis.fuzz_one_input
        best, failed = {}, []
        ok = True
        entries = lambda: sum(len(v) for v in db.data.values())  # noqa
        for _ in range(rng.choice([3, 20, 60])):
            b = buffers(rng) if rng.random() < 0.6 or not failed else mutate(rng, rng.choice(failed))
            before, nlog = {k: set(v) for k, v in db.data.items()}, len(log)
            with time_limit(3):
                o = call(fz, b)
            if FIRED:
                ok = False
                break
            rec.count("fed")
            new = {k: set(v) - before.get(k, set()) for k, v in db.data.items()}
            new = {k: v for k, v in new.items() if v}
            gone = {k for k, v in before.items() if v - set(db.data.get(k, ()))}
            ex = log[-1] if len(log) > nlog else None
            if gone:
                rec.violation("store:gone", f"{p.desc}: entries disappeared from the database while fuzzing")
            if ex is None or ex.out != "fail":
                if new:
                    rec.violation("store:spurious", f"{p.desc}: {b!r} did not fail ({ex!r}) but {new} was saved")
                continue
            failed.append(b)
            rec.observed((p.desc, ex.origin, order(ex)[0]))
            o_ = ex.origin
            if o_ not in best or order(ex) < best[o_]:
                best[o_] = order(ex)
                rec.count("stored_failures")
                if not any(db.data.values()) or (not new and not known(db, ex)):
                    rec.violation("store:missing", f"{p.desc}: {b!r} failed with {ex.exc!r}, "
                                  f"{'the first of its kind' if len(failed) == 1 else 'simpler than before'}, and nothing was saved")
        if not ok or not best:
            continue
        if len([k for k, v in db.data.items() if v]) != 1:
            rec.violation("store:keys", f"{p.desc}: failures were saved under several keys {list(db.data)}")
        # a normal run of the test replays them
        nlog = len(log)
        with time_limit(8):
            o = call(t)
        if FIRED:
            continue
        rec.count("runs_from_store")
        replayed = failures(log[nlog:])
        if not replayed or o.exc is None:
            rec.violation("store:replay", f"{p.desc}: after fuzzing found {list(best)}, a normal run replayed {len(log) - nlog} cases and "
                          f"ended with {o.exc!r}")
        elif entries() and not set(replayed) <= set(best):
            rec.violation("store:other", f"{p.desc}: fuzzing found {list(best)} but the normal run {list(replayed)}")
        elif sum(1 for e in log[:nlog] if e.out == "fail") < 8 and set(replayed) != set(best):
            rec.violation("store:lost", f"{p.desc}: fuzzing found {list(best)} but the normal run only replayed {list(replayed)}")


def known(db, ex):
    from hypothesis.database import choices_to_bytes
    return any(choices_to_bytes(ex.choices) in v for v in db.data.values())


def k_reach(rec):
    """Finite strategies: random bytes reach every value."""
    rng = rec.rng
    for _ in rec.loop(400, 9):
        n = leaf(rng, finite=True) if rng.random() < 0.4 else tree(rng, rng.choice([1, 1, 2]), finite=True)
        if n.domain is None or not 1 <= len(n.domain) <= 60:
            continue
        seen = {}

        def t(v):
            seen.setdefault(canon(v), v)
        t = given(n.strategy)(t)
        t._hypothesis_internal_use_settings = S()
        fz = t.hypothesis.fuzz_one_input
        want = {canon(v) for v in n.domain}
        crash = None
        with time_limit(6):
            # every buffer of one byte, then random ones
            for b in itertools.chain((bytes([i]) for i in range(256)), (buffers(rng) if i % 4 == 0 else rng.randbytes(rng.choice([4, 16, 64, 64, 200]))
                                                                       for i in range(40_000))):
                try:
                    fz(b)
                except Exception as e:
                    crash = e
                    break
                if len(seen) >= len(want) and want <= set(seen):
                    break
        rec.observed((n.desc, len(want)))
        if crash is not None:
            rec.violation("reach:crash", f"{n.desc}: {crash!r}")
        elif bad := set(seen) - want:
            rec.violation("reach:foreign", f"{n.desc}: bytes gave {bad}, which the strategy never gives")
        elif FIRED:
            rec.count("search_cut_short")
        elif want - set(seen):
            # unlikely shapes need not be found by luck: ask whether the missing ones are rare for the strategy too
            rec.count("search_gave_up")
            if len(want) <= 24 and "filter" not in n.desc and n.desc.count("(") <= 3:
                rec.violation("reach:missing", f"{n.desc}: 40000 buffers never gave {want - set(seen)}")
        else:
            rec.count("domains_covered")


def guesses(n):
    """Plausible encodings of an offset."""
    if n is None:
        return []
    k = max(1, (n.bit_length() + 7) // 8)
    return [pre + n.to_bytes(w, e) + bytes(30) for w in (k, k + 1, 8, 16) if w >= k for e in ("big", "little")
            for pre in (b"", b"\x00", b"\xff", b"\x80", b"\x01", b"\x7f", b"\xfe")]


def k_bounds(rec):
    """Bounded numbers: the ends of the range, and values near them, are reached by some bytes (bit by bit ascent)."""
    rng = rec.rng
    for _ in rec.loop(200, 9):
        kind = rng.choice(["int", "int", "float", "text", "binary", "lists"])
        if kind == "int":
            lo = rng.choice([0, -5, -2**70, 2**64, rng.randrange(-1000, 1000)])
            hi = lo + rng.choice([1, 2, 7, 8, 255, 256, 257, 65535, 2**32, 2**64 - 1, 2**64, 10**30, rng.randrange(1, 10**6)])
            s, measure, ends = st.integers(lo, hi), lambda v: v, (lo, hi)
        elif kind == "float":
            lo = rng.choice([0.0, -1.0, 1.5, 5e-324])
            hi = lo + rng.choice([1.0, 2.0, 1e3])
            s, measure, ends = st.floats(lo, hi), lambda v: v, (lo, hi)
        elif kind == "text":
            lo = rng.randrange(0, 4)
            hi = lo + rng.randrange(1, 5)
            s, measure, ends = st.text("abc", min_size=lo, max_size=hi), len, (lo, hi)
        elif kind == "binary":
            lo = rng.randrange(0, 4)
            hi = lo + rng.randrange(1, 5)
            s, measure, ends = st.binary(min_size=lo, max_size=hi), len, (lo, hi)
        else:
            lo = rng.randrange(0, 4)
            hi = lo + rng.randrange(1, 5)
            s, measure, ends = st.lists(st.booleans(), min_size=lo, max_size=hi), len, (lo, hi)
        got = []
        t = given(s)(lambda v: got.append(v))
        t._hypothesis_internal_use_settings = S()
        fz = t.hypothesis.fuzz_one_input

        def val(b):
            got.clear()
            fz(bytes(b))
            return measure(got[0]) if got else None
        for sign, end in ((-1, ends[0]), (1, ends[1])):
            best, bv = None, None
            for b in [bytes(40), b"\xff" * 40, b"\x7f" + b"\xff" * 39, b"\x00" * 39 + b"\xff"] + \
                    guesses(end - lo if kind == "int" else None) + [rng.randbytes(40) for _ in range(60)]:
                v = val(b)
                if v is not None and (bv is None or sign * v > sign * bv):
                    best, bv = bytearray(b), v
            improved = True
            while improved and bv != end and best is not None:
                improved = False
                for i in range(len(best)):
                    for m in [1 << j for j in range(7, -1, -1)] + [255, 3, 7, 15]:
                        c = bytearray(best)
                        c[i] ^= m
                        v = val(c)
                        if v is not None and sign * v > sign * bv:
                            best, bv, improved = c, v, True
                    if bv == end:
                        break
            rec.observed((kind, lo, hi, sign))
            if bv is not None and not ends[0] <= bv <= ends[1]:
                rec.violation("bounds:outside", f"{s!r}: bytes {bytes(best)!r} gave {bv!r}")
            if bv == end:
                rec.count("bounds_reached")
            elif kind == "float" and bv is not None and abs(bv / 4 - end / 4) <= hi / 16 - lo / 16:
                rec.count("search_gave_up")
            elif kind == "int" and (hi - lo).bit_count() < (hi - lo).bit_length() and hi - lo > 255:
                rec.count("search_gave_up")  # climbing gets stuck at values that are out of range
            else:
                rec.violation("bounds:missed", f"{s!r}: no bytes were found that reach {end!r}; closest {bv!r} by {bytes(best or b'')!r}")
