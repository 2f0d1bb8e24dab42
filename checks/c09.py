"""C09: serialization of choice sequences."""
import math
import struct

from hypothesis import Phase, given, seed, strategies as st
from hypothesis.database import ExampleDatabase, choices_from_bytes, choices_to_bytes
from hypothesis.errors import Unsatisfiable

from hv.util import (FeedDatabase, HvFail, OutOfTime, S, call, mutate_choices, random_choices, time_limit)

INFO = dict(
    technique="runtime monitoring: round-trip, injectivity and totality monitors on the codec, alone and under the engine",
    level="exploration",
    rule="One evaluation = one choice sequence encoded and decoded, or one byte string decoded. "
         "Non-trivial = distinct byte string.",
    floors={"roundtrips": 5000, "junk": 5000, "engine_runs": 4},
)
KINDS = ["trip0", "trip1", "edges", "junk0", "junk1", "engine"]


def units(tier, seed):
    reps = 1 if tier == "quick" else 12
    return [dict(name=f"{k}-{i}", kind=k, timeout=800) for i in range(reps) for k in KINDS]


def exact(choices):
    """A key which tells any two different choice sequences apart."""
    out = []
    for c in choices:
        if isinstance(c, float):
            out.append(("f", struct.pack(">d", c)))
        elif isinstance(c, bool):
            out.append(("b", c))
        else:
            out.append((type(c).__name__, c))
    return tuple(out)


def well_typed(r):
    return isinstance(r, tuple) and all(type(c) in (bool, int, float, str, bytes) for c in r)


class Trip:
    def __init__(self, rec):
        self.rec = rec
        self.seen = {}

    def __call__(self, choices):
        rec = self.rec
        rec.count("roundtrips")
        try:
            b = choices_to_bytes(choices)
        except Exception as e:
            rec.violation("encode-raises", f"{choices!r}: {e!r}")
            return None
        rec.observed(b)
        k = exact(choices)
        if not isinstance(b, bytes):
            rec.violation("not-bytes", f"{choices!r}: {b!r}")
            return None
        r = choices_from_bytes(b)
        if r is None or exact(r) != k:
            rec.violation("roundtrip", f"{choices!r} came back as {r!r}", encoded=b)
        if self.seen.setdefault(b, k) != k:
            rec.violation("collision", f"{choices!r} and {self.seen[b]!r} are both {b!r}")
        if len(self.seen) > 300_000:
            self.seen.clear()
        return b


def k_trip(rec):
    trip = Trip(rec)
    rng = rec.rng
    prev = []
    for i in rec.loop(60_000 if rec.quick else 3_000_000):
        if i % 3 == 0 or not prev:
            c = random_choices(rng)
        else:
            c = mutate_choices(rng, prev)
        prev = c
        trip(tuple(c))
    rec.sample(last=c)


def k_edges(rec):
    trip = Trip(rec)
    rng = rec.rng
    # sizes around the length encodings' limits, alone and followed by something else
    tails = [(), (True,), (0,), ("",), (b"\x00",), (0.0,)]
    for n in list(range(0, 70)) + [126, 127, 128, 129, 254, 255, 256, 257, 1000, 16383, 16384, 16385, 70000]:
        for mk in [lambda n: "a" * n, lambda n: "é" * n, lambda n: "\ud800" * n, lambda n: "\U0010ffff" * n,
                   lambda n: bytes(n), lambda n: b"\xff" * n, lambda n: b"\x80" * n]:
            for t in rng.sample(tails, 2):
                trip((mk(n),) + t)
    for k in list(range(0, 300)) + [511, 512, 513, 1015, 1016, 1023, 1024, 2047, 2048, 8000, 40000]:
        for d in (-1, 0, 1):
            for s in (1, -1):
                trip((s * (2**k + d),))
                trip((s * (2**k + d), rng.choice([True, 1.5, "x", b"y", -1])))
    for i in range(-70000, 70000, 1 if not rec.quick else 7):
        trip((i,))
    for hi in range(0, 0x110000, 257 if rec.quick else 13):
        trip((chr(hi),))
        trip((chr(hi) * 2, chr(0x10FFFF - hi)))
    # float bit patterns: every exponent, many mantissas
    for e in range(2048):
        for m in [0, 1, (1 << 52) - 1, 1 << 51, rng.getrandbits(52), rng.getrandbits(52)]:
            for s in (0, 1):
                trip((struct.unpack(">d", struct.pack(">Q", s << 63 | e << 52 | m))[0],))
    # many short sequences of few values: encodings must not run into each other
    vals = [True, False, 0, 1, -1, 127, 128, -128, 255, 256, "", "a", "\x00", b"", b"a", b"\x00", 0.0, -0.0, "ab", b"ab", 2**64]
    for a in vals:
        trip((a,))
        for b in vals:
            trip((a, b))
            for c in vals:
                trip((a, b, c))
    trip(())
    for n in (1000, 20_000):
        trip(tuple(rng.choice(vals) for _ in range(n)))


def decode(rec, buf, trip, limit=3.0):
    rec.count("junk")
    rec.observed(buf)
    try:
        with time_limit(limit):
            r = choices_from_bytes(buf)
    except OutOfTime:
        rec.violation("hang", f"decoding {buf[:60]!r} ({len(buf)} bytes) takes more than {limit}s")
        return
    except BaseException as e:
        rec.violation("decode-raises", f"{buf[:200]!r}: {e!r}")
        return
    if r is None:
        rec.count("junk_rejected")
        return
    rec.count("junk_accepted")
    if not well_typed(r):
        rec.violation("ill-typed", f"{buf[:200]!r} decodes to {r!r}")
        return
    # what it decodes to must itself survive
    b = choices_to_bytes(r)
    if exact(choices_from_bytes(b) or ()) != exact(r):
        rec.violation("roundtrip", f"{r!r} (decoded from {buf!r}) came back differently")


def k_junk(rec):
    rng = rec.rng
    trip = Trip(rec)
    for a in range(256):
        decode(rec, bytes([a]), trip)
        for b in range(0, 256, 1 if not rec.quick else 23):
            decode(rec, bytes([a, b]), trip)
            decode(rec, bytes([a, b]) + b"\xff" * 12, trip)
            decode(rec, bytes([a, b]) + b"\x80" * 30, trip)
    for i in rec.loop(40_000 if rec.quick else 2_000_000):
        k = rng.randrange(6)
        if k == 0:
            buf = rng.randbytes(rng.choice([0, 1, 2, 3, 5, 9, 17, 40, 200]))
        else:
            buf = bytearray(choices_to_bytes(random_choices(rng)))
            for _ in range(rng.randrange(1, 4)):
                if not buf:
                    break
                j = rng.randrange(len(buf))
                if k == 1:
                    del buf[j:]
                elif k == 2:
                    buf[j] ^= 1 << rng.randrange(8)
                elif k == 3:
                    del buf[j]
                elif k == 4:
                    buf[j:j] = rng.randbytes(rng.randrange(1, 5))
                else:
                    buf[j] = 255
            buf = bytes(buf)
        decode(rec, buf, trip)
    for n in (10**4, 10**5):
        for fill in (b"\x00", b"\xff", b"\x80", b"\x01", b"\x7f", b"\x3f", b"\xe5"):
            decode(rec, fill * n, trip, limit=60)


class RawFeed(ExampleDatabase):
    def __init__(self, entries):
        super().__init__()
        self.entries = set(entries)
        self.deleted = []

    def fetch(self, key):
        return [] if key.endswith((b".secondary", b".pareto")) else list(self.entries)

    def save(self, key, value):
        self.entries.add(value)

    def delete(self, key, value):
        self.deleted.append(value)
        self.entries.discard(value)


def k_engine(rec):
    """Junk in the database never changes what a test does; what the engine saves decodes."""
    rng = rec.rng
    strats = [st.integers(), st.floats(), st.text(), st.binary(), st.lists(st.integers() | st.text()), st.booleans(),
              st.tuples(st.floats(), st.text(), st.binary())]
    for _ in rec.loop(40 if rec.quick else 1500):
        rec.count("engine_runs")
        s = rng.choice(strats)
        junk = []
        for _ in range(20):
            b = bytearray(choices_to_bytes(random_choices(rng)))
            if b and rng.random() < 0.7:
                b[rng.randrange(len(b))] = rng.randrange(256)
            junk.append(bytes(b[: rng.randrange(len(b) + 1)]) if rng.random() < 0.5 else bytes(b))
        junk += [rng.randbytes(rng.randrange(30)) for _ in range(10)]
        db = RawFeed(junk)

        @S(max_examples=30, database=db)
        @seed(rng.getrandbits(30))
        @given(s)
        def passing(v):
            pass
        o = call(passing)
        rec.observed(("engine", bytes(b"".join(junk))))
        rec.check(o.exc is None, "junk-disturbs", f"{s!r}: {o.exc!r} with entries {junk[:5]!r}...")
        # only what does not decode must go; the rest depends on when the run stopped
        left = [e for e in db.entries if choices_from_bytes(e) is None]
        rec.count("junk_left", len(left))
        # a failing test: what it saves decodes, and replays to the same value
        db = RawFeed(junk)
        last = []

        @S(max_examples=30, database=db)
        @seed(rng.getrandbits(30))
        @given(s)
        def failing(v):
            last.append(v)
            raise HvFail
        o = call(failing)
        rec.check(isinstance(o.exc, HvFail), "junk-masks", f"{s!r}: {o.exc!r}")
        for e in db.entries - set(junk):
            c = choices_from_bytes(e)
            rec.check(c is not None and choices_to_bytes(c) == e, "saved-undecodable", f"{e!r}")


def run(unit, rec):
    globals()["k_" + unit["kind"].rstrip("01")](rec)
