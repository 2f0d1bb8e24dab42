"""Shared workload drivers and monitors.  Everything is observed at public boundaries:
the calls of the user's test function and the values it receives, the database object,
the exception that leaves the test."""
import contextlib
import io
import math
import signal
import struct
import time
import unittest
import warnings
import zlib

import hypothesis
from hypothesis import HealthCheck, Phase, given, seed, settings
from hypothesis.database import ExampleDatabase, choices_from_bytes, choices_to_bytes
from hypothesis.internal.conjecture.providers import AVAILABLE_PROVIDERS, PrimitiveProvider
from hypothesis.errors import (
    Flaky, HypothesisException, InvalidArgument, StopTest, Unsatisfiable,
)

ALL_CHECKS = list(HealthCheck)


class HvFail(Exception):
    """Raised by our test functions on purpose."""


class HvFail2(Exception):
    pass


def stable_hash(obj):
    r = obj if isinstance(obj, str) else repr(obj)
    return zlib.crc32(r.encode("utf-8", "surrogatepass")) * 2654435761 % 2**32 >> 4


def S(**kw):
    base = dict(
        database=None, deadline=None, suppress_health_check=ALL_CHECKS,
        derandomize=False, max_examples=100, print_blob=False,
    )
    base.update(kw)
    return settings(**base)


@contextlib.contextmanager
def captured():
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield buf


class Outcome:
    def __init__(self, exc, out, value=None):
        self.exc = exc
        self.out = out
        self.value = value

    def __repr__(self):
        return f"Outcome({self.exc!r})"


def call(f, *a, **k):
    """Run f, returning its Outcome.  KeyboardInterrupt and SystemExit are captured too."""
    value = None
    with captured() as buf:
        try:
            value = f(*a, **k)
            exc = None
        except BaseException as e:  # noqa
            exc = e
    return Outcome(exc, buf.getvalue(), value)


class OutOfTime(BaseException):
    """Raised by a monitor to end a run which takes longer than we want to wait."""


FIRED = []  # non-empty once the present time limit has interrupted something


@contextlib.contextmanager
def time_limit(seconds):
    """Raise OutOfTime in the main thread if the block takes longer than that."""
    FIRED.clear()

    def ring(signum, frame):
        FIRED.append(seconds)
        raise OutOfTime(f"{seconds}s")
    old = signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, seconds, 2)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class TooManyCalls(BaseException):
    """Raised by a monitor when the engine executes a test far too often."""


NASTY_FLOATS = [
    0.0, -0.0, 1.0, -1.0, 0.5, 1.5, math.inf, -math.inf, math.nan, 5e-324, -5e-324,
    2.2250738585072014e-308, 2.225073858507201e-308, 1.7976931348623157e308,
    -1.7976931348623157e308, 1e-5, 2.0**53, 2.0**53 + 2, -(2.0**63), 2.0**64, 3.14, 1 / 3,
    struct.unpack("<d", struct.pack("<Q", 0x7FF8000000000001))[0],
    struct.unpack("<d", struct.pack("<Q", 0xFFF0000000000001))[0],
    struct.unpack("<d", struct.pack("<Q", 0x7FF0000000000001))[0],
]
NASTY_INTS = [0, 1, -1, 2, 3, 7, 10, 127, 128, 255, 256, -128, -129, 2**15, 2**31 - 1, 2**31,
              -(2**31), 2**32, 2**53, 2**63, -(2**63), 2**64, 2**127, 2**128, -(2**128), 2**200]
NASTY_STR = ["", "a", "0", "A", "\x00", "\n", "\r\n", "é", "ß", "\u0130", "\ud800", "\udfff",
             "\U0010ffff", "abc", "000", "\x7f", "\x80", "İ\u0307", "ab" * 20]


def random_choice_value(rng):
    k = rng.randrange(5)
    if k == 0:
        return rng.random() < 0.5
    if k == 1:
        if rng.random() < 0.6:
            return rng.choice(NASTY_INTS)
        return rng.randint(-(2 ** rng.choice([3, 8, 16, 64])), 2 ** rng.choice([3, 8, 16, 64]))
    if k == 2:
        if rng.random() < 0.5:
            return rng.choice(NASTY_FLOATS)
        return struct.unpack("<d", rng.randbytes(8))[0]
    if k == 3:
        return rng.randbytes(rng.choice([0, 1, 2, 3, 16, 40]))
    if rng.random() < 0.5:
        return rng.choice(NASTY_STR)
    return "".join(chr(rng.choice([rng.randrange(128), rng.randrange(0x110000)]))
                   for _ in range(rng.randrange(8)))


def random_choices(rng, n=None):
    n = rng.choice([0, 1, 2, 3, 5, 10, 30]) if n is None else n
    return [random_choice_value(rng) for _ in range(n)]


def mutate_choices(rng, choices):
    out = list(choices)
    for _ in range(rng.choice([1, 1, 2, 4])):
        op = rng.randrange(6)
        if not out:
            out = random_choices(rng)
            continue
        i = rng.randrange(len(out))
        if op == 0:
            out[i] = random_choice_value(rng)
        elif op == 1:
            del out[i]
        elif op == 2:
            out.insert(i, random_choice_value(rng))
        elif op == 3:
            j = rng.randrange(len(out))
            out[i], out[j] = out[j], out[i]
        elif op == 4:
            out[i:i] = out[i:i + rng.randrange(1, 4)]
        else:
            v = out[i]
            if isinstance(v, bool):
                out[i] = not v
            elif isinstance(v, int):
                out[i] = rng.choice([v + 1, v - 1, -v, v * 2, v ^ 1])
            elif isinstance(v, float):
                out[i] = rng.choice([-v, v + 1, v * 2, math.nan, math.inf, -math.inf])
            elif isinstance(v, (bytes, str)):
                out[i] = rng.choice([v + v, v[1:], v[:-1], v[::-1]])
    return out


class FeedDatabase(ExampleDatabase):
    """Gives the same entries for every key, and records what the engine writes."""

    def __init__(self, entries=()):
        super().__init__()
        self.entries = list(entries)
        self.log = []

    def fetch(self, key):
        self.log.append(("fetch", key))
        if key.endswith((b".secondary", b".pareto")):
            return []
        return list(self.entries)

    def save(self, key, value):
        self.log.append(("save", key, value))

    def delete(self, key, value):
        self.log.append(("delete", key, value))

    def saved(self):
        return [r[2] for r in self.log if r[0] == "save"]


def fuzz_bytes(rng):
    k = rng.randrange(6)
    n = rng.choice([0, 1, 2, 4, 8, 16, 64, 256, 1024])
    if k == 0:
        return bytes(n)
    if k == 1:
        return b"\xff" * n
    if k == 2:
        return bytes(rng.choice([0, 0, 0, 1, 255]) for _ in range(n))
    return rng.randbytes(n)


class ExtremeProvider(PrimitiveProvider):
    """A backend which prefers the extremes of whatever range it is asked for."""
    lifetime = "test_function"
    rng = None
    style = None

    def __init__(self, conjecturedata, /):
        super().__init__(conjecturedata)
        self.r = self.rng or __import__("random").Random(0)
        self.mode = "mixed"

    @contextlib.contextmanager
    def per_test_case_context_manager(self):
        self.mode = self.style or self.r.choice(["min", "max", "mixed", "mixed", "wild"])
        self.budget = 400
        yield

    def pick(self):
        self.budget -= 1
        if self.budget < 0:
            return "min"
        if self.mode == "mixed":
            return self.r.choice(["min", "max"])
        if self.mode == "wild":
            return self.r.choice(["min", "max", "any", "any"])
        return self.mode

    def draw_boolean(self, p=0.5):
        k = self.pick()
        if p <= 0 or p >= 1:
            return p >= 1
        return {"min": False, "max": self.r.random() < 0.9}.get(k, self.r.random() < p)

    def draw_integer(self, min_value=None, max_value=None, *, weights=None, shrink_towards=0):
        k = self.pick()
        lo = min_value if min_value is not None else (
            min(max_value or 0, 0) - 2 ** self.r.choice([3, 16, 64, 130]))
        hi = max_value if max_value is not None else max(lo, 0) + 2 ** self.r.choice([3, 16, 64, 130])
        if k == "any":
            return self.r.randint(lo, hi)
        return lo if k == "min" else hi

    def draw_float(self, *, min_value=-math.inf, max_value=math.inf, allow_nan=True,
                   smallest_nonzero_magnitude):
        k = self.pick()
        snm = smallest_nonzero_magnitude
        opts = [min_value, max_value] if k != "min" else [min_value]
        if k == "any":
            opts = [x for x in [0.0, -0.0, snm, -snm, 1.0, -1.0, 0.5, math.inf, -math.inf, 1e300]
                    if min_value <= x <= max_value and (x == 0 or abs(x) >= snm)
                    and not (x == 0 and math.copysign(1, x) > 0 > math.copysign(1, max_value) and max_value == 0)
                    and not (x == 0 and math.copysign(1, x) < 0 < math.copysign(1, min_value) and min_value == 0)]
            if allow_nan:
                opts.append(math.nan)
            opts = opts or [min_value]
        elif k == "max":
            opts = [max_value]
        return self.r.choice(opts)

    def _size(self, lo, hi):
        k = self.pick()
        hi = min(hi, lo + 30)
        return self.r.randint(lo, hi) if k == "any" else lo if k == "min" else hi

    def draw_string(self, intervals, *, min_size=0, max_size=10**10):
        if not len(intervals):
            return ""
        n = self._size(min_size, max_size)
        ends = [0, -1]
        return "".join(chr(intervals[self.r.choice(ends) if self.r.random() < 0.7
                                     else self.r.randrange(len(intervals))]) for _ in range(n))

    def draw_bytes(self, min_size=0, max_size=10**10):
        n = self._size(min_size, max_size)
        return bytes(self.r.choice([0, 255, 1, 128, self.r.randrange(256)]) for _ in range(n))


AVAILABLE_PROVIDERS["hv-extreme"] = "hv.util.ExtremeProvider"


def extremes(strat, rng, style=None, n=1):
    """The values the test gets when every choice is at an end of its range."""
    got = []
    ExtremeProvider.rng, ExtremeProvider.style = rng, style

    @S(max_examples=n, backend="hv-extreme", phases=[Phase.generate])
    @given(strat)
    def t(v):
        got.append(v)
    try:
        out = call(t)
    finally:
        ExtremeProvider.rng = ExtremeProvider.style = None
    if out.exc is not None and not isinstance(out.exc, Unsatisfiable):
        raise out.exc
    return got


def drive(rec, name, strat, observe, **kw):
    """Draw from `strat` in every mode of the engine; see _drive."""
    try:
        with time_limit(5 if rec.quick else 70):
            return _drive(rec, name, strat, observe, **kw)
    except OutOfTime:
        rec.count("drives_cut_short")
        return False


def _drive(rec, name, strat, observe, *, n=100, modes="gsfrtx", keyfn=repr, metric=None,
          fuzz_n=60, replay_n=40, expect_sat=True, call_cap=None):
    """Draw from `strat` in every mode of the engine; observe(v) sees every value given to
    the test in any mode, and returns None or a complaint.

    Returns True if at least one value was seen."""
    rng = rec.rng
    deadline = time.monotonic() + (4 if rec.quick else 60)
    state = dict(mode="?", calls=0, seen=0)
    cap = call_cap or 100 * n + 5000

    def look(v):
        state["calls"] += 1
        rec.count("executions")
        rec.count("executions_" + state["mode"])
        if time.monotonic() > deadline:
            FIRED.append(name)
            raise OutOfTime(name)
        if state["calls"] > cap:
            raise TooManyCalls(name)
        state["seen"] += 1
        msg = observe(v)
        rec.observed()
        if msg is not None:
            rec.violation(f"{name.split('|')[0]}", f"{name}: {msg} [mode {state['mode']}]",
                          value=v)

    def finish(out, allowed=()):
        e = out.exc
        if e is None or isinstance(e, allowed):
            return
        if isinstance(e, OutOfTime) or FIRED:
            rec.count("drives_cut_short")
            return
        if isinstance(e, TooManyCalls):
            rec.violation(f"runaway:{name.split('|')[0]}", f"{name}: more than {cap} executions")
            return
        if isinstance(e, Unsatisfiable):
            if expect_sat:
                rec.violation(f"unsat:{name.split('|')[0]}",
                              f"{name}: reported as unsatisfiable in mode {state['mode']}: {e}")
            return
        report_unexpected(rec, name, e, state["mode"])

    captured_choices = []
    for mode in modes:
        if time.monotonic() > deadline:
            rec.count("drives_cut_short")
            break
        state["mode"] = mode
        sd = rng.getrandbits(32)
        if mode == "g":
            @S(max_examples=n)
            @seed(sd)
            @given(strat)
            def t(v):
                look(v)
            finish(call(t))
        elif mode == "s":
            k = rng.choice([1, 2, 3, 7])
            db = FeedDatabase()

            @S(max_examples=n, database=db, phases=set(Phase) - {Phase.explain})
            @seed(sd)
            @given(strat)
            def t(v):
                look(v)
                if stable_hash(keyfn(v)) % k == 0:
                    raise HvFail
            state["calls"] = 0
            finish(call(t), HvFail)
            for b in db.saved():
                c = choices_from_bytes(b)
                if c is not None:
                    captured_choices.append(c)
        elif mode == "t":
            @S(max_examples=n)
            @seed(sd)
            @given(strat)
            def t(v):
                look(v)
                m = metric(v) if metric else stable_hash(keyfn(v)) % 1000
                if m is not None and math.isfinite(m):
                    hypothesis.target(float(m))
            state["calls"] = 0
            finish(call(t))
        elif mode == "f":
            @S()
            @given(strat)
            def t(v):
                look(v)
            state["calls"] = 0
            fz = t.hypothesis.fuzz_one_input
            for _ in range(fuzz_n):
                finish(call(fz, fuzz_bytes(rng)))
        elif mode == "r":
            entries = []
            for _ in range(replay_n):
                if captured_choices and rng.random() < 0.6:
                    c = mutate_choices(rng, rng.choice(captured_choices))
                else:
                    c = random_choices(rng)
                entries.append(choices_to_bytes(c))

            @S(max_examples=n, database=FeedDatabase(entries), phases=[Phase.reuse])
            @seed(sd)
            @given(strat)
            def t(v):
                look(v)
            state["calls"] = 0
            out = call(t)
            if isinstance(out.exc, (Unsatisfiable, unittest.SkipTest)):
                out.exc = None  # none of the entries needs to be valid here
            finish(out)
        elif mode == "x":
            ExtremeProvider.rng = rng

            @S(max_examples=n, backend="hv-extreme", phases=[Phase.generate])
            @given(strat)
            def t(v):
                look(v)
            state["calls"] = 0
            try:
                out = call(t)
            finally:
                ExtremeProvider.rng = None
            if isinstance(out.exc, Unsatisfiable):
                out.exc = None  # (the extremes of each choice need not combine)
            finish(out)
    return state["seen"] > 0


def report_unexpected(rec, name, e, where=""):
    import traceback

    from hv.worker import innermost_is_hypothesis, internal_error_sig

    leaves = [e]
    if isinstance(e, BaseExceptionGroup):
        leaves = list(e.exceptions)
    for x in leaves:
        tb = "".join(traceback.format_exception(x))
        if isinstance(x, (Flaky, HypothesisException)) or innermost_is_hypothesis(x):
            rec.violation(internal_error_sig(x) if not isinstance(x, Flaky)
                          else f"flaky:{name.split('|')[0]}",
                          f"{name} [{where}]: {tb[-1800:]}")
        else:
            rec.inconclusive.append(f"{name} [{where}]: harness raised: {tb[-1500:]}")


def produces(strat, wanted, *, n=400, seeds=(1,), key=lambda v: v, eq=None):
    """Which of the `wanted` values does generation produce?  Returns the missing ones."""
    missing = list(wanted)
    eq = eq or (lambda a, b: a == b)
    for sd in seeds:
        if not missing:
            break

        @S(max_examples=n, phases=[Phase.generate])
        @seed(sd)
        @given(strat)
        def t(v):
            nonlocal missing
            missing = [w for w in missing if not eq(w, v)]

        out = call(t)
        if out.exc is not None and not isinstance(out.exc, Unsatisfiable):
            raise out.exc
    return missing


def replay_gives(strat, choices):
    """The values the test receives when `choices` are replayed from a database."""
    got = []

    @S(database=FeedDatabase([choices_to_bytes(choices)]), phases=[Phase.reuse])
    @given(strat)
    def t(v):
        got.append(v)

    out = call(t)
    if out.exc is not None and not isinstance(out.exc, (Unsatisfiable, unittest.SkipTest)):
        raise out.exc
    return got


def finite_values(strat, n=2000, sd=0, key=repr):
    """All values generation gives when allowed n examples; (values, executions)."""
    seen = {}
    calls = [0]

    @S(max_examples=n, phases=[Phase.generate])
    @seed(sd)
    @given(strat)
    def t(v):
        calls[0] += 1
        seen.setdefault(key(v), v)

    out = call(t)
    if out.exc is not None and not isinstance(out.exc, Unsatisfiable):
        raise out.exc
    return seen, calls[0]
