"""A backend which walks through every possible sequence of choices, as a reference for what
a test can receive.  It knows nothing of the engine's own bookkeeping."""
import contextlib
import math

from hypothesis import Phase
from hypothesis.internal.conjecture.providers import AVAILABLE_PROVIDERS, PrimitiveProvider

from hv.util import FIRED, S, call, time_limit


class TooBig(BaseException):
    pass


class Done(BaseException):
    pass


class EnumProvider(PrimitiveProvider):
    lifetime = "test_function"
    stack = []
    done = False
    cap = 1000

    @contextlib.contextmanager
    def per_test_case_context_manager(self):
        cls = EnumProvider
        self.pos = 0
        try:
            yield
        finally:
            self.advance(cls)

    def advance(self, cls):
        if self.pos == 0:
            # no choices at all: there is just the one path
            cls.done = True
            return
        while cls.stack and cls.stack[-1][0] + 1 >= cls.stack[-1][1]:
            cls.stack.pop()
        if cls.stack:
            cls.stack[-1][0] += 1
        else:
            cls.done = True

    def pick(self, n):
        if n > self.cap:
            raise TooBig(n)
        s = EnumProvider.stack
        if self.pos == len(s):
            s.append([0, n])
        i, m = s[self.pos]
        assert m == n, "not deterministic"
        self.pos += 1
        return i

    def draw_boolean(self, p=0.5):
        if p <= 2**-64 or p >= 1 - 2**-64:
            self.pick(1)
            return p > 0.5
        return bool(self.pick(2))

    def draw_integer(self, min_value=None, max_value=None, *, weights=None, shrink_towards=0):
        if min_value is None or max_value is None:
            raise TooBig
        return min_value + self.pick(max_value - min_value + 1)

    def draw_float(self, *, min_value=-math.inf, max_value=math.inf, allow_nan=True, smallest_nonzero_magnitude):
        if allow_nan:
            raise TooBig
        vals, v = [], min_value
        while True:
            if v == 0:
                if math.copysign(1, min_value) < 0 or min_value < 0:
                    vals.append(-0.0)
                if max_value > 0 or math.copysign(1, max_value) > 0:
                    vals.append(0.0)
            elif abs(v) >= smallest_nonzero_magnitude:
                vals.append(v)
            if v >= max_value:
                break
            if len(vals) > self.cap:
                raise TooBig
            v = math.nextafter(v, math.inf)
        return vals[self.pick(len(vals))]

    def sized(self, alphabet, lo, hi):
        total, k = 0, lo
        sizes = []
        for k in range(lo, min(hi, lo + 50) + 1):
            sizes.append(len(alphabet) ** k)
            total += sizes[-1]
            if total > self.cap:
                raise TooBig
        if hi > lo + 50:
            raise TooBig
        i = self.pick(total)
        for k, n in zip(range(lo, hi + 1), sizes):
            if i < n:
                out = []
                for _ in range(k):
                    out.append(alphabet[i % len(alphabet)])
                    i //= len(alphabet)
                return out
            i -= n

    def draw_string(self, intervals, *, min_size=0, max_size=10**10):
        if not len(intervals):
            self.pick(1)
            return ""
        if len(intervals) > 300:
            raise TooBig
        return "".join(self.sized([chr(c) for c in intervals], min_size, max_size))

    def draw_bytes(self, min_size=0, max_size=10**10):
        return bytes(self.sized(list(range(256)), min_size, max_size))


AVAILABLE_PROVIDERS["hv-enum"] = "hv.enum.EnumProvider"


def every_path(prog, cap=400, seconds=3):
    """The log of one execution for each sequence of choices, or None if there are too many."""
    EnumProvider.stack, EnumProvider.done = [], False
    log, ends = [], []
    n = [0]
    t = prog.make(log, S(max_examples=cap, backend="hv-enum", phases=[Phase.generate]), None)
    inner = t.hypothesis.inner_test

    def counted(*a, **k):
        if EnumProvider.done:
            raise Done
        n[0] += 1
        inner(*a, **k)
    counted.__name__ = inner.__name__
    t.hypothesis.inner_test = counted
    with time_limit(seconds):
        o = call(t)
    if FIRED or isinstance(o.exc, TooBig) or not EnumProvider.done or not log:
        return None
    # the engine's own first test case may be among them as well
    seen = {}
    for x in log:
        seen.setdefault(repr(x.choices), x)
    return list(seen.values())
