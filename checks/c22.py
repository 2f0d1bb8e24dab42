"""C22: printed examples and programs, when run, give the values and the failure they describe."""
import ast
import attr
import collections
import dataclasses
import datetime
import decimal
import enum
import fractions
import functools
import ipaddress
import math
import operator
import random
import re
import struct
import sys
import types
import typing
import uuid
import warnings

from hypothesis import Phase, example, given, note, seed, strategies as st
from hypothesis.stateful import Bundle, RuleBasedStateMachine, multiple, rule, run_state_machine_as_test
from hypothesis.vendor.pretty import RepresentationPrinter, pretty

from hv.machines import Machine
from hv.util import FIRED, HvFail, HvFail2, OutOfTime, S, call, stable_hash, time_limit

INFO = dict(
    technique="runtime monitoring: everything printed is executed again: pretty-printed values, falsifying examples of generated tests and the "
              "programs of generated state machines are evaluated with the same names in scope, and the values, steps and error which "
              "result are compared with those recorded while the failing execution ran",
    level="exploration",
    rule="One evaluation = one printed value, example or program evaluated and compared. Non-trivial = distinct (kind, types or shape).",
    floors={"values": 5000, "hostile": 600, "examples": 40, "example_args": 80, "programs": 20, "program_steps": 60, "draws": 12},
)
KINDS = ["values0", "values1", "hostile0", "examples0", "examples1", "programs0", "programs1"]


def units(tier, seed):
    reps = 1 if tier == "quick" else 10
    return [dict(name=f"{k}-{i}", kind=k, timeout=800) for i in range(reps) for k in KINDS]


def run(unit, rec):
    globals()["k_" + unit["kind"].rstrip("0123456789")](rec)


# ---------------------------------------------------------------- types

class Col(enum.Enum):
    A = 1
    B = "b"
    Alias = 1


class ICol(enum.IntEnum):
    A = 1
    B = 2_000_000_000_000


class SCol(str, enum.Enum):
    A = "a"
    B = "b\n"


class Fl(enum.Flag):
    A = 1
    B = 2
    AB = 3
    C = 8


class IFl(enum.IntFlag):
    A = 1
    B = 2


class KFl(enum.Flag, boundary=enum.KEEP):
    A = 1
    B = 2


@dataclasses.dataclass
class D1:
    x: object
    y: object = 3


@dataclasses.dataclass
class D2(D1):
    z: object = dataclasses.field(default=0, init=False)
    w: object = dataclasses.field(default=0, kw_only=True)


@dataclasses.dataclass(frozen=True)
class D3:
    a: object
    count: typing.ClassVar[int] = 7
    K: typing.ClassVar = []


@dataclasses.dataclass
class D4:
    a: object
    init: dataclasses.InitVar[int] = 0

    def __post_init__(self, init):
        self.b = init


class D5(D1):
    """Not itself a dataclass."""


@dataclasses.dataclass(eq=False)
class D6:
    if_: object = None

    def __eq__(self, other):
        return type(self) is type(other) and self.if_ == other.if_

    __hash__ = None


@attr.s
class A1:
    x = attr.ib()
    y = attr.ib(default=1)


@attr.s
class A2:
    _x = attr.ib()
    __y = attr.ib(default=2)
    z = attr.ib(default=0, init=False)


@attr.define
class A3:
    a: object
    b: object = attr.field(default=0, alias="other")
    c: object = attr.field(default=0, kw_only=True)


class NT(typing.NamedTuple):
    p: object
    q: int = 0    # is inferred


CNT = collections.namedtuple("CNT", "m n")


class Plain:
    """Has a repr of its own."""

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"Plain({self.v!r})"

    def __eq__(self, o):
        return type(o) is Plain and same(self.v, o.v)

    def __hash__(self):
        return 0


class L(list):
    def __repr__(self):
        return f"L({list(self)!r})"


class L2(list):
    pass


class T2(tuple):
    pass


class Dct(dict):
    def __repr__(self):
        return f"Dct({dict(self)!r})"


class Int(int):
    def __repr__(self):
        return f"Int({int(self)})"


class Outer:
    class Inner(enum.Enum):
        X = object

    @dataclasses.dataclass
    class DI:
        v: object


def func(*a, **k):
    return a, k


def smallrepr(rng):
    """A value whose repr can be evaluated."""
    return rng.choice([0, -7, 10**20, "x'", "\n", b"\x00", None, True, 1.5, [1, "b"], {}, {"a": (1,)}, (2,), frozenset({3}), decimal.Decimal("1.0")])


NS = {k: v for k, v in globals().items() if not k.startswith("__")}
NS.update({k: getattr(math, k) for k in ("inf", "nan")}, datetime=datetime, Decimal=decimal.Decimal, Fraction=fractions.Fraction, UUID=uuid.UUID,
          IPv4Address=ipaddress.IPv4Address, IPv6Address=ipaddress.IPv6Address, IPv6Network=ipaddress.IPv6Network, IPv4Network=ipaddress.IPv4Network, **{k: getattr(collections, k) for k in (
              "OrderedDict", "Counter", "deque", "defaultdict")}, checks=types.SimpleNamespace(c22=sys.modules[__name__]))


def same(a, b, depth=0):
    """Equal, of the same type, with NaN equal to itself and both to any depth."""
    if type(a) is not type(b):
        # printing need not keep a subclass which does not say what it is
        for base in (list, tuple, dict, int):
            if isinstance(a, base) and type(b) is base and type(a).__repr__ is base.__repr__:
                break
        else:
            return isinstance(a, int) and isinstance(a, enum.Enum) and int(a) == b
    if depth > 300:
        return True
    if isinstance(a, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b) or struct.pack("d", a) == struct.pack("d", b) or (
            a != a and b != b and a.hex() == "nan" and struct.pack("d", abs(a)) == struct.pack("d", abs(b)))
    if isinstance(a, complex):
        return same_part(a.real, b.real) and same_part(a.imag, b.imag)
    if isinstance(a, decimal.Decimal):
        return a.as_tuple() == b.as_tuple()
    if isinstance(a, (list, tuple, collections.deque)):
        return len(a) == len(b) and all(same(x, y, depth + 1) for x, y in zip(a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(same(k, j, depth + 1) and same(a[k], b[j], depth + 1) for k, j in zip(a, b)) and (
            not isinstance(a, collections.defaultdict) or a.default_factory == b.default_factory)
    if isinstance(a, (set, frozenset)):
        rest = list(b)
        for x in a:
            for i, y in enumerate(rest):
                if same(x, y, depth + 1):
                    del rest[i]
                    break
            else:
                return False
        return not rest
    if isinstance(a, re.Pattern):
        return a.flags == b.flags and (a.pattern == b.pattern or all(
            [m.span() for m in a.finditer(x)] == [m.span() for m in b.finditer(x)] for x in probes(a)))
    if isinstance(a, BaseException):
        return same(a.args, b.args, depth + 1)
    if isinstance(a, functools.partial):
        return a.func == b.func and same(a.args, b.args) and same(a.keywords, b.keywords)
    if dataclasses.is_dataclass(a) and not isinstance(a, type):
        return all(same(getattr(a, f.name), getattr(b, f.name), depth + 1) for f in dataclasses.fields(a) if f.init)
    if hasattr(type(a), "__attrs_attrs__"):
        return all(same(getattr(a, f.name), getattr(b, f.name), depth + 1) for f in type(a).__attrs_attrs__)
    if isinstance(a, Plain):
        return same(a.v, b.v, depth + 1)
    return a == b


def same_part(x, y):
    return x == y or x != x and y != y  # Python itself loses the signs of zeros in complex literals


def probes(p):
    base = ["", "a", "A", "ab", "\n", "\\n", "\\", "'", '"', "'\"", "a\nb", "\\'", " ", "\x00", "é", "É", "a b", "\\\n", "\\\\", "n", "x", "aa", "_", "\u212a", "k", "K"]
    base += [x + y for x in base for y in base]
    return [x.encode("utf-8") for x in base] if isinstance(p.pattern, bytes) else base


CHARS = ["a", "b", "'", '"', "\\", "\n", "\t", "\x00", "\x1c", "\x85", "\u2028", "é", "\U0001f600", "\ud800", "{", "}", "#", "%", " ", ",", "\r"]
FLOATS = [0.0, -0.0, 1.5, 1e300, 5e-324, math.inf, -math.inf, math.nan, -math.nan, struct.unpack("d", struct.pack("Q", 0x7FF8000000000001))[0],
          struct.unpack("d", struct.pack("Q", 0xFFF0000000000001))[0], 0.1, 1e16, 1e22]
PIECES = ["a", "b", "\\n", "\n", "\\\\", "'", '"', "\\'", "\\d", "[a']", "\\\n", "é", " ", "\\x00", "\x00", "k", "\\\"", "_", "#"]


def scalar(rng):
    k = rng.randrange(24)
    if k < 4:
        return rng.choice([0, 1, -1, 255, 10**9 - 1, 10**9, -10**9, 10**12, 2**64, 10**639, 10**640, -10**640, 2**5000, rng.randrange(10**6), True, False, None, ...])
    if k < 7:
        return rng.choice(FLOATS)
    if k < 10:
        return "".join(rng.choice(CHARS) for _ in range(rng.choice([0, 1, 2, 5, 40])))
    if k == 10:
        return bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 5, 100])))
    if k == 11:
        return complex(rng.choice(FLOATS), rng.choice(FLOATS))
    if k == 12:
        return rng.choice([Col.A, Col.B, ICol.A, ICol.B, SCol.A, SCol.B, Outer.Inner.X])
    if k == 13:
        return rng.choice([Fl(0), Fl.A, Fl.AB, Fl.A | Fl.C, Fl(11), IFl(0), IFl.A | IFl.B, IFl(5), KFl(0), KFl(9), KFl(16)])
    if k == 14:
        return rng.choice([decimal.Decimal("1.50"), decimal.Decimal("-NaN"), decimal.Decimal("sNaN3"), decimal.Decimal("-0"), decimal.Decimal("1E+50"),
                           fractions.Fraction(3, 7), uuid.UUID(int=5), ipaddress.IPv4Address(7), ipaddress.IPv6Network("::/3")])
    if k == 15:
        return rng.choice([datetime.date(2000, 1, 2), datetime.time(1, 2, 3, 4), datetime.datetime(1, 1, 1, fold=1), datetime.timedelta(-1, 5, 7),
                           datetime.timezone.utc, datetime.datetime(2000, 1, 1, tzinfo=datetime.timezone(datetime.timedelta(hours=1), "x"))])
    if k == 16:
        return rng.choice([int, str, D1, Plain, Outer.DI, list, ValueError, type, object])
    if k == 17:
        return rng.choice([range(3), range(1, 9, 2), slice(1), slice(None, 2, -1), bytearray(b"ab")])
    if k == 18:
        return rng.choice([len, func, sorted, print])
    if k == 19:
        b = rng.random() < 0.3
        for _ in range(20):
            p = "".join(rng.choice(PIECES) for _ in range(rng.randint(0, 4)))
            f = 0
            for x in rng.sample([re.I, re.M, re.S, re.X, re.A], rng.choice([0, 0, 1, 2])):
                f |= x
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    return re.compile(p.encode("utf-8") if b else p, f)
            except re.error:
                pass
        return re.compile("")
    if k == 20:
        return Int(rng.choice([5, 10**10, -3]))
    return rng.choice([(), [], {}, set(), frozenset(), "", b"", collections.Counter(), collections.deque(), collections.OrderedDict()])


def hashable(rng, depth):
    for _ in range(20):
        v = value(rng, depth)
        try:
            hash(v)
            return v
        except TypeError:
            pass
    return rng.randrange(100)


def value(rng, depth):
    if depth <= 0 or rng.random() < 0.25:
        return scalar(rng)
    sub = lambda: value(rng, depth - 1)
    n = rng.choice([0, 1, 1, 2, 2, 3, 8])
    k = rng.randrange(24)
    many = lambda: [sub() for _ in range(n)]
    keys = lambda: [hashable(rng, depth - 2) for _ in range(n)]
    if k < 3:
        return many()
    if k < 6:
        return tuple(many())
    if k < 9:
        return {x: sub() for x in keys()}
    if k == 9:
        return set(keys())
    if k == 10:
        return frozenset(keys())
    if k == 11:
        return rng.choice([D1(sub(), sub()), D2(sub(), w=sub()), D3(hashable(rng, depth - 1)), D4(sub()), D5(sub(), sub()), D6(sub())])
    if k == 12:
        return rng.choice([A1(sub(), sub()), A2(sub()), A2(sub(), sub()), A3(sub(), other=sub(), c=sub())])
    if k == 13:
        return rng.choice([NT(smallrepr(rng), smallrepr(rng)), CNT(smallrepr(rng), smallrepr(rng)), T2(many())])
    if k == 14:
        return collections.OrderedDict((x, sub()) for x in keys())
    if k == 15:
        return collections.Counter({x: rng.randrange(-2, 5) for x in keys()})
    if k == 16:
        return collections.deque(many())
    if k == 17:
        d = collections.defaultdict(rng.choice([list, None, int]))
        d.update((x, sub()) for x in keys())
        return d
    if k == 18:
        return Plain(smallrepr(rng))
    if k == 19:
        return rng.choice([ValueError, KeyError, HvFail])(*many())
    if k == 20:
        return functools.partial(rng.choice([func, int, D1]), *many(), **{x: sub() for x in rng.sample(["p", "q", "some_long_name"], rng.randint(0, 2))})
    if k == 21:
        return rng.choice([L(smallrepr(rng) for _ in range(n)), L2(many()), Dct({i: smallrepr(rng) for i in range(n)})])
    if k == 22:
        return Outer.DI(sub())
    return [tuple(many())] * 2


def kinds(v):
    if isinstance(v, (list, tuple, set, frozenset)):
        return (type(v).__name__, tuple(sorted({type(x).__name__ for x in v})))
    return type(v).__name__


def shared_scope(text):
    return eval(compile("(\n" + text + "\n)", "<printed>", "eval"), dict(NS))


def k_values(rec):
    rng = rec.rng
    for _ in rec.loop(6000, 9):
        v = value(rng, rng.choice([0, 0, 1, 2, 3]))
        p = RepresentationPrinter()
        lead = rng.choice([0, 0, 1, 30, 75, 200])
        try:
            if lead:
                with p.group(rng.choice([0, 1, 4]), "(" + " " * lead, ")"):
                    p.pretty(v)
                text = p.getvalue()
            else:
                text = pretty(v)
        except Exception as e:
            rec.violation("raised", f"pretty raised {e!r} for {v!r}")
            continue
        rec.count("values")
        rec.observed((kinds(v), bool(lead)))
        if "HvFail(" in text:
            text = text.replace("hv.util.", "")
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                w = shared_scope(text)
        except Exception as e:
            rec.violation("eval:" + str(kinds(v)), f"{text[:1500]!r}, printed for {v!r:.1500}, raises {e!r:.300}")
            continue
        if not safe_same(v, w):
            rec.violation("differs:" + str(kinds(v)), f"{text[:1500]!r}, printed for {v!r:.1500}, gives {w!r:.1500}")


def safe_same(v, w):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return same(v, w)


# ---------------------------------------------------------------- hostile values

class BadClass:
    @property
    def __class__(self):
        raise RuntimeError("no class")

    def __repr__(self):
        return "BadClass()"


class NoAttrs:
    def __getattribute__(self, name):
        if name in ("__repr__", "__class__", "__dict__"):
            return object.__getattribute__(self, name)
        raise ZeroDivisionError(name)

    def __repr__(self):
        return "NoAttrs()"


class NoHash:
    __hash__ = None

    def __repr__(self):
        return "NoHash()"


class OddEq:
    def __eq__(self, other):
        raise RuntimeError("do not compare")

    def __hash__(self):
        return 1

    def __lt__(self, other):
        raise RuntimeError("do not order")

    def __repr__(self):
        return "OddEq()"


class OddBool:
    def __bool__(self):
        raise RuntimeError("no truth")

    def __len__(self):
        raise RuntimeError("no length")

    def __repr__(self):
        return "OddBool()"


class Lines:
    def __repr__(self):
        return "<Lines\n  of text\r\n\x0c and\x1cmore>"


class EmptyRepr:
    def __repr__(self):
        return ""


class MetaRepr(type):
    def __repr__(cls):
        return "<odd class>"


class WithMeta(metaclass=MetaRepr):
    def __repr__(self):
        return "WithMeta()"


class FakeClass:
    """Says that it is of another class, as mocks with a spec do."""

    def __init__(self, cls):
        self.__cls = cls

    @property
    def __class__(self):
        return self.__cls

    def __repr__(self):
        return "FakeClass()"


class DictLike(collections.UserDict):
    pass


class Lst(list):
    def __repr__(self):
        return f"Lst({len(self)})"


@dataclasses.dataclass
class NoField:
    x: int = dataclasses.field(default=0, init=True)

    def __repr__(self):
        return "NoField()"


def leafs(rng):
    c = rng.randrange(16)
    if c == 0:
        d = NoField()
        del d.__dict__["x"]
        NoField.x = 0  # read from the class, as ever
        return d
    if c == 1:
        return FakeClass(rng.choice([int, str, list, dict, Plain, D1, Col, type, float, ValueError, re.Pattern, set, functools.partial]))
    return [BadClass, NoAttrs, NoHash, OddEq, OddBool, Lines, EmptyRepr, WithMeta, lambda: WithMeta, lambda: super(T2, T2()), object,
            lambda: (i for i in ()), lambda: memoryview(b"a"), lambda: types.MappingProxyType({1: NoHash()})][c - 2]()


def cyclic(rng):
    """A container which (perhaps) contains itself."""
    boxes = []
    for _ in range(rng.randint(1, 4)):
        c = rng.randrange(12)
        boxes.append([list, dict, collections.OrderedDict, collections.deque, lambda: collections.defaultdict(list), lambda: D1(0), lambda: A1(0),
                      lambda: ValueError(1), L2, lambda: functools.partial(func), lambda: types.SimpleNamespace(), collections.Counter][c]())
    for _ in range(rng.randint(1, 6)):
        a, b = rng.choice(boxes), rng.choice([*boxes, leafs(rng), scalar(rng)])
        if isinstance(a, (list, collections.deque)):
            a.append(rng.choice([b, (b,), [b]]))
        elif isinstance(a, dict):
            a[rng.randrange(5)] = rng.choice([b, (b, b)])
        elif isinstance(a, D1):
            a.y = b
        elif isinstance(a, A1):
            a.y = b
        elif isinstance(a, ValueError):
            a.args = a.args + (b,)
        elif isinstance(a, functools.partial):
            a.__setstate__((a.func, a.args + (b,), a.keywords, {}))
        else:
            a.b = b
    return rng.choice(boxes)


def k_hostile(rec):
    rng = rec.rng
    for _ in rec.loop(1500, 9):
        c = rng.random()
        if c < 0.5:
            v, what = cyclic(rng), "cyclic"
        elif c < 0.8:
            v, what = leafs(rng), "odd"
            for _ in range(rng.choice([0, 1, 2])):
                v = rng.choice([lambda: [v, 1], lambda: (v,), lambda: {1: v}, lambda: D1(v), lambda: A2(v), lambda: HvFail(v), lambda: collections.deque([v]),
                                lambda: functools.partial(func, v, k=v), lambda: [[v]]])()
        else:
            d, v, what = rng.choice([10, 60, 90]), 0, "deep"
            for i in range(d):
                v = rng.choice([lambda: [v], lambda: (v, 1), lambda: {i: v}, lambda: D1(v), lambda: A1(v), lambda: [v, i]])()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                repr(v)
            except Exception:
                rec.count("no_repr")
                continue
        rec.count("hostile")
        rec.observed((what, type(v).__name__))
        with time_limit(20), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                text = pretty(v)
            except Exception as e:
                rec.violation("hostile:" + what, f"pretty raised {e!r:.300} for {v!r:.1500}")
                continue
        if len(text) > 10_000_000:
            rec.violation("endless", f"{len(text)} characters were printed for {v!r:.1500}")
        if what == "deep":
            try:
                w = shared_scope(text)
            except (MemoryError, RecursionError, SyntaxError) as e:
                if "too many nested" not in str(e) and not isinstance(e, (MemoryError, RecursionError)):
                    rec.violation("deep", f"{text[:1500]!r} raises {e!r}")
            else:
                if not safe_same(v, w):
                    rec.violation("deep", f"{text[:1500]!r} is not {v!r:.1500}")


# ---------------------------------------------------------------- falsifying examples

@st.composite
def comp(draw):
    return D1(draw(st.integers(0, 9)), draw(st.text(max_size=3)))


def strategies_():
    ints, small = st.integers(), st.integers(0, 9)
    base = [
        ints, small, st.floats(), st.text(), st.binary(max_size=200), st.booleans(), st.none(), st.complex_numbers(), st.decimals(), st.fractions(),
        st.datetimes(), st.dates(), st.timedeltas(), st.uuids(), st.lists(ints), st.tuples(ints, st.text()), st.sets(small), st.frozensets(st.text(max_size=2)),
        st.dictionaries(st.text(max_size=3), ints), st.fixed_dictionaries({"a": ints}, optional={"b": st.text()}), st.sampled_from(Col), st.sampled_from(ICol),
        st.sampled_from(SCol), st.sampled_from(Fl), st.sampled_from([func, len, int, D1]), st.slices(9), st.builds(D1, ints, st.text()),
        st.builds(D1, ints, y=st.lists(small)), st.builds(Plain, ints), st.builds(Plain, st.builds(Plain, v=st.text())), st.builds(A1, ints), st.builds(A2, ints),
        st.builds(A3, small, other=ints, c=st.text()), st.builds(NT, ints), st.builds(Outer.DI, small), st.builds(func, ints, k=small), comp(),
        st.builds(functools.partial, st.just(func), ints), st.builds(Int, ints), st.builds(L, st.lists(small)), st.builds(D3, ints),
        st.builds(Kw, ints, st.text(), key=small), st.builds(Plain.make, ints), st.builds(Plain, ints) | st.text(), st.just(Plain(3)),
        small.map(Plain), st.text().map(repr),
        small.map(lambda x: Opaque(x)),
        st.lists(small.map(lambda x: Opaque([x]))),
        small.flatmap(lambda n: st.lists(st.just(n), min_size=n, max_size=n)),
        st.recursive(small, lambda s: st.lists(s, max_size=3) | st.builds(D1, s, s), max_leaves=6),
        st.builds(Opaque, st.builds(lambda a, b: Opaque((a, b)), small, b=small)),
        st.shared(small, key="k"), st.ip_addresses(), st.builds(collections.Counter, st.lists(small)), st.text("\r\n\\'\"#{}\ud800é", min_size=1, max_size=60),
        st.characters(), st.from_regex(r"[a-z\n]{1,4}"), st.permutations([1, "b", None]), st.builds(re.compile, st.sampled_from(["a", "\\d+\n", "'\""])),
        st.deferred(lambda: st.builds(Opaque, small)), st.iterables(small).map(tuple), st.builds(ValueError, st.text()), st.builds(Opaque),
        st.builds(Opaque, st.lists(st.builds(Plain, st.lists(ints)), max_size=3)), st.times(), st.builds(dict, a=small, b=st.text()),
    ]
    return base


class Opaque:
    """Whose repr says nothing."""

    def __init__(self, v=None):
        self.v = v


class Kw:
    def __init__(self, a, /, b, *, key):
        self.v = (a, b, key)


Plain.make = staticmethod(lambda v: Plain((v,)))
NS.update(Opaque=Opaque, Kw=Kw, comp=comp)
UNPRINTED = re.compile(r"<(checks\.)?[a-zA-Z_.0-9]+ object at 0x|<property|<bound")


def freeze(v):
    """A copy of v which later mutation does not reach, for comparison by `same`."""
    if isinstance(v, (Opaque, Kw)):
        return (type(v).__name__, freeze(v.v))
    if type(v) is Plain:
        return ("Plain", freeze(v.v))
    for base in (list, tuple):
        if isinstance(v, base) and type(v).__repr__ is base.__repr__:
            return base(map(freeze, v))
    if isinstance(v, dict) and type(v).__repr__ is dict.__repr__:
        return {k: freeze(x) for k, x in v.items()}
    if isinstance(v, D1):
        return (type(v).__name__, freeze(v.x), freeze(v.y))
    return v


def key_of(v):
    return stable_hash(re.sub(r" at 0x[0-9a-f]+", "", repr(v)))


class Ex:
    def __init__(self, args):
        self.args, self.draws, self.exc = args, [], None


def make_test(rng, strats, log, salt, rate):
    """A test of one of several shapes; returns (callable, name, settings applier)."""
    def body(kw):
        data = kw.pop("data", None)
        e = Ex({k: freeze(v) for k, v in kw.items()})
        log.append(e)
        if data is not None:
            for i, s in enumerate(more):
                label = [None, "lbl", "a: b"][i % 3]
                e.draws.append((label, freeze(data.draw(s, label))))
            note("a note")
        h = stable_hash((salt, [key_of(v) for v in e.args.values()], [key_of(v) for _, v in e.draws])) % 100
        if h < rate:
            try:
                raise (HvFail if h % 3 else HvFail2)("failure")
            except Exception as exc:
                e.exc = exc
                raise

    more = rng.sample(strats, rng.choice([1, 2, 3]))
    kind = rng.choice(["plain", "plain", "kwonly", "method", "positional", "data", "data", "rest"])
    pick = lambda n: [rng.choice(strats) for _ in range(n)]
    if kind == "plain":
        def t(a, b):
            body(dict(a=a, b=b))
        g = given(**dict(zip("ab", pick(2))))
    elif kind == "kwonly":
        def t(*, a, long_argument_name_for_the_printer, c):
            body(dict(a=a, long_argument_name_for_the_printer=long_argument_name_for_the_printer, c=c))
        g = given(**dict(zip(["a", "long_argument_name_for_the_printer", "c"], pick(3))))
    elif kind == "method":
        def t(self, a, b):
            body(dict(a=a, b=b))
        g = given(*pick(2))
    elif kind == "positional":
        def t(c, a, b):
            body(dict(a=a, b=b, c=c))
        g = given(*pick(2))
    elif kind == "data":
        def t(data, a):
            body(dict(data=data, a=a))
        g = given(data=st.data(), a=pick(1)[0])
    else:
        def t(a, **rest):
            body(dict(a=a, **rest))
        g = given(**dict(zip(["a", "b", "é", "data_"], pick(4))))
    return t, g, kind


class Self:
    def __repr__(self):
        return "SELF"


NS["SELF"] = Self()
FIRST = re.compile(r"\A(?:Falsifying example|Falsifying explicit example|Failing test case|[A-Z][a-z ]+ example): (?=t\()")
DRAW = re.compile(r"\ADraw (\d+)(?: \((.*?)\))?: (.*)\Z", re.S)


def limited(rec, f, *args, **kw):
    """The outcome of the call, unless it takes so long that we lose interest."""
    try:
        with time_limit(6 if rec.quick else 40):
            o = call(f, *args, **kw)
    except OutOfTime:
        o = None
    if o is None or FIRED:
        rec.count("cut_short")
        return None
    return o


def k_examples(rec):
    rng = rec.rng
    strats = strategies_()
    for _ in rec.loop(150, 10):
        log, salt = [], rng.randrange(10**9)
        t, g, kind = make_test(rng, strats, log, salt, rng.choice([3, 10, 40, 100]))
        phases = rng.choice(["generate"] * 12 + ["shrink"] * 3 + ["explain"])
        ph = [Phase.generate] + [Phase.shrink] * (phases != "generate") + [Phase.explain] * (phases == "explain")
        f = g(t)
        if kind == "plain" and rng.random() < 0.3:
            ph.append(Phase.explicit)
            for _ in range(rng.randint(1, 3)):
                f = example(a=value(rng, 2), b=value(rng, 1))(f)
            rec.count("explicit")
        f = S(max_examples=30, phases=ph)(seed(rng.randrange(2**32))(f))
        o = limited(rec, f, *([NS["SELF"]] if kind == "method" else [rng.choice([5, "x", D1([1], 2)])] if kind == "positional" else []))
        if o is None or o.exc is None:
            continue
        for leaf in o.exc.exceptions if isinstance(o.exc, BaseExceptionGroup) else [o.exc]:
            es = [e for e in log if e.exc is leaf]
            if not es:
                rec.violation("example:other", f"{kind}: {leaf!r:.500} was not raised by the test")
                continue
            judge_example(rec, kind, es[-1], leaf.__notes__)


def judge_example(rec, kind, e, notes):
    rec.count("examples")
    first = [n for n in notes if FIRST.match(n)]
    if len(first) != 1:
        rec.violation("example:none", f"{len(first)} examples are printed: {notes}")
        return
    text = FIRST.sub("", first[0])
    rec.observed((kind, tuple(type(v).__name__ for v in e.args.values())))
    got = []

    def t(*args, **kwargs):
        got.append((args, kwargs))

    ns = dict(NS, t=t, data=lambda *a: "DATA")
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            eval(compile(text, "<example>", "eval"), ns)
    except Exception as err:
        rec.violation("example:eval", f"{text} raises {err!r:.300}; arguments {e.args!r:.1000}")
        return
    (args, kw), = got
    want = dict(e.args)
    if kind == "method":
        if kw.pop("self", None) is not NS["SELF"]:
            rec.violation("example:self", text)
    if kind == "data" and kw.pop("data", None) != "DATA":
        rec.violation("example:data", text)
    if args:
        rec.violation("example:positional", f"{text} passes {args} by position")
        return
    for k, v in want.items():
        if k not in kw:
            rec.violation("example:missing", f"{text} does not pass {k}={v!r:.500}")
            continue
        rec.count("example_args")
        if not safe_same(v, freeze(kw[k])):
            rec.violation("example:differs", f"{text} passes {k}={kw[k]!r:.700} but the failing execution had {v!r:.700}")
    if set(kw) - set(want):
        rec.violation("example:extra", f"{text} passes {set(kw) - set(want)}")
    draws = [DRAW.match(n) for n in notes if DRAW.match(n)]
    if len(draws) != len(e.draws) or [int(m[1]) for m in draws] != list(range(1, len(draws) + 1)):
        rec.violation("draws:count", f"{len(e.draws)} draws were made but {notes} lists {len(draws)}")
        return
    for m, (label, v) in zip(draws, e.draws):
        rec.count("draws")
        if m[2] != label:
            rec.violation("draws:label", f"{m[0]} for the draw labelled {label}")
        try:
            w = freeze(shared_scope(m[3]))
        except Exception as err:
            rec.violation("draws:eval", f"{m[0]!r:.1000} raises {err!r:.300}; drawn {v!r:.1000}")
            continue
        if not safe_same(v, w):
            rec.violation("draws:differs", f"{m[0]!r:.1000} but the failing execution drew {v!r:.1000}")


# ---------------------------------------------------------------- programs

def pinned_program(rec):
    """The program of the known finding, so that it is seen by every run."""
    class M(RuleBasedStateMachine):
        a, b = Bundle("a"), Bundle("b")

        @rule(targets=(a, b))
        def both(self):
            return multiple(1, 2)

        @rule(x=a)
        def bad(self, x):
            raise HvFail("failure")

    o = call(run_state_machine_as_test, seed(0)(M), settings=S(max_examples=100, stateful_step_count=5))
    lines = [n for n in getattr(o.exc, "__notes__", []) if n.endswith("state.both()")]
    if not lines:
        rec.violation("program:pinned", f"no program ends in a failure: {o.exc!r} {getattr(o.exc, '__notes__', None)}")
        return
    names = lines[0].split(" = ")[0].split(", ")
    if len(names) != 2:
        rec.violation("program:multi-targets", f"two values are unpacked to {names}")


def k_programs(rec):
    rng = rec.rng
    pinned_program(rec)
    for _ in rec.loop(80, 10):
        m = Machine(rng, fail=rng.choice([0.01, 0.05, 0.2]))
        M = m.make("M")
        ph = [Phase.generate] + [Phase.shrink] * (rng.random() < 0.7)
        o = limited(rec, run_state_machine_as_test, seed(rng.randrange(2**32))(M),
                    settings=S(max_examples=40, stateful_step_count=rng.choice([5, 20]), phases=ph))
        if o is None or o.exc is None:
            continue
        traces = list(m.traces)
        for leaf in o.exc.exceptions if isinstance(o.exc, BaseExceptionGroup) else [o.exc]:
            if isinstance(leaf, (HvFail, HvFail2)) and hasattr(leaf, "__notes__"):
                judge_program(rec, m, M, leaf, traces)


def shape(trace):
    """What an instance did, tokens by the order of their appearance."""
    seen = {}

    def canon(v):
        if type(v).__name__ == "Tok":
            return ("tok", repr(v))
        if type(v).__name__ == "Pair":
            return ("pair", canon(v.a), canon(v.b))
        if isinstance(v, (list, tuple)):
            return [type(v).__name__, *map(canon, v)]
        return v

    out = []
    for s in trace.steps:
        if s[0] == "step":
            e = s[1]
            out.append((e["name"], {k: canon(v) for k, v in e["kw"].items()}, e["out"], [canon(v) for v in e["given"]]))
        elif s[0] in ("inv", "inv-raised", "teardown"):
            out.append((s[0], *s[1:2]))
    return out


def judge_program(rec, m, M, leaf, traces):
    notes = list(leaf.__notes__)
    try:
        at = notes.index("Falsifying example:")
    except ValueError:
        rec.violation("program:none", f"no program is printed: {notes}")
        return
    lines = [n for n in notes[at + 1:] if n.startswith("state") or " = state." in n]
    program = "\n".join(lines)
    rec.count("programs")
    from hv.machines import Pair
    ns = dict(M=M, Pair=Pair)
    err = None
    try:
        tree = ast.parse(program)
    except SyntaxError as e:
        rec.violation("program:syntax", f"{e}:\n{program}")
        return
    short = []

    def spread(value, n, line):
        """With several targets, each of several values is named once for each target, although only the values are
        there to be unpacked."""
        values = list(value)
        if len(values) != n and values and n % len(values) == 0:
            short.append(line)
            return [v for v in values for _ in range(n // len(values))]
        return values

    for stmt in tree.body:
        if isinstance(stmt, ast.Assign) and len(stmt.targets) == 1 and isinstance(stmt.targets[0], ast.Tuple):
            stmt.value = ast.Call(ast.Name("spread", ast.Load()),
                                  [stmt.value, ast.Constant(len(stmt.targets[0].elts)), ast.Constant(ast.unparse(stmt))], [])
    ns["spread"] = spread
    try:
        exec(compile(ast.fix_missing_locations(tree), "<program>", "exec"), ns)
    except Exception as e:
        err = e
        if not isinstance(e, (HvFail, HvFail2)):
            rec.violation("program:error", f"the program raises {e!r}, not {leaf!r}:\n{program}")
            return
    finally:
        for line in short[:1]:
            rec.violation("program:multi-targets", f"there are not as many values to unpack as names: {line}\n{program}")
    mine = m.traces.pop()
    mine.steps.append(("teardown",)) if not mine.steps or mine.steps[-1] != ("teardown",) else None
    rec.count("program_steps", sum(s[0] == "step" for s in mine.steps))
    rec.observed((m.desc[:60], len(lines)))
    if type(err) is not type(leaf) or err.args != leaf.args:
        rec.violation("program:outcome", f"the program gives {err!r}, not {leaf!r}:\n{program}")
        return
    want = shape(mine)
    if not any(shape(t) == want for t in traces[::-1]):
        near = max(traces, key=lambda t: sum(a == b for a, b in zip(shape(t), want)))
        rec.violation("program:steps", f"no execution did what the program does.\nprogram:\n{program}\ndoes {want}\nnearest {shape(near)}")
