"""C05: type-driven generation."""
import abc
import collections
import collections.abc as cabc
import dataclasses
import datetime as dt
import decimal
import enum
import fractions
import ipaddress
import json
import os
import random
import re
import types
import typing as T
import uuid

import annotated_types as at
import attr
import typing_extensions as te

from hypothesis import given, seed, strategies as st
from hypothesis.errors import InvalidArgument, ResolutionFailed

from hv.util import S, call, drive, finite_values, report_unexpected

INFO = dict(
    technique="runtime monitoring: recursive instance oracle over values of random annotations",
    level="exploration",
    rule="One evaluation = one value generated for a randomly built type annotation or class, "
         "judged recursively by an independent instance checker; registrations and lookup orders "
         "are judged by which strategy's values arrive. Non-trivial = distinct annotation or "
         "registration scenario.",
    floors={"annotations": 40, "executions": 2000, "registrations": 8, "inference": 10, "orders": 5},
)
KINDS = ["ann0", "ann1", "ann2", "ann3", "classes", "register", "infer", "order", "annotated"]


def units(tier, seed):
    reps = 1 if tier == "quick" else 10
    return [dict(name=f"{k}-{i}", kind=k, timeout=800) for i in range(reps) for k in KINDS]


class Col(enum.Enum):
    R = 1
    G = "g"


class Fl(enum.Flag):
    A = 1
    B = 2


class IE(enum.IntEnum):
    X = 5
    Y = 6


class Plain:
    def __init__(self, a: int, b: str = "d"):
        self.a, self.b = a, b


@dataclasses.dataclass
class DC:
    a: int
    b: T.List[str]
    c: T.Optional[bool] = None
    d: T.List[int] = dataclasses.field(default_factory=list)
    e: int = dataclasses.field(init=False, default=3)


@dataclasses.dataclass(frozen=True)
class Frozen:
    x: T.Tuple[int, str]
    y: "T.Union[Col, bytes]" = b""


@dataclasses.dataclass(kw_only=True, slots=True)
class KW:
    p: float
    q: T.Dict[str, int]


@dataclasses.dataclass
class Tree:
    value: int
    left: T.Optional["Tree"]
    right: T.Optional["Tree"] = None


@dataclasses.dataclass
class Forest:
    trees: T.List["Tree"]
    parent: "T.Optional[Forest]" = None


class NT(T.NamedTuple):
    i: int
    s: str
    o: T.Optional[bytes] = None


class TD(T.TypedDict):
    a: int
    b: T.List[str]


class TDpart(T.TypedDict, total=False):
    a: int
    r: te.Required[str]


class TDsub(TD):
    extra: te.NotRequired[bool]


@attr.s
class At:
    x = attr.ib(type=int)
    y = attr.ib(validator=attr.validators.instance_of(str))
    z = attr.ib(default=None, type=T.Optional[bool])


@attr.define
class At2:
    x: T.List[int]
    y: str = "q"
    _p: int = 0


class Abs(abc.ABC):
    @abc.abstractmethod
    def f(self): ...


class Impl1(Abs):
    def __init__(self, n: int):
        self.n = n

    def f(self): ...


class Impl2(Abs):
    def __init__(self, s: str):
        self.s = s

    def f(self): ...


class Pos:
    def __init__(self, a: int, /, b: str, *, c: bool):
        self.t = (a, b, c)


class New:
    def __new__(cls, n: int):
        o = super().__new__(cls)
        o.n = n
        return o


E1 = T.TypeVar("E1")
E2 = T.TypeVar("E2")


class Box(T.Generic[E1]):
    def __init__(self, item: E1):
        self.item = item


Id = T.NewType("Id", int)
Id2 = T.NewType("Id2", Id)
BI = T.TypeVar("BI", bound=int)
CS = T.TypeVar("CS", str, bytes)
BU = T.TypeVar("BU", bound=T.Union[int, str])
exec("type Alias = list[int] | None")
Alias = globals()["Alias"]


def inst(t):
    return lambda v: isinstance(v, t)


def tree_ok(v):
    return v is None or (type(v) is Tree and type(v.value) is int and tree_ok(v.left) and tree_ok(v.right))


def forest_ok(v):
    return type(v) is Forest and all(x is not None and tree_ok(x) for x in v.trees) and (
        v.parent is None or forest_ok(v.parent))


LEAVES = [
    (int, inst(int)), (bool, inst(bool)), (str, inst(str)), (bytes, inst(bytes)), (float, inst(float)),
    (complex, inst(complex)), (type(None), lambda v: v is None),
    (decimal.Decimal, inst(decimal.Decimal)), (fractions.Fraction, inst(fractions.Fraction)),
    (dt.date, inst(dt.date)), (dt.datetime, inst(dt.datetime)), (dt.time, inst(dt.time)),
    (dt.timedelta, inst(dt.timedelta)), (dt.timezone, inst(dt.timezone)), (dt.tzinfo, inst(dt.tzinfo)),
    (uuid.UUID, inst(uuid.UUID)), (range, inst(range)), (slice, inst(slice)),
    (Col, inst(Col)), (Fl, inst(Fl)), (IE, inst(IE)), (bytearray, inst(bytearray)),
    (memoryview, inst(memoryview)), (ipaddress.IPv4Address, inst(ipaddress.IPv4Address)),
    (ipaddress.IPv6Network, inst(ipaddress.IPv6Network)), (ipaddress.IPv4Interface, inst(ipaddress.IPv4Interface)),
    (os.PathLike, inst(os.PathLike)), (random.Random, inst(random.Random)),
    (types.FunctionType, inst(types.FunctionType)), (type(...), lambda v: v is ...),
    (Exception, inst(Exception)), (ValueError, inst(ValueError)), (KeyError, inst(KeyError)),
    (UnicodeDecodeError, inst(UnicodeDecodeError)), (ExceptionGroup, inst(ExceptionGroup)),
    (T.Pattern[str], lambda v: isinstance(v, re.Pattern) and isinstance(v.pattern, str)),
    (T.Match[bytes], lambda v: isinstance(v, re.Match) and isinstance(v.string, bytes)),
    (re.Match[str], lambda v: isinstance(v, re.Match) and isinstance(v.string, str)),
    (T.Hashable, inst(cabc.Hashable)), (T.Sized, lambda v: hasattr(v, "__len__")),
    (T.SupportsInt, lambda v: hasattr(v, "__int__") or type(v) in (str, bytes) and int(v) <= 10**9999), (T.SupportsFloat, lambda v: hasattr(v, "__float__") or type(v) in (str, bytes) and float(v) is not None),
    (T.SupportsAbs, lambda v: hasattr(v, "__abs__")), (T.SupportsIndex, lambda v: hasattr(v, "__index__")),
    (T.SupportsRound, lambda v: hasattr(v, "__round__")), (T.SupportsBytes, lambda v: safe(lambda x: bytes(x) is not None, v) or type(v) is int),
    (__import__("numbers").Real, inst(__import__("numbers").Real)),
    (__import__("numbers").Integral, inst(int)), (__import__("numbers").Number, inst(__import__("numbers").Number)),
    (T.Literal[1, "a", None], lambda v: v is None or (v, type(v)) in [(1, int), ("a", str)]),
    (T.Literal[True, T.Literal[b"x", Col.G]], lambda v: v is True or v == b"x" or v is Col.G),
    (Id, inst(int)), (Id2, inst(int)), (BI, inst(int)), (CS, inst((str, bytes))), (BU, inst((int, str))),
    (te.LiteralString, inst(str)), (T.AnyStr, inst((str, bytes))),
    (list[None], lambda v: type(v) is list and all(x is None for x in v)),
    (tuple[None, int], lambda v: v[0] is None and type(v[1]) is int),
    (Alias, lambda v: v is None or type(v) is list and all(type(x) is int for x in v)),
]
CLASSES = [
    (Plain, lambda v: type(v) is Plain and type(v.a) is int and type(v.b) is str),
    (DC, lambda v: type(v) is DC and type(v.a) is int and type(v.b) is list and all(type(x) is str for x in v.b)
     and (v.c is None or type(v.c) is bool) and all(type(x) is int for x in v.d) and v.e == 3),
    (Frozen, lambda v: type(v) is Frozen and [type(x) for x in v.x] == [int, str] and type(v.y) in (Col, bytes)),
    (KW, lambda v: type(v) is KW and type(v.p) is float and type(v.q) is dict
     and all(type(k) is str and type(x) is int for k, x in v.q.items())),
    (Tree, lambda v: v is not None and tree_ok(v)), (Forest, forest_ok),
    (NT, lambda v: type(v) is NT and type(v.i) is int and type(v.s) is str and (v.o is None or type(v.o) is bytes)),
    (TD, lambda v: type(v) is dict and set(v) == {"a", "b"} and type(v["a"]) is int
     and type(v["b"]) is list and all(type(x) is str for x in v["b"])),
    (TDpart, lambda v: type(v) is dict and "r" in v and set(v) <= {"a", "r"} and type(v["r"]) is str
     and type(v.get("a", 0)) is int),
    (TDsub, lambda v: type(v) is dict and {"a", "b"} <= set(v) <= {"a", "b", "extra"}
     and type(v.get("extra", True)) is bool and type(v["a"]) is int),
    (At, lambda v: type(v) is At and type(v.x) is int and type(v.y) is str and (v.z is None or type(v.z) is bool)),
    (At2, lambda v: type(v) is At2 and all(type(x) is int for x in v.x) and type(v.y) is str and type(v._p) is int),
    (Abs, lambda v: type(v) is Impl1 and type(v.n) is int or type(v) is Impl2 and type(v.s) is str),
    (Pos, lambda v: type(v) is Pos and [type(x) for x in v.t] == [int, str, bool]),
    (Box, lambda v: type(v) is Box),
]
HASHABLE = [(t, c) for t, c in LEAVES if t in (int, bool, str, bytes, float, complex, decimal.Decimal, Col, Id,
                                               fractions.Fraction, dt.date, uuid.UUID, T.Literal[1, "a", None])]


def ann(rng, depth):
    """A random annotation, and its recursive instance checker."""
    if depth == 0 or rng.random() < 0.08:
        return rng.choice(LEAVES if rng.random() < 0.75 else CLASSES)
    k = rng.randrange(27)

    def sub():
        return ann(rng, depth - 1)

    def hsub():
        if depth > 1 and rng.random() < 0.2:
            a, c = rng.choice(HASHABLE)
            return rng.choice([T.Tuple, tuple])[a, ...], lambda v: type(v) is tuple and all(map(c, v))
        return rng.choice(HASHABLE)

    def coll(kinds, elems, typ):
        a, c = elems()
        return rng.choice(kinds)[a], lambda v: isinstance(v, typ) and all(map(c, v))
    if k in (0, 1):
        return coll([T.List, list], sub, list)
    if k == 2:
        return coll([T.Sequence, cabc.Sequence, T.Collection, T.Reversible, cabc.Collection],
                    sub, (cabc.Collection, cabc.Reversible))
    if k == 3:
        a, c = hsub()
        kind, typ = rng.choice([(T.Set, set), (set, set), (T.FrozenSet, frozenset), (frozenset, frozenset),
                                (T.AbstractSet, cabc.Set), (T.MutableSet, cabc.MutableSet),
                                (cabc.Set, cabc.Set)])
        return kind[a], lambda v: isinstance(v, typ) and all(map(c, v))
    if k in (4, 5):
        (a, c), (b, d) = hsub(), sub()
        kind, typ = rng.choice([(T.Dict, dict), (dict, dict), (T.Mapping, cabc.Mapping),
                                (cabc.Mapping, cabc.Mapping), (T.MutableMapping, cabc.MutableMapping),
                                (T.DefaultDict, collections.defaultdict),
                                (collections.defaultdict, collections.defaultdict),
                                (T.OrderedDict, collections.OrderedDict),
                                (collections.OrderedDict, collections.OrderedDict),
                                (T.ChainMap, collections.ChainMap)])
        return kind[a, b], lambda v: isinstance(v, typ) and all(c(x) and d(v[x]) for x in v if x == x)
    if k in (6, 7):
        parts = [sub() for _ in range(rng.randint(1, 3))]
        kind = rng.choice([T.Tuple, tuple])
        return kind[tuple(p[0] for p in parts)], lambda v: type(v) is tuple and len(v) == len(parts) and all(
            c(x) for (_, c), x in zip(parts, v))
    if k == 8:
        a, c = sub()
        return rng.choice([T.Tuple, tuple])[a, ...], lambda v: type(v) is tuple and all(map(c, v))
    if k in (9, 10, 11):
        parts = [sub() for _ in range(rng.randint(2, 3))]
        u = T.Union[tuple(p[0] for p in parts)]
        if rng.random() < 0.3:
            try:
                u = parts[0][0] | parts[1][0]
                parts = parts[:2]
            except TypeError:
                u = T.Union[tuple(p[0] for p in parts)]
        return u, lambda v: any(safe(c, v) for _, c in parts)
    if k == 12:
        a, c = sub()
        return T.Optional[a], lambda v: v is None or c(v)
    if k in (13, 14):
        r, c = sub()
        args = [p[0] for p in (sub() for _ in range(rng.randint(0, 2)))]
        if any(getattr(x, "__metadata__", None) for x in args):
            args = []
        kind = rng.choice([T.Callable, cabc.Callable])
        if rng.random() < 0.3:
            return kind[..., r], lambda v: callable(v) and c(v(1, q=2))
        return kind[args, r], lambda v: callable(v) and c(v(*args))
    if k == 15:
        a, c = sub()
        kind = rng.choice([T.Iterable, T.Iterator, cabc.Iterable, cabc.Iterator])
        return kind[a], lambda v: isinstance(v, cabc.Iterable) and (
            kind not in (T.Iterator, cabc.Iterator) or isinstance(v, cabc.Iterator)) and all(map(c, v))
    if k == 16:
        (a, c), (b, d) = sub(), sub()

        def gen_ok(v):
            if not isinstance(v, types.GeneratorType):
                return False
            while True:
                try:
                    if not c(next(v)):
                        return False
                except StopIteration as e:
                    return d(e.value)
        return T.Generator[a, None, b], gen_ok
    if k == 17:
        choices = rng.sample([int, str, Plain, Abs, DC, bool], rng.randint(1, 2))
        return T.Type[T.Union[tuple(choices)]], lambda v: isinstance(v, type) and issubclass(v, tuple(choices))
    if k == 18:
        return coll([T.Deque, collections.deque], sub, collections.deque)
    if k == 19:
        a, c = rng.choice(HASHABLE)
        return rng.choice([T.Counter, collections.Counter])[a], lambda v: isinstance(v, collections.Counter) and all(
            c(x) and type(n) is int for x, n in v.items())
    if k == 20:
        (a, c), (b, d) = hsub(), sub()
        return rng.choice([
            (T.ItemsView[a, b], lambda v: isinstance(v, cabc.ItemsView) and all(c(x) and d(y) for x, y in v)),
            (T.KeysView[a], lambda v: isinstance(v, cabc.KeysView) and all(map(c, v))),
            (T.ValuesView[b], lambda v: isinstance(v, cabc.ValuesView) and all(map(d, v)))])
    if k == 21:
        a, c = sub()
        return T.Annotated[a, "note", 5], c
    if k == 22:
        return rng.choice(CLASSES)
    if k == 23:
        a, c = sub()
        return T.Final[a] if False else T.NewType("NewN", T.List[a]), lambda v: type(v) is list and all(map(c, v))
    if k == 24:
        (a, c), (b, d) = sub(), sub()
        cls = T.TypedDict("TDx", {"p": a, "q": te.NotRequired[b]})
        return cls, lambda v: type(v) is dict and {"p"} <= set(v) <= {"p", "q"} and c(v["p"]) and (
            "q" not in v or d(v["q"]))
    if k == 25:
        (a, c), (b, d) = sub(), sub()
        cls = dataclasses.make_dataclass("DCx", [("p", a), ("q", b, dataclasses.field(default=17))])
        return cls, lambda v: type(v) is cls and c(v.p) and (type(v.q) is int and v.q == 17 or d(v.q))
    (a, c), (b, d) = sub(), sub()
    cls = T.NamedTuple("NTx", [("p", a), ("q", b)])
    return cls, lambda v: type(v) is cls and c(v.p) and d(v.q)


def safe(c, v):
    try:
        return c(v)
    except (TypeError, AttributeError, ValueError):
        return False


def watch(check, name):
    def obs(v):
        try:
            ok = check(v)
        except (TypeError, AttributeError, ValueError, KeyError) as e:
            return f"{v!r}: {e!r}"
        if not ok:
            return f"{v!r} is no instance of it"
    return obs


def run_ann(rec):
    rng = rec.rng
    k = int(rec.unit["kind"][-1])
    pool = [x for i, x in enumerate(LEAVES + CLASSES) if i % 4 == k]
    for i in rec.loop(70 if rec.quick else 600):
        if i < len(pool) and (not rec.quick or rng.random() < 0.9):
            a, c = pool[i]
        else:
            a, c = ann(rng, rng.choice([1, 1, 2, 2, 3]))
        name = f"from_type|{a!r}"[:300]
        try:
            s = st.from_type(a)
            s.validate()
        except ResolutionFailed as e:
            rec.violation("unresolved", f"{name}: {e}")
            continue
        rec.count("annotations")
        rec.observed(repr(a))
        drive(rec, name, s, watch(c, name), n=20, fuzz_n=8, replay_n=8, modes="gsfrx",
              keyfn=lambda v: type(v).__name__)
        rec.sample(annotation=a)


def run_classes(rec):
    rng = rec.rng
    for i, (a, c) in enumerate(CLASSES):
        if time_up(rec):
            break
        rec.count("annotations")
        rec.observed(repr(a))
        drive(rec, f"from_type|{a!r}", st.from_type(a), watch(c, a), n=40, modes="gsfrx", fuzz_n=15,
              replay_n=15, keyfn=lambda v: type(v).__name__)
        if isinstance(a, type) and not issubclass(a, Abs) or a is Impl1:
            # builds() supplies what is required, and nothing else
            if a not in (Pos, TD, TDpart, TDsub):
                drive(rec, f"builds|{a!r}", st.builds(a), watch(c, a), n=20, modes="gf", fuzz_n=8)
    seen = [v.b for v in finite_values(st.builds(Plain), n=30)[0].values()]
    rec.check(set(seen) == {"d"}, "builds-default", f"builds(Plain) filled a default: {set(seen)}")
    seen = [v.b for v in finite_values(st.builds(Plain, b=...), n=60)[0].values()]
    rec.check(len(set(seen)) > 3 and all(type(x) is str for x in seen), "builds-infer", f"{set(seen)}")
    seen = [v for v in finite_values(st.builds(Plain, st.just(4), st.just("z")), n=30)[0].values()]
    rec.check(all((v.a, v.b) == (4, "z") for v in seen) and seen, "builds-given", f"{seen}")
    seen = [v for v in finite_values(st.from_type(Plain), n=200)[0].values()]
    rec.check({"d"} < {v.b for v in seen}, "from_type-optional", "optional argument never varied")
    # both branches of a union, every literal, every subclass, every enum member are generated
    for a, want, key in [
        (T.Union[int, str, None], {int, str, type(None)}, type), (Abs, {Impl1, Impl2}, type),
        (T.Literal[1, "a", None, b"q"], {1, "a", None, b"q"}, lambda v: v), (Col, set(Col), lambda v: v),
        (T.Optional[bool], {None, True, False}, lambda v: v), (T.Type[T.Union[int, str]], {int, str}, lambda v: v),
        (CS, {str, bytes}, type), (BU, {int, str}, type), (T.Tuple[bool, bool],
                                                           {(x, y) for x in (0, 1) for y in (0, 1)}, lambda v: v),
        (TDpart, {frozenset("r"), frozenset("ar")}, frozenset), (IE, set(IE), lambda v: v),
    ]:
        got = set(finite_values(st.from_type(a), n=150, sd=rng.getrandbits(20), key=key)[0])
        rec.observed(("all", repr(a)))
        rec.check(got == want, "not-all-alternatives", f"{a}: {got} instead of {want}")
    # type variables are consistent within one test case, and distinct ones independent
    V1, V2 = T.TypeVar("V", bound=int), T.TypeVar("V", bound=str)
    bad = [v for v in finite_values(st.tuples(st.from_type(T.List[V1]), st.from_type(T.List[V2])), n=60)[0].values()
           if any(type(x) is not int for x in v[0]) or any(type(x) is not str for x in v[1])]
    rec.check(not bad, "typevars-conflated", f"{bad[:2]}")
    bad = [v for v in finite_values(st.from_type(T.Tuple[E1, T.List[E1], T.Dict[str, E1]]), n=100)[0].values()
           if len({type(x) for x in [v[0], *v[1], *v[2].values()]}) > 1]
    rec.check(not bad, "typevar-inconsistent", f"{bad[:2]}")
    both = {(type(a), type(b)) for a, b in finite_values(st.from_type(T.Tuple[E1, E2]), n=300)[0].values()}
    rec.check(any(a is not b for a, b in both), "typevars-tied", f"{both}")


def time_up(rec):
    import time
    return time.monotonic() - rec.t0 > (14 if rec.quick else 300)


class Base:
    pass


class Mid(Base):
    def __init__(self, need):
        self.need = need


class Leaf(Mid):
    def __init__(self, tag="unregistered"):
        self.tag = tag


def values(a, n=25, seed=0):
    return list(finite_values(st.from_type(a), n=n, sd=seed)[0].values())


def run_register(rec):
    rng = rec.rng

    def expect(cond, sig, msg):
        rec.count("registrations")
        rec.check(cond, sig, msg)
    for i in rec.loop(12 if rec.quick else 80):
        tag = f"t{rng.getrandbits(40)}"
        K = type("K" + tag, (), {"__init__": lambda self, n=0: setattr(self, "n", n),
                                 "__repr__": lambda self: f"K({self.n!r})"})

        def holder(x: K, y: T.List[K], z: T.Optional[K] = None):
            return (x, y, z)

        @dataclasses.dataclass
        class H:
            k: K
            ks: T.Dict[str, K]
        pre = rng.randrange(3)
        if pre:  # look it up before registration, in some forms
            for a in rng.sample([K, T.List[K], H, T.Optional[K], T.Tuple[K, int]], pre):
                values(a, n=3)
        for m in range(rng.randint(1, 3)):
            mark = f"{tag}-{m}"
            how = rng.randrange(3)
            if how == 0:
                st.register_type_strategy(K, st.builds(K, st.just(mark)))
            elif how == 1:
                st.register_type_strategy(K, lambda t, mark=mark: st.builds(t, st.just(mark)))
            else:
                st.register_type_strategy(K, st.just(K(mark)))
            rec.observed((mark, how))
            forms = [K, T.List[K], T.Optional[K], T.Tuple[K, ...], T.Dict[int, K], H, T.Union[K, int],
                     T.Sequence[K], T.Callable[[], K], T.NewType("NK", K), T.Annotated[K, 1]]
            for a in rng.sample(forms, 5):
                def ks(v, out):
                    if isinstance(v, K):
                        out.append(v)
                    elif isinstance(v, dict):
                        [ks(x, out) for x in v.values()]
                    elif isinstance(v, (list, tuple)):
                        [ks(x, out) for x in v]
                    elif isinstance(v, H):
                        ks(v.k, out), ks(v.ks, out)
                    elif isinstance(v, Box):
                        ks(v.item, out)
                    elif callable(v):
                        pass
                    return out
                if a == T.Callable[[], K]:
                    got = []

                    @S(max_examples=5)
                    @given(st.from_type(a))
                    def t(f):
                        got.append(f())
                    t()
                else:
                    got = ks(values(a, 20), [])
                expect(got and all(v.n == mark for v in got), "registration-unused",
                       f"{a}: {[v.n for v in got][:3]} instead of {mark}")
            got = []

            @S(max_examples=10)
            @given(st.builds(holder))
            def t(v):
                got.extend([v[0], *v[1]])
            t()
            expect(got and all(v.n == mark for v in got), "registration-unused-builds", f"{got[:3]}")
            # an abstract or argument-taking parent is resolved by a registered subclass
        P = abc.ABCMeta("P" + tag, (), {"f": abc.abstractmethod(lambda self: 0)})
        C1 = type("C1" + tag, (P,), {"f": lambda self: 1, "__init__": lambda self, n="plain": setattr(self, "n", n)})
        if rng.random() < 0.5:
            values(P, 3)
            values(C1, 3)
        st.register_type_strategy(C1, st.builds(C1, st.just("reg")))
        got = values(P, 20)
        expect(got and all(type(v) is C1 and v.n == "reg" for v in got), "subclass-registration",
               f"{[getattr(v, 'n', v) for v in got][:3]}")
        # NotImplemented falls through to the ordinary resolution
        Q = type("Q" + tag, (), {"__init__": lambda self: None})
        st.register_type_strategy(Q, lambda t: NotImplemented)
        got = values(Q, 5)
        expect(got and all(type(v) is Q for v in got), "notimplemented", f"{got}")
        # conditional on the parameters of a generic
        G = types.new_class("G" + tag, (T.Generic[E1],), {},
                            lambda ns: ns.update({"__init__": lambda self, a=None: setattr(self, "a", a)}))
        st.register_type_strategy(G, lambda t: st.builds(G, st.just(T.get_args(t))))
        got = values(G[int], 5) + values(T.List[G[int]], 20)
        flat = [x for v in got for x in (v if isinstance(v, list) else [v])]
        expect(flat and all(v.a == (int,) for v in flat), "generic-args", f"{[v.a for v in flat][:3]}")
        got = values(G[str], 5)
        expect(got and all(v.a == (str,) for v in got), "generic-args", f"{[v.a for v in got][:3]}")
        # a registered NewType is told apart from its supertype
        N = T.NewType("N" + tag, int)
        before = {type(v) for v in values(N, 10)}
        st.register_type_strategy(N, st.just(-12345))
        expect(before == {int} and set(values(N, 10)) == {-12345} and len(set(values(int, 10))) > 1,
               "newtype-registration", f"{values(N, 3)}")
        got = [x for v in values(T.List[N], 20) for x in v]
        expect(got and set(got) == {-12345}, "newtype-registration", f"{got[:3]}")
    # bad registrations are refused
    for bad in [lambda: st.register_type_strategy(5, st.just(1)), lambda: st.register_type_strategy(Base, 5),
                lambda: st.register_type_strategy(Base, st.nothing()),
                lambda: st.register_type_strategy(T.List[int], st.just([]))]:
        out = call(bad)
        expect(isinstance(out.exc, InvalidArgument), "bad-registration", f"{out.exc!r}")
    for a in [Mid, T.List[Mid], T.Dict[str, Mid]]:
        out = call(lambda a=a: values(a, 3))
        expect(isinstance(out.exc, (ResolutionFailed, InvalidArgument)), "unresolvable", f"{a}: {out.exc!r}")


class Cls:
    def __init__(self, x: int, *, y: T.List[str]):
        self.x, self.y = x, y

    @classmethod
    def make(cls, x: int, z: bool) -> "Cls":
        return cls(x, y=[str(z)])

    def meth(self, q: int) -> int:
        return q


def run_infer(rec):
    rng = rec.rng
    for _ in rec.loop(30 if rec.quick else 250):
        n = rng.randint(1, 4)
        anns = [ann(rng, rng.choice([0, 1, 1])) for _ in range(n)]
        names = ["a", "b", "c", "d"][:n]
        explicit = {nm: rng.random() < 0.3 for nm in names}
        got = []
        kwonly = rng.random() < 0.3
        ns = {}
        exec(f"def t({'*, ' if kwonly else ''}{', '.join(names)}): got.append(({', '.join(names)},))",
             {"got": got}, ns)
        t = ns["t"]
        t.__annotations__ = {nm: a for nm, (a, _) in zip(names, anns) if not explicit[nm]}
        marker = object()
        kw = {nm: st.just(marker) if explicit[nm] else ... for nm in names}
        use_all = not any(explicit.values()) and rng.random() < 0.5
        rec.count("inference")
        rec.observed(repr(anns))
        try:
            f = given(...)(t) if use_all else given(**kw)(t)
            out = call(S(max_examples=10)(seed(rng.getrandbits(30))(f)))
        except Exception as e:
            report_unexpected(rec, f"infer {anns}", e)
            continue
        if out.exc is not None:
            report_unexpected(rec, f"infer {anns}", out.exc)
            continue
        if use_all is False and not got:
            rec.violation("infer-nothing", f"{anns}")
        for vals in got:
            rec.count("executions")
            rec.observed()
            for nm, v, (a, c) in zip(names, vals, anns):
                if explicit[nm]:
                    rec.check(v is marker, "infer-explicit", f"{nm}: {v!r} is not what was given")
                elif isinstance(v, (cabc.Iterator,)) or callable(v) and not isinstance(v, type):
                    pass  # only usable while the test runs
                else:
                    rec.check(safe(c, v), "infer-type", f"{nm}: {a} got {v!r}")

    for tgt, ok in [(Cls, lambda v: type(v.x) is int and all(type(s) is str for s in v.y)),
                    (Cls.make, lambda v: type(v.x) is int and v.y[0] in ("True", "False")),
                    (Cls(1, y=[]).meth, lambda v: type(v) is int)]:
        vs = list(finite_values(st.builds(tgt), n=20, key=id)[0].values())
        rec.check(vs and all(map(ok, vs)), "builds-infer", f"{tgt}")

    @st.composite
    def strat(draw, n: int):
        return n
    out = call(lambda: finite_values(st.builds(lambda a, b: 0), n=3))
    rec.check(isinstance(out.exc, (TypeError, InvalidArgument)), "missing-args", f"{out.exc!r}")


def sample_values(annots, seed_):
    out = []
    for a in annots:
        vs = []

        @S(max_examples=8)
        @seed(seed_)
        @given(st.from_type(a))
        def t(v):
            try:
                # (sets of objects hashed by identity have no fixed order)
                vs.append("".join(sorted(re.sub(r"0x[0-9a-f]+", "0x", repr(v)))))
            except Exception as e:
                vs.append(type(e).__name__)
        o = call(t)
        out.append([repr(type(o.exc)), vs])
    return out


def run_order(rec):
    """What a type resolves to does not depend on what was looked up before."""
    rng = rec.rng
    for _ in rec.loop(5 if rec.quick else 40):
        pool = [a for a, _ in LEAVES + CLASSES if a not in (T.Hashable, random.Random, uuid.UUID)]
        annots = rng.sample(pool, 8) + [ann(rng, 2)[0] for _ in range(6)]
        annots = [a for a in annots if "Random" not in repr(a) and "UUID" not in repr(a)
                  and "Callable" not in repr(a) and "FunctionType" not in repr(a)
                  and "terator" not in repr(a) and "Generator" not in repr(a) and "Iterable" not in repr(a)]
        sd = rng.getrandbits(30)
        perms = [list(range(len(annots)))]
        for _ in range(2):
            p = perms[0][:]
            rng.shuffle(p)
            perms.append(p)
        results = []
        for p in perms:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    vals = sample_values([annots[i] for i in p], sd)
                    back = [None] * len(p)
                    for i, v in zip(p, vals):
                        back[i] = v
                    with os.fdopen(w, "w") as f:
                        json.dump(back, f)
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            with os.fdopen(r) as f:
                text = f.read()
            os.waitpid(pid, 0)
            results.append(json.loads(text) if text else None)
        rec.count("orders", len(perms))
        if None in results:
            rec.inconclusive.append("a child of the order test gave no result")
            continue
        for i, a in enumerate(annots):
            rec.observed(("order", repr(a)))
            rec.check(all(r[i] == results[0][i] for r in results), "order-dependent",
                      f"{a!r}: {[r[i] for r in results]}")


def run_annotated(rec):
    rng = rec.rng
    s37 = st.just(37)
    # a strategy in the metadata is used, wherever the type appears
    for a, c in [(T.Annotated[int, s37], lambda v: v == 37), (T.Annotated[str, "x", s37], lambda v: v == 37),
                 (T.List[T.Annotated[int, s37]], lambda v: all(x == 37 for x in v)),
                 (T.Optional[T.Annotated[int, s37]], lambda v: v in (None, 37)),
                 (T.Annotated[int, st.just(1), st.just(2)], lambda v: v == 2),
                 (T.Dict[T.Annotated[str, st.just("k")], T.Annotated[int, s37]],
                  lambda v: v in ({}, {"k": 37}))]:
        rec.count("annotations")
        rec.observed(repr(a))
        drive(rec, f"annotated|{a!r}", st.from_type(a), watch(c, a), n=20, modes="gf", fuzz_n=8)
    even = at.Predicate(lambda x: x % 2 == 0)
    for _ in rec.loop(60 if rec.quick else 400):
        k = rng.randrange(6)
        lo = rng.randint(-50, 50)
        hi = lo + rng.randint(0, 20)
        if k == 0:
            cons = [(at.Ge(lo), lambda v: v >= lo), (at.Le(hi), lambda v: v <= hi), (at.Gt(lo - 3), lambda v: v > lo - 3),
                    (at.Lt(hi + 3), lambda v: v < hi + 3), (even, lambda v: v % 2 == 0 or lo == hi)]
            use = rng.sample(cons[:4], rng.randint(1, 4))
            if rng.random() < 0.3 and hi > lo:
                use.append(cons[4])
            base = rng.choice([int, int, float, fractions.Fraction])
            if base is not int:
                use = [u for u in use if u is not cons[4]]
            a = T.Annotated[(base, *(u[0] for u in use))]
            c = lambda v: isinstance(v, base) and all(u[1](v) for u in use)  # noqa
        elif k == 1:
            a = T.Annotated[int, at.Interval(ge=lo, lt=hi + 1)]
            c = lambda v: type(v) is int and lo <= v <= hi  # noqa
        elif k == 2:
            m = rng.randint(0, 3)
            n = m + rng.randint(0, 3)
            kind = rng.choice([T.List[int], str, bytes, T.Set[int], T.Dict[str, int], T.Tuple[int, ...]])
            meta = rng.choice([(at.Len(m, n),), (at.MinLen(m), at.MaxLen(n)), (slice(m, n),), (at.Len(m, n), "x")])
            a = T.Annotated[(kind, *meta)]
            c = lambda v: isinstance(v, T.get_origin(kind) or kind) and m <= len(v) <= n  # noqa
        elif k == 3:
            m = rng.randint(1, 4)
            a = T.Annotated[T.List[T.Annotated[int, at.Ge(lo)]], at.MinLen(m)]
            c = lambda v: type(v) is list and len(v) >= m and all(x >= lo for x in v)  # noqa
        elif k == 4:
            a = T.Annotated[str, at.Predicate(str.islower)] if rng.random() < 0.5 else at.LowerCase[str]
            c = lambda v: type(v) is str and v.islower()  # noqa
        else:
            a = T.Annotated[T.Annotated[int, at.Ge(lo)], at.Le(hi)]
            c = lambda v: type(v) is int and lo <= v <= hi  # noqa
        rec.count("annotations")
        rec.observed(repr(a))
        drive(rec, f"annotated|{a!r}"[:200], st.from_type(a), watch(c, a), n=20, fuzz_n=8, replay_n=8,
              modes="gsfrx", expect_sat=k not in (0, 4))


def run(unit, rec):
    globals()["run_" + unit["kind"].rstrip("0123")](rec)
