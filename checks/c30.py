"""C30: explanations attached to failures are true."""
import ast
import contextlib
import functools
import io
import os
import re
import shutil
import sys
import tempfile
import threading
import tokenize
import types

from hypothesis import Phase, Verbosity, assume, given, seed, strategies as st
from hypothesis.errors import Unsatisfiable
from hypothesis.control import current_build_context
from hypothesis.internal.conjecture.shrinker import sort_key

from hv.util import FIRED, HvFail, HvFail2, OutOfTime, S, call, stable_hash, time_limit

INFO = dict(
    technique="runtime monitoring: tests whose outcome is a known function of some of their arguments are run to a failure report; a monitor holds "
              "each comment of the report against all logged executions and against many replacements, and each reported line against a log of the "
              "lines each execution ran, kept by the generated test itself",
    level="exploration",
    rule="One evaluation = one failing run explained. Non-trivial = distinct (scenario, what the outcome depends on, claims).",
    floors={"failing_runs": 15, "claims": 20, "claims_none": 1, "joint_always": 1, "witnesses": 1500, "replacements": 1500,
            "line_runs": 12, "line_claims": 12, "same_runs": 8},
)
KINDS = ["parts0", "parts1", "parts2", "lines0", "lines1", "same0"]
PHASES = [Phase.generate, Phase.shrink, Phase.explain]
ANY = "or any other generated value"
TOGETHER = "The test always failed when commented parts were varied together."
SOMETIMES = "The test sometimes passed when commented parts were varied together."


def units(tier, seed):
    reps = 1 if tier == "quick" else 8
    return [dict(name=f"{k}-{i}", kind=k, timeout=800) for i in range(reps) for k in KINDS]


def run(unit, rec):
    globals()["k_" + unit["kind"].rstrip("0123456789")](rec)


def limited(rec, f, *args):
    """The outcome, unless it takes so long that we lose interest."""
    try:
        with time_limit(6 if rec.quick else 40):
            o = call(f, *args)
    except OutOfTime:
        o = None
    if o is None or FIRED:
        rec.count("cut_short")
        return None
    return o


def leaves(o):
    return list(o.exc.exceptions) if isinstance(o.exc, BaseExceptionGroup) else [o.exc]


# ---------------------------------------------------------------- which parts matter

class Rec:
    """A value of ours, shown by how it was made."""

    def __init__(self, a, b=0):
        self.a, self.b = a, b

    def __eq__(self, other):
        return isinstance(other, Rec) and (self.a, self.b) == (other.a, other.b)

    def __repr__(self):
        return f"Rec({self.a!r}, {self.b!r})"


def strategies_(rng):
    """(strategy, description) of strategies where a value is made of one sequence of choices only."""
    n = rng.choice([1, 2, 5, 10, 100, 10**6])
    lo = rng.choice([0, -n, 1, -3])
    return rng.choice([
        (st.booleans(), "booleans"), (st.booleans(), "booleans"), (st.integers(lo, lo + n), f"integers({lo}, {lo + n})"),
        (st.integers(0, n), f"integers(0, {n})"), (st.integers(), "integers()"), (st.integers(min_value=0), "integers(0)"),
        (st.sampled_from(["x", "y", "z"]), "sampled"), (st.sampled_from(range(50)), "sampled50"),
        (st.lists(st.integers(0, 3), max_size=3), "lists"), (st.lists(st.booleans(), min_size=1), "lists1"), (st.text("ab", max_size=3), "text"),
        (st.text(), "text()"), (st.tuples(st.booleans(), st.integers(0, 3)), "tuples"), (st.just(5), "just"), (st.none(), "none"),
        (st.builds(Rec, st.integers(0, 9)), "builds"), (st.builds(Rec, st.booleans(), b=st.text("xy", max_size=2)), "builds2"),
        (st.integers(0, 20).filter(lambda x: x % 3), "filter"), (st.integers(0, 20).map(lambda x: x * 2), "map"),
        (st.booleans() | st.integers(7, 9), "one_of"), (st.none() | st.lists(st.integers(0, 5), min_size=1, max_size=2), "maybe"),
        (st.dictionaries(st.integers(0, 3), st.booleans(), max_size=2), "dictionaries"), (st.binary(max_size=2), "binary"),
        (st.integers(0, 3).flatmap(lambda n: st.lists(st.just(n), min_size=n, max_size=n)), "flatmap"), (st.permutations([1, 2, 3]), "permutations"),
        (st.sets(st.integers(0, 4), max_size=3), "sets"), (st.floats(0, 1), "floats"), (st.fixed_dictionaries({"k": st.booleans()}), "fixed"),
    ])


def size(v):
    """Some number belonging to a value."""
    if isinstance(v, (bool, int, float)):
        return v
    if v is None:
        return 0
    if isinstance(v, Rec):
        return size(v.a) + size(v.b)
    if isinstance(v, (tuple,)):
        return sum(map(size, v))
    if isinstance(v, str):
        return len(v) + ("xyz".find(v) if len(v) == 1 else 0)
    return len(v)


def predicate(rng, names, strats):
    """(function of the arguments giving None, an error class or "invalid"; description)."""
    form = rng.choice(["all", "hash", "hash", "hash", "above", "above", "equal", "both", "both", "both", "both", "both", "either", "sum", "two", "below", "below", "always1", "rare", "mod"])
    d = rng.sample(names, rng.randint(1, len(names)))
    salt = rng.randrange(10**9)
    rate = rng.choice([0.02, 0.1, 0.3, 0.5, 0.5, 0.8])
    c = rng.choice([0, 0, 1, 1, 2, 5, 50])
    bad = rng.choice([0, 0, 0, 0.1, 0.3])
    badon = rng.sample(names, 1)

    def h(kw, on, extra=""):
        return stable_hash((salt, extra, [repr(kw[k]) for k in on])) % 10_000 / 10_000

    def p(kw):
        if bad and h(kw, badon, "bad") < bad:
            return "invalid"
        if form == "all":
            return HvFail
        if form == "hash":
            return HvFail if h(kw, d) < rate else None
        if form == "rare":
            return HvFail if h(kw, d) >= 0.01 else None
        if form == "above":
            return HvFail if all(size(kw[k]) > c for k in d[:2]) else None
        if form == "below":
            return HvFail if size(kw[d[0]]) <= c else None
        if form == "mod":
            return HvFail if size(kw[d[0]]) % 2 == 0 else None
        if form == "equal":
            return HvFail if len({size(kw[k]) for k in d}) == 1 else None
        if form == "both":
            # each may change alone
            return None if all(size(kw[k]) > 0 for k in d[:2]) else HvFail
        if form == "either":
            return HvFail if any(size(kw[k]) > c for k in d) else None
        if form == "sum":
            return HvFail if sum(size(kw[k]) for k in d) > c else None
        if form == "two":
            x = h(kw, d)
            return HvFail if x < rate / 2 else HvFail2 if x < rate else None
        if form == "always1":
            return HvFail if h(kw, d) < 0.5 else HvFail2
    return p, (form, len(d), c if form in ("above", "either", "sum") else rate, bad), d


class Ex:
    def __init__(self, kw, key):
        self.kw, self.key, self.out, self.exc, self.nodes = kw, key, None, None, None


def sample(strat, n, seed_):
    """Values as the engine picks them when it replaces a part."""
    got = []

    @S(max_examples=n, phases=[Phase.generate])
    @seed(seed_)
    @given(strat)
    def t(v):
        got.append(v)

    call(t)
    return got


def comments(text):
    """{argument: comment}, leading comment and the call of a printed falsifying example."""
    text = re.sub(r"^Falsifying example: ", "", text)
    tree = ast.parse(text, mode="eval").body
    found = {}
    for tok in tokenize.generate_tokens(io.StringIO(text).readline):
        if tok.type == tokenize.COMMENT:
            found[tok.start[0]] = tok.string.removeprefix("# ")
    lead, args = None, {}
    ends = {k.value.end_lineno: k.arg for k in tree.keywords}
    for line, c in found.items():
        if line in ends:
            args[ends[line]] = c
        elif line == 2 and lead is None and all(k.value.lineno > 2 for k in tree.keywords):
            lead = c
        else:
            raise ValueError(f"a comment which belongs to nothing: {c}")
    return args, lead, tree


def define(ns, source):
    exec(compile(source, __file__, "exec"), ns)    # inspect takes long to look for files it does not know


def make_test(rng, names, strats, p, log, how):
    body_draw = rng.random() < 0.2

    def body(kw):
        data = kw.pop("data", None)
        e = Ex(dict(kw), tuple((k, repr(kw[k])) for k in names))
        log.append(e)
        if data is not None and body_draw:
            e.key += (("draw", repr(data.draw(st.integers(0, 3)))),)
        r = p(kw)
        e.out = r
        with contextlib.suppress(Exception):
            e.nodes = current_build_context().data.nodes
        if r == "invalid":
            assume(False)
        if r is not None:
            e.exc = r("failed")
            if r is HvFail:
                raise e.exc
            raise e.exc

    kws = {k: s for k, (s, _) in zip(names, strats)}
    if how == "data":
        kws["data"] = st.data()
    if how == "positional":
        ns = {"body": body}
        define(ns, f"def t({', '.join(names)}):\n    body(dict({', '.join(f'{k}={k}' for k in names)}))")
        return given(*kws.values())(ns["t"])
    if how == "kwonly":
        ns = {"body": body}
        define(ns, f"def t(*, {', '.join(names)}):\n    body(dict({', '.join(f'{k}={k}' for k in names)}))")
        return given(**kws)(ns["t"])

    ns = {"body": body}
    define(ns, f"def t({', '.join(kws)}):\n    body(dict({', '.join(f'{k}={k}' for k in kws)}))")
    return given(**kws)(ns["t"])


def k_parts(rec):
    rng = rec.rng
    for i in rec.loop(150 if rec.quick else 2000, 10 if rec.quick else None):
        names = rng.sample(["a", "b", "c", "d", "e"], rng.choice([1, 2, 2, 3, 3, 4]))
        strats = [strategies_(rng) for _ in names]
        p, desc, on = predicate(rng, names, strats)
        if i == 0 or rng.random() < 0.2:
            # for which no passing example is seen while shrinking
            m = rng.choice([50, 60, 70, 75, 80, 85, 90, 95])
            names, strats, on, desc = ["a", "b"], [(st.integers(0, 100), "x"), (st.integers(0, 100), "y")], ["b"], ("pinned", 1, m, 0)
            p = lambda kw, m=m: None if kw["b"] > m else HvFail
        elif rng.random() < 0.15:
            # each is free, but not all at once
            n = rng.choice([9, 30, 1000])
            names, on = rng.choice([["a", "b"], ["c", "b", "a"]]), "all"
            strats, desc = [(st.integers(0, n), f"integers(0, {n})") for _ in names], ("low", len(names), n, 0)
            p = lambda kw, n=n: HvFail if sum(kw.values()) <= n else None
        log, how = [], rng.choice(["kw", "kw", "positional", "kwonly", "data"])
        sd = rng.randrange(2**32)
        f = S(max_examples=rng.choice([20, 60, 150]), phases=PHASES, report_multiple_bugs=rng.random() < 0.7)(
            seed(sd)(make_test(rng, names, strats, p, log, how)))
        o = limited(rec, f)
        if o is None or o.exc is None:
            continue
        what = f"{desc} on {on} of {dict(zip(names, [d for _, d in strats]))}, {how}"
        for leaf in leaves(o):
            if isinstance(leaf, (HvFail, HvFail2)):
                judge_parts(rec, what, desc, names, strats, p, log, leaf)


def judge_parts(rec, what, desc, names, strats, p, log, leaf):
    rng = rec.rng
    rec.count("failing_runs")
    final = next(e for e in reversed(log) if e.exc is leaf)
    notes = [n for n in leaf.__notes__ if n.startswith("Falsifying example: ")]
    if len(notes) != 1:
        rec.violation("parts:report", f"{what}: {leaf.__notes__}")
        return
    try:
        args, lead, tree = comments(notes[0])
    except Exception as e:
        rec.violation("parts:syntax", f"{what}: {e!r} in {notes[0]}")
        return
    rec.observed((what, tuple(sorted(args)), lead))
    rec.count("claims", len(args))
    rec.count("claims_none", not args)
    for k, c in args.items():
        if c != ANY or k not in names:
            rec.violation("parts:comment", f"{what}: {notes[0]}")
            return
    if lead not in (None, TOGETHER, SOMETIMES) or (lead and len(args) < 2):
        rec.violation("parts:lead", f"{what}: {notes[0]}")
        return
    ns = dict(Rec=Rec)
    for kw in tree.keywords:
        if kw.arg in names:
            v = eval(compile(ast.Expression(kw.value), "<arg>", "eval"), ns)
            if repr(v) != repr(final.kw[kw.arg]):
                rec.violation("parts:value", f"{what}: {kw.arg} was {final.kw[kw.arg]!r}, but {notes[0]}")
    fixed = dict(final.key)

    def apart(e, parts):
        """Does the execution differ in these only?"""
        return all(v == fixed.get(k) for k, v in e.key if k not in parts) and len(e.key) == len(final.key)

    for k in args:
        for e in log:
            rec.count("witnesses")
            if e.out is None and apart(e, {k}):
                rec.violation("parts:seen", f"{what}: {k} is said to be free, but the test passed with {e.kw}\n{notes[0]}")
                break
        strat = strats[names.index(k)][0]
        outs = [p({**final.kw, k: v}) for v in sample(strat, 200, rng.randrange(2**32))]
        rec.count("replacements", len(outs))
        if outs.count(None) > len(outs) * 0.3:
            rec.violation("parts:free", f"{what}: {k} is said to be free, but {outs.count(None)} of {len(outs)} values pass\n{notes[0]}")
    if lead == SOMETIMES:
        rec.count("joint_sometimes")
        if not any(e.out is None and apart(e, set(args)) for e in log):
            rec.violation("parts:sometimes", f"{what}: no execution which passed differs in the commented parts only\n{notes[0]}")
    if lead == TOGETHER:
        rec.count("joint_always")
        every = [sample(strats[names.index(k)][0], 200, rng.randrange(2**32)) for k in args]
        outs = [p({**final.kw, **{k: rng.choice(vs) for k, vs in zip(args, every)}}) for _ in range(300)]
        if outs.count(None) > 90:
            rec.violation("parts:together", f"{what}: {outs.count(None)} of 300 joint changes pass\n{notes[0]}")


# ---------------------------------------------------------------- the counterexample stays

def k_same(rec):
    rng = rec.rng
    for _ in rec.loop(80 if rec.quick else 800, 10 if rec.quick else None):
        names = rng.sample(["a", "b", "c", "d"], rng.choice([1, 2, 3]))
        strats = [strategies_(rng) for _ in names]
        p, desc, on = predicate(rng, names, strats)
        how, sd, state = rng.choice(["kw", "positional", "data"]), rng.randrange(2**32), rng.getstate()
        runs = []
        for phases in ([Phase.generate, Phase.shrink], PHASES):
            log = []
            rng.setstate(state)
            f = S(max_examples=60, phases=phases)(seed(sd)(make_test(rng, names, strats, p, log, how)))
            runs.append((limited(rec, f), log))
        (o0, log0), (o1, log1) = runs
        if o0 is None or o1 is None:
            continue
        what = f"{desc} on {on} of {dict(zip(names, [d for _, d in strats]))}, {how}"
        if (o0.exc is None) != (o1.exc is None):
            rec.violation("same:verdict", f"{what}: {o0.exc!r} without and {o1.exc!r} with the explain phase")
            continue
        if o0.exc is None or isinstance(o0.exc, Unsatisfiable):
            continue
        rec.count("same_runs")
        rec.observed((what, sd))
        l0, l1 = leaves(o0), leaves(o1)
        e0 = [next((e for e in reversed(log0) if e.exc is x), None) for x in l0]
        e1 = [next((e for e in reversed(log1) if e.exc is x), None) for x in l1]
        if None in e0 or None in e1:
            rec.violation("same:error", f"{what}: {o0.exc!r} and {o1.exc!r}")
            continue
        if len({e.out for e in log0 + log1} - {None, "invalid"}) > 1:
            rec.count("several_origins")
            continue
        if e0[0].key != e1[0].key:
            rec.count("explained_smaller")
            if not sort_key(e1[0].nodes) < sort_key(e0[0].nodes):
                rec.violation("same:changed", f"{what}: {e0[0].kw} without and {e1[0].kw} with the explain phase")


# ---------------------------------------------------------------- lines

class Source:
    """A module with a test in it, where each line which can run says so."""

    def __init__(self, rng):
        self.rng, self.lines, self.raises, self.silent = rng, [], {}, {}
        self.n_helpers = rng.choice([0, 1, 2])
        self.fails = 0
        self.add(0, "from hypothesis import assume")
        for i in range(self.n_helpers):
            self.add(0, f"def h{i}(x, y):")
            self.block(1, 2, ["x", "y"], helper=i)
            self.add(1, "L({n}); return " + self.expr(["x", "y"]))
        self.add(0, "def draw1(x):")
        self.add(1, "if L({n}) or x > 5:")
        self.add(2, "L({n}); return x + 1")
        self.add(1, "L({n}); return x")
        names = ["a", "b", "c"]
        self.add(0, "def t(start, a, b, c):")
        self.add(1, "L({n}); a, b, c = a, b, c")
        self.block(1, 3, names)
        self.fail(1, names)
        self.block(1, 1, names)
        if rng.random() < 0.4:
            self.fail(1, names)
        self.add(1, "L({n}); L(0)")
        self.text = "\n".join(self.lines) + "\n"

    def add(self, depth, s):
        self.lines.append("    " * depth + s.replace("{n}", str(len(self.lines) + 1)))
        return len(self.lines)

    def expr(self, names):
        r = self.rng
        return r.choice([f"{r.choice(names)} + {r.randint(0, 5)}", f"{r.choice(names)} - {r.choice(names)}", str(r.randint(0, 9))])

    def cond(self, names):
        r = self.rng
        return r.choice([f"{r.choice(names)} > {r.choice([0, 1, 3, 7, 20])}", f"{r.choice(names)} % {r.choice([2, 3])} == 0",
                         f"{r.choice(names)} < {r.choice(names)}", f"{r.choice(names)} == {r.choice(names)}"])

    def fail(self, depth, names):
        c = self.cond(names)
        if self.rng.random() < 0.3:
            c += " and " + self.cond(names)
        self.add(depth, "if L({n}) or (" + c + "):")
        if self.rng.random() < 0.5:
            self.add(depth + 1, "L({n}); z = " + self.expr(names))
        self.fails += 1
        self.raises[self.fails] = self.add(depth + 1, f"L({{n}}); L({-self.fails}); raise Fail({self.fails})")

    def block(self, depth, n, names, helper=None):
        r = self.rng
        for _ in range(r.randint(1, n)):
            k = r.choice(["set", "set", "if", "if", "for", "try", "call", "while", "assume", "fail", "with", "comp"])
            if depth > 3:
                k = "set"
            if k == "set":
                self.add(depth, "L({n}); " + r.choice(names) + " = " + self.expr(names))
            elif k == "if":
                self.add(depth, "if L({n}) or (" + self.cond(names) + "):")
                self.block(depth + 1, 2, names, helper)
                if r.random() < 0.3:
                    self.add(depth, "elif L({n}) or (" + self.cond(names) + "):")
                    self.block(depth + 1, 1, names, helper)
                if r.random() < 0.5:
                    self.add(depth, "else:")
                    self.block(depth + 1, 2, names, helper)
            elif k == "for":
                self.add(depth, f"for i{depth} in L({{n}}) or range({r.choice(names)} % 4):")
                self.block(depth + 1, 2, names, helper)
            elif k == "while":
                self.add(depth, f"w{depth} = L({{n}}) or 2")
                self.add(depth, f"while L({{n}}) or w{depth} > 0:")
                self.add(depth + 1, f"w{depth} = L({{n}}) or w{depth} - 1")
                self.block(depth + 1, 1, names, helper)
            elif k == "try":
                at = self.add(depth, "try:")
                self.silent[at] = at + 1
                self.add(depth + 1, "L({n}); v = " + self.expr(names))
                self.add(depth + 1, "if L({n}) or (" + self.cond(names) + "):")
                self.add(depth + 2, "L({n}); raise ValueError")
                self.block(depth + 1, 1, names, helper)
                self.add(depth, "except (L({n}) or ValueError):")
                self.block(depth + 1, 1, names, helper)
            elif k == "call" and self.n_helpers and helper is None:
                self.add(depth, "L({n}); " + f"{r.choice(names)} = h{r.randrange(self.n_helpers)}({r.choice(names)}, {r.choice(names)})")
            elif k == "assume" and helper is None and r.random() < 0.5:
                self.add(depth, "L({n}); assume(not (" + self.cond(names) + "))")
            elif k == "fail" and r.random() < 0.3:
                self.fail(depth, names)
            elif k == "with":
                self.add(depth, "with L({n}) or LOCK:")
                self.block(depth + 1, 1, names, helper)
            elif k == "comp":
                self.add(depth, f"L({{n}}); {r.choice(names)} = sum(q for q in range({r.choice(names)} % 3))")
            else:
                self.add(depth, "L({n}); pass")


class Fail(Exception):
    pass


class Run:
    def __init__(self):
        self.lines, self.out = set(), "invalid"


def k_lines(rec):
    rng = rec.rng
    scratch = tempfile.mkdtemp(prefix="hv-c30-")
    try:
        for i in rec.loop(70 if rec.quick else 800, 10 if rec.quick else None):
            one_lines(rec, rng, scratch, i)
    finally:
        shutil.rmtree(scratch)


def one_lines(rec, rng, scratch, i):
    src = Source(rng)
    path = os.path.join(scratch, rng.choice([f"mod{i}.py", f"odd name {i}.py", f"m{i}/sub.py"]))
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(src.text)
    marks = []    # of all executions, one after the other
    module = types.ModuleType(f"hv_lines_{i}")
    vars(module).update(L=marks.append, Fail=Fail, LOCK=threading.RLock(), __file__=path)
    exec(compile(src.text, path, "exec"), vars(module))
    sys.modules[module.__name__] = module    # which tells inspect where the source is
    begin = functools.partial(marks.append, "start")

    ints = st.integers(rng.choice([0, -10]), rng.choice([3, 10, 30]))
    verbose = rng.random() < 0.2
    taken = i == 0 or rng.random() < 0.03
    phases = PHASES if rng.random() < 0.9 else [Phase.generate, rng.choice([Phase.shrink, Phase.explain])]
    f = S(max_examples=rng.choice([30, 100]), phases=phases, verbosity=Verbosity.verbose if verbose else Verbosity.normal)(
        seed(rng.randrange(2**32))(given(st.builds(begin), ints, ints.map(module.draw1), ints)(module.t)))
    tool = sys.monitoring
    marks.clear()
    if taken:
        tool.use_tool_id(3, "hv")
    try:
        o = limited(rec, f)
    finally:
        if taken:
            if tool.get_tool(3) != "hv":
                rec.violation("lines:tool", f"another tool's registration became {tool.get_tool(3)!r}")
                tool.use_tool_id(3, "hv") if tool.get_tool(3) is None else None
            tool.free_tool_id(3)
        elif tool.get_tool(3) is not None:
            rec.violation("lines:tool", f"{tool.get_tool(3)!r} is still registered after the test")
            tool.free_tool_id(3)
    del sys.modules[module.__name__]
    if o is None or o.exc is None:
        return
    runs = []
    for m in marks:
        if m == "start":
            runs.append(Run())
        elif m <= 0:
            runs[-1].out = -m or "passed"
        else:
            runs[-1].lines.add(m)
    what = f"{path}:\n" + "\n".join(f"{n + 1:3} {s}" for n, s in enumerate(src.lines)) + "\n"
    first = next((j for j, r in enumerate(runs) if isinstance(r.out, int)), None)
    if isinstance(o.exc, Unsatisfiable):
        return
    if first is None:
        rec.violation("lines:error", f"{o.exc!r} {what}")
        return
    n_final = len(leaves(o))
    traced = runs[first + 1:len(runs) - n_final]
    rec.count("line_runs")
    for leaf in leaves(o):
        if isinstance(leaf, Unsatisfiable):
            continue
        if not isinstance(leaf, Fail):
            rec.violation("lines:error", f"{leaf!r} {what}")
            continue
        notes = list(leaf.__notes__)
        if "Explanation:" not in notes:
            rec.count("line_claims_none")
            continue
        at = notes.index("Explanation:")
        if Phase.explain not in phases or Phase.shrink not in phases or taken:
            rec.violation("lines:unasked", f"{notes} though phases={phases} tool taken={taken}")
            continue
        shown, more = [], 0
        for n in notes[at + 2:]:
            if m := re.fullmatch(r" {8}(/.*):(\d+)", n):
                shown.append((m[1], int(m[2])))
            elif m := re.fullmatch(r" {8}\(and (\d+) more with settings.verbosity >= verbose\)", n):
                more = int(m[1])
            else:
                break
        failing = [r for r in traced if r.out == leaf.args[0]]
        passing = [r for r in traced if r.out == "passed"]
        rec.count("line_claims", len(shown))
        rec.observed((len(shown), more, len(failing), len(passing), src.text))
        if not shown:
            rec.violation("lines:empty", f"{notes}")
        if more and (verbose or len(shown) != 5):
            rec.violation("lines:more", f"{notes}")
        if len(set(shown)) != len(shown):
            rec.violation("lines:twice", f"{notes}")
        for file, n in shown:
            if file != path:
                rec.count("lines_elsewhere")    # e.g. in a module which our strategies used
                if not os.path.isfile(file) or file == __file__:
                    rec.violation("lines:file", f"{file}:{n} of {notes[at:]}, {what}")
                continue
            n = src.silent.get(n, n)
            if not 1 <= n <= len(src.lines) or "L(" not in src.lines[n - 1]:
                rec.violation("lines:number", f"line {n} of {notes[at:]}, {what}")
                continue
            no = sum(n not in r.lines for r in failing)
            if no:
                rec.violation("lines:failing", f"line {n} was not run by {no} of {len(failing)} failing executions, {what}")
            yes = sum(n in r.lines for r in passing)
            if yes:
                rec.violation("lines:passing", f"line {n} was run by {yes} of {len(passing)} passing executions, {what}")
    if taken:
        rec.count("tool_taken")
