"""C12: nothing is run twice, finite spaces are exhausted, then the run stops."""
import math

from hypothesis import Phase, given, seed, strategies as st

from hv.enum import every_path
from hv.programs import FAILURES, Program, failures, run_for, text
from hv.trees import Node, leaf, tree
from hv.util import HvFail, S, call
from checks.c09 import exact

INFO = dict(
    technique="runtime monitoring: choices of every execution recorded and compared with each other and with an "
              "independent enumeration of the choice tree by a backend of our own",
    level="exploration",
    rule="One evaluation = one execution whose choices were compared with all others of its run. Non-trivial = "
         "distinct choice sequence of a program.",
    floors={"finite_programs": 60, "paths": 1500, "runs": 100, "single_failures": 40, "infinite_runs": 20},
)
KINDS = ["finite0", "finite1", "finite2", "finite3", "known", "dup0", "dup1", "wide"]


def units(tier, seed):
    reps = 1 if tier == "quick" else 10
    return [dict(name=f"{k}-{i}", kind=k, timeout=800) for i in range(reps) for k in KINDS]


@st.composite
def loop(draw, n):
    out = []
    while len(out) < n and draw(st.booleans()):
        out.append(draw(st.integers(0, 1)))
    return out


@st.composite
def late(draw):
    a = draw(st.integers(0, 3))
    if a == 2:
        return (a, draw(st.booleans()), draw(st.booleans()))
    if a == 3:
        return (a, draw(st.sampled_from("xyz")))
    return (a,)


def odd_leaf(rng):
    lo = rng.choice([0.0, -0.0, 1.0, -1.0, 5e-324, -5e-324, 2.2250738585072014e-308, 1e300])
    hi = lo
    for _ in range(rng.randrange(6)):
        hi = math.nextafter(hi, math.inf)
    n = rng.randrange(1, 5)
    opts = [
        lambda: st.floats(lo, hi), lambda: st.text("ab", max_size=2), lambda: st.text("é", max_size=3),
        lambda: st.binary(min_size=1, max_size=1), lambda: st.integers(2**70, 2**70 + n), lambda: st.integers(-n, 0),
        lambda: st.characters(min_codepoint=50, max_codepoint=50 + n), lambda: loop(n % 3 + 1), lambda: late(),
        lambda: st.integers(0, 9).filter(lambda x: x % 3 == 0), lambda: st.integers(0, n).flatmap(lambda k: st.integers(0, k)),
        lambda: st.sampled_from("abcdef").filter(lambda c: c in "ace"), lambda: st.floats(lo, hi, width=64).map(lambda x: -x),
        lambda: st.recursive(st.booleans(), lambda s: st.tuples(s), max_leaves=2),
        lambda: st.shared(st.integers(0, n), key="k"), lambda: st.lists(st.booleans(), max_size=2),
        lambda: st.one_of(st.just(1), st.booleans(), st.integers(0, 2)), lambda: st.permutations(range(n % 3 + 1)),
        lambda: st.text("0123456789", min_size=1, max_size=1) | st.none(), lambda: st.integers(0, 200),
        lambda: st.fixed_dictionaries({"a": st.booleans()}, optional={"b": st.booleans()}),
        lambda: st.just(0), lambda: st.sets(st.integers(0, 2)), lambda: st.lists(st.sampled_from("abc"), unique=True),
        lambda: st.floats(0.0, 1e-323), lambda: st.integers(0, 255), lambda: st.integers(0, 23), lambda: st.integers(0, 24),
    ]
    s = rng.choice(opts)()
    return Node(s, lambda v: None, repr(s))


def finite_program(rng, **kw):
    p = Program(rng, finite=True, depth=rng.choice([0, 0, 1]), randoms=False, nargs=rng.choice([1, 1, 2]),
                interactive=rng.choice([0, 0, 0, 1, 2]), notes=False, mutate=False, **kw)
    for i in range(len(p.nodes)):
        if rng.random() < 0.6:
            p.nodes[i] = odd_leaf(rng)
    p.desc += " = " + str([n.desc for n in p.nodes])
    return p


def unique(rec, prog, log, what):
    if prog.targets:  # hill climbing extends known prefixes at random, and may repeat itself
        rec.observed((prog.salt, len(log)), len(log))
        return
    seen = {}
    for x in log:
        k = exact(x.choices)
        rec.observed((prog.salt, k))
        if k in seen:
            rec.violation("twice", f"{prog.desc}: {what} ran {x.choices} twice, as executions "
                                   f"{seen[k]} and {log.index(x)} of {len(log)}")
            return
        seen[k] = len(seen)


def k_finite(rec):
    rng = rec.rng
    for _ in rec.loop(250 if rec.quick else 8000):
        rejectp = rng.choice([0, 0, 0, 0.1, 0.5])
        prog = finite_program(rng, nfail=0, rejectp=rejectp, targets=0)
        ref = every_path(prog, 300, seconds=1)
        if not ref:
            rec.count("too_big")
            continue
        rec.count("finite_programs")
        rec.count("paths", len(ref))
        ref = [x for x in ref if x.out != "stop"]
        want = {text(x.vals) for x in ref}
        # whatever follows a rejected element is not searched, as the same values can be
        # had without one
        valid = {text(x.vals) for x in ref if x.out == "pass" and not x.discards}
        npass = sum(x.out == "pass" for x in ref)
        for n in {len(ref) + 10, max(1, npass), rng.randrange(1, len(ref) + 1)}:
            log = []
            o = run_for(4, prog.make(log, S(max_examples=n, phases=rng.choice([[Phase.generate], list(Phase)])), rng.getrandbits(30)))
            if o is None:
                rec.count("slow")
                continue
            rec.count("runs")
            log = [x for x in log if x.out != "stop"]  # cut off while drawing: not a whole input
            unique(rec, prog, log, f"a run with max_examples={n}")
            got = {text(x.vals) for x in log}
            rec.check(got <= want, "unknown-values", f"{prog.desc}: {sorted(got - want)[:3]}")
            rec.check(prog.targets or len(log) <= len(ref), "too-many", f"{prog.desc}: {len(log)} executions of {len(ref)} possible ones")
            passes = sum(x.out == "pass" for x in log)
            rec.check(passes <= n, "limit", f"{prog.desc}: {passes} valid examples with max_examples={n}")
            if n >= npass and not (rejectp and n < len(ref)):
                missing = valid - {text(x.vals) for x in log if x.out == "pass"}
                rec.check(not missing, "missed", f"{prog.desc}: {len(missing)} of {len(valid)} values were never tried with "
                                                 f"max_examples={n}, e.g. {sorted(missing)[:3]}; {len(log)} executions")
                rec.count("exhausted_runs")
        # a failure on just one value cannot be missed
        if valid:
            bad = rng.choice(sorted(valid))
            prog.nfail, prog.fails, prog.failp = 1, [rng.choice(FAILURES)], 1.0
            old = prog.decide
            prog.decide = lambda vals: 0 if text(vals) == bad else "pass"
            log = []
            o = run_for(4, prog.make(log, S(max_examples=max(len(ref), 1) + 10), rng.getrandbits(30)))
            prog.decide = old
            if o is None:
                continue
            rec.count("single_failures")
            rec.check(o.exc is not None and failures(log), "failure-missed",
                      f"{prog.desc}: the only failing value {bad} was not found in {len(log)} executions; {o.exc!r}")
    rec.sample(program=prog.desc)


def k_known(rec):
    """Spaces whose size is known: each input is tried exactly once."""
    rng = rec.rng
    spaces = [
        (st.booleans(), 2), (st.integers(0, 9), 10), (st.tuples(st.booleans(), st.booleans(), st.booleans()), 8),
        (st.sampled_from(range(37)), 37), (st.text("abc", max_size=2), 13), (st.binary(max_size=1), 257),
        (st.integers(0, 127), 128), (st.integers(0, 128), 129), (st.integers(-300, 300), 601), (st.none(), 1),
        (st.floats(0.0, 5e-323), 11), (st.floats(-1e-323, 1e-323), 6), (st.just(1) | st.just(2) | st.booleans(), 4),
        (st.integers(0, 5).flatmap(lambda k: st.integers(0, k)), 21), (st.characters(max_codepoint=99), 100),
        (st.lists(st.booleans(), max_size=3), 15), (st.fixed_dictionaries({"a": st.booleans(), "b": st.integers(0, 4)}), 10),
        (st.permutations("abcd"), 24), (st.integers(0, 3).map(lambda x: x // 2), 4), (st.integers(5, 8), 4),
        (st.text("0123", min_size=3, max_size=3), 64), (late(), 9), (st.floats(1.0, 1.0 + 2**-48), 17),
        (st.integers(10, 2000), 1991), (st.tuples(st.integers(0, 30), st.integers(0, 30)), 961),
    ]
    for s, n in spaces if rec.quick else spaces * 20:
        for extra in rng.sample([0, 1, 5, 1000], 2):
            got = []

            @S(max_examples=n + extra)
            @seed(rng.getrandbits(30))
            @given(s)
            def t(v):
                got.append(repr(v))
            o = run_for(12, t)
            if o is None:
                rec.count("slow")
                continue
            rec.count("runs")
            rec.count("finite_programs")
            rec.observed((repr(s), n), len(got))
            rec.check(o.exc is None, "error", f"{s!r}: {o.exc!r}")
            rec.check(len(got) == n, "known-count", f"{s!r}: {len(got)} executions where there are {n} inputs, max_examples={n + extra}")


def k_dup(rec):
    """Infinite spaces: still nothing is run twice, and generation gives max_examples valid inputs."""
    rng = rec.rng
    for _ in rec.loop(120 if rec.quick else 4000):
        prog = Program(rng, nfail=0, rejectp=rng.choice([0, 0, 0.2]), mutate=False)
        n = rng.choice([1, 5, 30, 100, 150])
        log = []
        o = run_for(3, prog.make(log, S(max_examples=n, phases=rng.choice([[Phase.generate], list(Phase)])), rng.getrandbits(30)))
        if o is None:
            rec.count("slow")
            continue
        rec.count("runs")
        rec.count("infinite_runs")
        done = [x for x in log if x.out != "stop"]
        unique(rec, prog, done, f"a run with max_examples={n}")
        rec.check(sum(x.out == "pass" for x in done) <= n, "limit", f"{prog.desc}: more than {n} valid examples")


def k_wide(rec):
    """Spaces far too large to exhaust are never taken for exhausted."""
    rng = rec.rng
    strats = [
        st.integers(0, 10**6), st.floats(0, 1), st.text(min_size=1), st.lists(st.integers(), min_size=1),
        st.sets(st.integers(), min_size=1), st.sets(st.integers(0, 10**5), min_size=1),
        st.dictionaries(st.integers(), st.booleans(), min_size=1), st.lists(st.sampled_from(range(100)), unique=True, min_size=2),
        st.integers(0, 10**6).filter(lambda x: x % 2 == 0), st.tuples(st.integers(0, 99), st.integers(0, 99)),
        st.binary(min_size=2), st.integers().flatmap(lambda n: st.just(n)), st.datetimes(), st.uuids(),
        st.lists(st.booleans(), min_size=12, max_size=12), st.permutations(range(9)), st.decimals(0, 1), st.fractions(),
        st.recursive(st.integers(), lambda s: st.tuples(s, s)), st.from_regex(r"[a-z]{3,5}", fullmatch=True),
        st.one_of(st.none(), st.integers(0, 10**5)), st.integers(0), st.complex_numbers(), st.characters(), st.randoms() | st.integers(),
    ]
    for s in rng.sample(strats, len(strats)) if rec.quick else strats * 20:
        n = rng.choice([50, 200, 400])
        seen = []

        @S(max_examples=n, phases=[Phase.generate])
        @seed(rng.getrandbits(30))
        @given(s)
        def t(v):
            seen.append(1)
        o = run_for(6, t)
        if o is None:
            rec.count("slow")
            continue
        rec.count("runs")
        rec.count("infinite_runs")
        rec.observed((repr(s), n), len(seen))
        rec.check(o.exc is None and len(seen) == n, "stopped-early", f"{s!r}: {len(seen)} executions with max_examples={n}; {o.exc!r}")


def run(unit, rec):
    globals()["k_" + unit["kind"].rstrip("0123456789")](rec)
