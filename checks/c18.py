"""C18: explicit examples run first, exactly as given, and expected failures are enforced."""
import inspect
import unittest

import hypothesis
from hypothesis import Phase, assume, event, example, given, note, settings, strategies as st, target
from hypothesis.errors import InvalidArgument, Unsatisfiable

from hv.trees import canon
from hv.util import FeedDatabase, HvFail, HvFail2, S, call, stable_hash

INFO = dict(
    technique="runtime monitoring: tests with generated sets of @example decorators log every execution with the identity "
              "of its arguments; order, count, limit, database writes and the ending are compared with the documented rules",
    level="exploration",
    rule="One evaluation = one run of a test with explicit examples, compared with the rules. Non-trivial = distinct "
         "(examples, signature, settings, outcomes).",
    floors={"runs": 300, "examples": 400, "xfails": 80, "failing": 150, "generated": 1400, "groups": 30},
)
KINDS = ["run0", "run1", "run2", "shape0", "shape1"]


def units(tier, seed):
    reps = 1 if tier == "quick" else 10
    return [dict(name=f"{k}-{i}", kind=k, timeout=800) for i in range(reps) for k in KINDS]


class Mark:
    """A value strategies never give, compared by identity."""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"Mark({self.n})"


class Sub(HvFail):
    pass


OUTS = {"pass": None, "HvFail": HvFail, "Sub": Sub, "Fail2": HvFail2, "assert": AssertionError, "reject": None, "exit": SystemExit,
        "skip": unittest.SkipTest, "interrupt": KeyboardInterrupt}
RAISES = [BaseException, Exception, HvFail, HvFail2, (HvFail, HvFail2), (Sub,), AssertionError, (ValueError, KeyError), SystemExit]


def act(out):
    if out == "reject":
        assume(False)
    e = OUTS[out]
    if e is not None:
        raise e("x")


def k_run(rec):
    rng = rec.rng
    for _ in rec.loop(500 if rec.quick else 15_000):
        nargs = rng.choice([1, 1, 2, 3])
        names = [f"a{i}" for i in range(nargs)]
        k = rng.choice([1, 1, 2, 3, 6])
        exs = []
        for i in range(k):
            exs.append(dict(
                vals=[Mark(i) if rng.random() < 0.7 else rng.choice([[], {}, None, "x", float("nan"), (i,)]) for _ in names],
                out=rng.choice(["pass"] * 6 + ["HvFail", "HvFail", "Sub", "Fail2", "assert", "reject", "exit"]
                               + (["skip", "interrupt"] if rng.random() < 0.2 else [])),
                xfail=rng.choice([None, None, None, "on", "off"]), raises=rng.choice(RAISES), positional=rng.random() < 0.5,
                via=rng.random() < 0.2, below=rng.random() < 0.3, note=rng.random() < 0.3))
            if exs[-1]["xfail"] == "on" and rng.random() < 0.7 and exs[-1]["out"] in ("pass", "HvFail", "Sub", "Fail2"):
                exs[-1]["out"] = rng.choice(["HvFail", "Sub", "Fail2"])
        # decorators below @given are applied first, and so come last
        exs = [e for e in exs if not e["below"]] + [e for e in exs if e["below"]]
        genfail = rng.random() < 0.2
        log = []
        index = {id(e["vals"][0]): i for i, e in enumerate(exs) if isinstance(e["vals"][0], Mark)}

        def body(*args):
            i = state["i"]
            state["i"] += 1
            note("a note")
            event("an event")
            target(1.0)
            if state["explicit"] and i < len(order):
                e = exs[order[i]]
                log.append((order[i], args))
                if e["note"]:
                    note(f"noted {order[i]}")
                # the test may change what it is given
                for a in args:
                    if isinstance(a, list):
                        a.append(1)
                try:
                    act(e["out"])
                except BaseException as err:
                    raised.append((order[i], err))
                    raise
                return
            log.append(("gen", args))
            if genfail:
                raise HvFail2("generated")
        ns = {"body": body}
        exec(f"def test({', '.join(names)}):\n    body({', '.join(names)})\n", ns)
        t = ns["test"]

        def deco(e):
            d = example(*e["vals"]) if e["positional"] else example(**dict(zip(names, e["vals"])))
            if e["via"]:
                d = d.via("hv")
            if e["xfail"]:
                d = d.xfail(e["xfail"] == "on", raises=e["raises"], reason=rng.choice(["", "r"]))
            return d
        for e in reversed([e for e in exs if e["below"]]):
            t = deco(e)(t)
        t = given(**{n: st.integers(0, 10**6) for n in names})(t)
        multi = rng.random() < 0.6
        n = rng.choice([1, 5, 20])
        phases = rng.choice([list(Phase), [Phase.explicit], [Phase.explicit, Phase.generate], [Phase.generate], [Phase.reuse, Phase.generate],
                             [Phase.explicit, Phase.reuse]])
        db = FeedDatabase()
        sett = S(max_examples=n, phases=phases, report_multiple_bugs=multi, database=db)
        above = [e for e in exs if not e["below"]]
        first = rng.random() < 0.5
        if first:
            t = sett(t)
        for e in reversed(above):
            t = deco(e)(t)
        if not first:
            t = sett(t)
        # --- what should happen
        explicit = Phase.explicit in phases
        state = {"i": 0, "explicit": explicit}
        raised = []
        order, errors = [], []
        if explicit:
            for i, e in enumerate(exs):
                order.append(i)
                rec.count("examples")
                out = e["out"]
                exc = OUTS[out]
                stop = False
                if e["xfail"] == "on":
                    rec.count("xfails")
                    if out == "pass":
                        errors.append((i, "unexpected pass"))
                        stop = not multi
                    elif out == "reject":
                        pass
                    elif out == "interrupt" and issubclass(exc, e["raises"]):
                        errors.append((i, "invalid"))
                        stop = not multi
                    elif not issubclass(exc, e["raises"]):
                        errors.append((i, "own"))
                        stop = not multi or out in ("skip", "interrupt")
                elif exc is not None:
                    errors.append((i, "own"))
                    stop = not multi or out in ("skip", "interrupt")
                if stop:
                    break
        vals0 = [list(e["vals"]) for e in exs]
        ctx = f"examples {[(e['vals'], e['out'], e['xfail'], e['raises'], 'below' if e['below'] else '') for e in exs]}, " \
              f"phases {[p.name for p in phases]}, multi={multi}"
        o = call(t)
        rec.count("runs")
        rec.observed((ctx, n))
        ran = [x for x in log if x[0] != "gen"]
        gen = [x for x in log if x[0] == "gen"]
        rec.count("generated", len(gen))
        rec.check([x[0] for x in ran] == order and log[: len(ran)] == ran, "order",
                  f"{ctx}: ran {[x[0] for x in log][:8]}, expected {order} first; ended with {o.exc!r}")
        for i, args in ran:
            rec.check(len(args) == nargs and all(a is b for a, b in zip(args, vals0[i])), "args", f"{ctx}: example {i} ran on {args}")
        for _, args in gen:
            rec.check(all(type(a) is int for a in args), "mixed", f"{ctx}: generated {args}")
        if errors:
            rec.count("failing")
            rec.check(not gen, "generated-after", f"{ctx}: {len(gen)} executions after a failing example")
            rec.check(not [r for r in db.log if r[0] != "fetch"], "saved", f"{ctx}: wrote {db.log}")
            last = exs[errors[-1][0]]["out"]
            if last in ("skip", "interrupt") and errors[-1][1] == "own":
                rec.check(any(o.exc is err for i, err in raised if i == errors[-1][0]), "exit", f"{ctx}: ended with {o.exc!r}")
                continue
            es = o.exc.exceptions if isinstance(o.exc, BaseExceptionGroup) else [o.exc]
            if len(errors) > 1:
                rec.count("groups")
            rec.check(len(es) == len(errors), "count", f"{ctx}: expected {errors}, ended with {o.exc!r}")
            for (i, what), e in zip(errors, es):
                if what == "own":
                    rec.check(any(e is err for j, err in raised if j == i), "own", f"{ctx}: example {i} raised {raised}, ended with {o.exc!r}")
                elif what == "invalid":
                    rec.check(isinstance(e, InvalidArgument) and "KeyboardInterrupt" in str(e), "invalid-xfail", f"{ctx}: ended with {o.exc!r}")
                else:
                    rec.check(isinstance(e, AssertionError) and "no exception was raised" in str(e), "xpass", f"{ctx}: ended with {o.exc!r}")
                notes = "\n".join(getattr(e, "__notes__", ()))
                rec.check("Falsifying explicit example: test(" in notes, "report", f"{ctx}: {notes!r}")
                if what == "own" and all(isinstance(v, Mark) for v in vals0[i]):
                    for nm, v in zip(names, vals0[i]):
                        rec.check(f"{nm}={v!r}" in notes, "report-args", f"{ctx}: {notes!r}")
                for j in range(len(exs)):
                    rec.check((f"noted {j}" in notes) == (j == i and exs[j]["note"]), "notes", f"{ctx}: example {i} has {notes!r}")
        else:
            if Phase.generate in phases:
                if genfail:
                    rec.check(isinstance(o.exc, HvFail2), "gen-lost", f"{ctx}: {o.exc!r}")
                else:
                    rec.check(o.exc is None and len(gen) == n, "budget", f"{ctx}: {len(gen)} generated with max_examples={n}, {o.exc!r}")
            else:
                rec.check(not gen and (o.exc is None), "no-generate", f"{ctx}: {len(gen)} generated, {o.exc!r}")


def k_shape(rec):
    """Signatures, methods, extra arguments, and invalid examples."""
    rng = rec.rng
    for _ in rec.loop(400 if rec.quick else 10_000):
        kind = rng.randrange(7)
        a, b = Mark(1), Mark(2)
        got = []
        sett = S(max_examples=3, phases=[Phase.explicit])
        if kind == 0:
            class T:
                @sett
                @example(a, b)
                @given(st.integers(), st.integers())
                def test(self, x, y):
                    got.append((x, y))
            o, want = call(T().test), [(a, b)]
        elif kind == 1:
            @sett
            @example(a)
            @example(y=b)
            @given(y=st.integers())
            def test(x, y):
                got.append((x, y))
            o, want = call(test, x=5), [(5, a), (5, b)]
            rec.check(list(inspect.signature(test).parameters) == ["x"], "signature", str(inspect.signature(test)))
        elif kind == 2:
            @sett
            @example(x=a, y=b)
            @given(st.integers(), y=st.integers()) if False else given(x=st.integers(), y=st.integers())
            def test(*, x, y):
                got.append((x, y))
            o, want = call(test), [(a, b)]
        elif kind == 3:
            @sett
            @example(x=a)
            @given(x=st.integers())
            def test(x, **kw):
                got.append((x, kw))
            o, want = call(test, z=3), [(a, {"z": 3})]
        elif kind == 4:
            @sett
            @example(a)
            @given(st.integers())
            def test(fix, x=None):
                got.append((fix, x))
            o, want = None, None
            continue
        elif kind == 5:
            exs = [Mark(i) for i in range(rng.randrange(1, 12))]

            def test(x, y):
                got.append((x, y))
            t = given(st.integers(), st.integers())(test)
            for e in reversed(exs):
                t = example(e, b)(t)
            # using the test twice runs the examples twice
            t = sett(t)
            call(t)
            o, want = call(t), [(e, b) for e in exs] * 2
        else:
            class C(unittest.TestCase):
                def setUp(self):
                    self.up = True

                @sett
                @example(x=a)
                @example(x=b)
                @given(x=st.integers())
                def test(self, x):
                    got.append((x, self.up))
            r = unittest.TestResult()
            C("test").run(r)
            rec.check(r.wasSuccessful(), "unittest", f"{r.errors} {r.failures}")
            o, want = None, [(a, True), (b, True)]
        rec.count("runs")
        rec.observed((kind, len(want)))
        rec.count("examples", len(want))
        rec.check(o is None or o.exc is None, "shape-error", f"kind {kind}: {o and o.exc!r}")
        rec.check(len(got) == len(want) and all(len(g) == len(w) and all(p is q or p == q for p, q in zip(g, w)) for g, w in zip(got, want)),
                  "shape", f"kind {kind}: {got}, expected {want}")
        # invalid ones never run anything
        ran = []

        def bad(x, y):
            ran.append((x, y))
        g = given(x=st.integers(), y=st.integers())(bad)
        for mk in (lambda: example(), lambda: example(1, y=2), lambda: example(x=1)(g), lambda: example(x=1, y=2, z=3)(g),
                   lambda: example(1, 2, 3)(g), lambda: example(1)(g), lambda: example(1, 2).xfail("x"), lambda: example(1, 2).xfail(raises=()),
                   lambda: example(1, 2).xfail(raises=3), lambda: example(1, 2).xfail(raises=(ValueError, 3)), lambda: example(1, 2).xfail(reason=3),
                   lambda: example(1, 2).via(3)):
            g = given(x=st.integers(), y=st.integers())(bad)
            o = call(lambda: S(max_examples=3)(mk())())
            rec.check(isinstance(o.exc, InvalidArgument) and not ran, "invalid", f"{inspect.getsource(mk)[:80]}: {o.exc!r}, ran {ran}")
            ran.clear()
        if rec.quick and rng.random() < 0.01:
            break
    # strategies given as values are complained about if the test then fails
    for s in (st.integers(), st.text()):
        @S(max_examples=2)
        @example(s)
        @given(st.integers())
        def t(x):
            x + 1
        o = call(t)
        rec.check(o.exc is not None and "expects to be passed values" in str(o.exc), "strategy", repr(o.exc))


def run(unit, rec):
    globals()["k_" + unit["kind"].rstrip("0123456789")](rec)
