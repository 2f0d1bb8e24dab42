"""C31: cleanup, note, event, target, assume and the test-context query are scoped to one execution."""
import contextlib
import io
import re
import threading
import unittest

from hypothesis import HealthCheck, Phase, Verbosity, assume, currently_in_test_context, event, example, find, given, note, reject, seed
from hypothesis import settings, strategies as st, target
from hypothesis.control import cleanup, current_build_context
from hypothesis.errors import InvalidArgument, NoSuchExample, Unsatisfiable
from hypothesis.internal.observability import TESTCASE_CALLBACKS
from hypothesis.stateful import RuleBasedStateMachine, initialize, rule, run_state_machine_as_test

from hv.util import HvFail, HvFail2, S, call, stable_hash

INFO = dict(
    technique="runtime monitoring: random programs of context calls (in strategies, bodies, callbacks, nested tests and threads) keep a "
              "log of what each execution registered; a monitor checks each callback, note, event and query against the execution it belongs to",
    level="exploration",
    rule="One evaluation = one execution whose context calls were checked. Non-trivial = distinct (entry point, nesting, fate, calls made).",
    floors={"cleanups": 3000, "notes_made": 1500, "notes_due": 40, "nested_runs": 100, "thread_probes": 100, "outside_probes": 100,
            "rejected": 200, "failed": 60, "interrupted": 5, "cleanup_errors": 5, "features_checked": 300},
)
KINDS = ["tests0", "tests1", "tests2", "nested0", "nested1", "verbose0", "entry0", "stateful0", "threads0"]


def units(tier, seed):
    reps = 1 if tier == "quick" else 10
    return [dict(name=f"{k}-{i}", kind=k, timeout=800) for i in range(reps) for k in KINDS]


def run(unit, rec):
    globals()["k_" + unit["kind"].rstrip("0123456789")](rec)


class CleanupError(Exception):
    pass


class CleanupExit(BaseException):
    """Not an Exception, like KeyboardInterrupt."""


class Ended(BaseException):
    pass


def leaves(e):
    return [] if e is None else [x for s in e.exceptions for x in leaves(s)] if isinstance(e, BaseExceptionGroup) else [e]


class Exec:
    def __init__(self, level, n):
        self.level, self.n, self.registered, self.ran, self.notes, self.events, self.targets = level, n, [], [], [], [], []
        self.in_body, self.fate, self.calls, self.over, self.record = False, "strategy", [], False, None


class Monitor:
    def __init__(self, rec, what):
        self.rec, self.what, self.execs, self.stack, self.n, self.bad = rec, what, [], [None], 0, []
        self.contexts = [None]

    def fail(self, sig, msg):
        if len(self.bad) < 3:
            self.bad.append(sig)
            self.rec.violation(sig, f"{self.what}: {msg}")

    # --- executions; stack[-1] is the current execution of the innermost running test
    @contextlib.contextmanager
    def test(self):
        self.stack.append(None)
        try:
            yield
        finally:
            self.finish(self.stack[-1])
            self.stack.pop()

    def finish(self, e):
        if e is None or e.over:
            return
        e.over = True
        if sorted(e.ran) != sorted(e.registered):
            self.fail("cleanup:count", f"execution {e.n} ({e.fate}) registered cleanups {e.registered} but {e.ran} ran before the next one")
        self.rec.count("cleanups", len(e.registered))
        self.rec.observed((self.what.split(" ")[0], e.level, e.fate, tuple(sorted(set(e.calls)))))
        if e.fate in ("assume", "reject"):
            self.rec.count("rejected")
        if e.fate.startswith("HvFail"):
            self.rec.count("failed")

    def start(self):
        self.finish(self.stack[-1])
        self.n += 1
        e = Exec(len(self.stack) - 1, self.n)
        self.stack[-1] = e
        self.execs.append(e)
        e.context = current_build_context()
        for o in self.stack[:-1]:
            if o is not None and o.context is e.context:
                self.fail("context:shared", f"execution {e.n} has the build context of the test around it")
        return e

    def here(self, e):
        if not currently_in_test_context():
            self.fail("context:query", f"currently_in_test_context() is False inside execution {e.n}")
        elif current_build_context() is not e.context:
            self.fail("context:wrong", f"the build context changed within execution {e.n}")

    # --- services
    def register(self, e, k, error=False):
        tag = (e.n, k)
        e.registered.append(tag)
        e.calls.append("cleanup")

        def do():
            e.ran.append(tag)
            if e.in_body or e.over:
                self.fail("cleanup:time", f"cleanup {tag} ran {'during' if e.in_body else 'after the end of'} execution {e.n}")
            if currently_in_test_context() and current_build_context() is e.context:
                self.fail("cleanup:context", f"cleanup {tag} ran inside the execution")
            if error:
                raise error(tag)
        cleanup(do)

    def say(self, e):
        t = f"note<{e.n}.{len(e.notes)}>"
        e.notes.append(t)
        e.calls.append("note")
        self.rec.count("notes_made")
        note(t)

    def outside(self, why):
        """Every service must refuse to work here."""
        self.rec.count("outside_probes")
        got = {}
        for name, f in dict(cleanup=lambda: cleanup(lambda: self.fail("cleanup:leak", f"{why}: a cleanup registered outside a test ran")),
                            note=lambda: note("leak"), event=lambda: event("leak"), target=lambda: target(1.0, label="leak"),
                            context=current_build_context).items():
            try:
                f()
                got[name] = "worked"
            except InvalidArgument:
                pass
            except BaseException as e:
                got[name] = repr(e)
        if currently_in_test_context():
            got["query"] = "True"
        if got:
            self.fail("outside", f"{why}, these should have been refused: {got}")


def act(m, e, prog, key):
    """Run a program of context calls inside execution e; ends by returning or raising."""
    e.in_body = True
    try:
        for i, (op, arg, pr) in enumerate(prog):
            if stable_hash((key, i, arg)) % 100 >= pr:
                continue
            m.here(e)
            if op == "cleanup":
                m.register(e, f"b{i}")
            elif op == "cleanup_err":
                e.calls.append(op)
                m.rec.count("cleanup_errors")
                m.register(e, f"err{i}", error=CleanupError if arg % 3 else CleanupExit)
            elif op == "note":
                m.say(e)
            elif op == "event":
                e.calls.append(op)
                e.events.append(f"ev{arg}.{e.n % 7}")
                event(f"ev{arg}.{e.n % 7}")
            elif op == "target":
                e.calls.append(op)
                lab = f"L{arg}"
                if lab in e.targets:
                    try:
                        target(1.0, label=lab)
                        m.fail("target:twice", f"label {lab} accepted twice in execution {e.n}")
                    except InvalidArgument:
                        pass
                else:
                    e.targets.append(lab)
                    target(float(stable_hash((key, arg)) % 50), label=lab)
            elif op == "thread":
                e.calls.append(op)
                m.rec.count("thread_probes")
                t = threading.Thread(target=m.outside, args=(f"in a thread started by execution {e.n}",))
                t.start()
                t.join()
            elif op == "nested":
                e.calls.append(op)
                m.rec.count("nested_runs")
                inner = arg()
                try:
                    inner()
                except (HvFail, HvFail2, Unsatisfiable, CleanupError, CleanupExit, NoSuchExample, BaseExceptionGroup):
                    pass
            elif op in ("assume", "reject"):
                e.fate = op
                (reject if op == "reject" else lambda: assume(0))()
                m.fail("assume", f"{op} returned")
            elif op == "fail":
                e.fate = "HvFail2" if arg % 2 else "HvFail"
                raise [HvFail, HvFail2][arg % 2](key)
            elif op == "interrupt":
                e.fate = "interrupt"
                m.rec.count("interrupted")
                raise [KeyboardInterrupt, unittest.SkipTest, Ended][arg % 3]()
            m.here(e)
        e.fate = "passed"
    finally:
        e.in_body = False


def program(rng, m, depth, interrupts=False, fails=None):
    ops = []
    fails = rng.random() < 0.7 if fails is None else fails
    for _ in range(rng.randint(1, 7)):
        op = rng.choice(["cleanup", "cleanup", "note", "note", "event", "target", "thread"] + ["nested"] * (2 if depth else 0))
        if op == "thread":
            ops.append((op, rng.randrange(5), 5))
        elif op == "nested":
            ops.append((op, maker(rng, m, depth - 1), 30))
        else:
            ops.append((op, rng.randrange(3), rng.choice([30, 70, 100])))
    for op, ps in [("assume", [0, 10, 40]), ("reject", [0, 10]), ("cleanup_err", [0, 0, 0, 1, 3])] + [("fail", [2, 5, 20, 50])] * fails + \
            [("interrupt", [1, 5])] * interrupts:
        if p := rng.choice(ps):
            ops.insert(rng.randint(0, len(ops)), (op, rng.randrange(6), p))
    return ops


def wrap(rng, m, s):
    """A strategy that makes context calls while drawing."""
    k = rng.randrange(6)

    def poke(v):
        e = m.stack[-1]
        m.here(e)
        m.register(e, f"d{len(e.registered)}")
        if k % 2:
            m.say(e)
        return v
    if k == 0:
        return s.map(poke)
    if k == 1:
        return s.filter(lambda v: (poke(v), stable_hash(repr(v)) % 5 != 0)[1])
    if k == 2:
        return s.flatmap(lambda v: st.just(poke(v)))
    if k == 3:
        return st.builds(poke, s)
    if k == 4:
        @st.composite
        def comp(draw):
            poke(0)
            v = draw(s)
            return poke(v)
        return comp()
    return s


def maker(rng, m, depth):
    """Builds (but does not run) a test with a random program: returns a function giving a callable."""
    prog = program(rng, m, depth)
    sd, s = rng.randrange(2**32), wrap(rng, m, rng.choice([st.integers(), st.text(max_size=3), st.lists(st.booleans(), max_size=3)]))

    def make():
        @seed(sd)
        @settings(max_examples=4, database=None, deadline=None, suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink])
        @given(st.builds(m.start), s)
        def inner(e, x):
            act(m, e, prog, repr(x))

        def go():
            with m.test():
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    inner()
        return go
    return make


def run_top(m, rng, prog, s, explicit=0, **S_kw):
    @given(st.builds(m.start), s)
    def t(e, x):
        if e is None:
            e = m.start()
        act(m, e, prog, repr(x))
    t = seed(rng.randrange(2**32))(t)
    for i in range(explicit):
        t = example(None, i)(t)
    t = S(**S_kw)(t)
    with m.test():
        return call(t)


def check_notes(rec, m, o, level=1, verbose=False, quiet=False):
    """Notes in the report belong to executions that the report is about, complete and in order."""
    text = o.out + "\n".join("\n".join(getattr(x, "__notes__", ())) for x in all_excs(o.exc))
    shown = re.findall(r"note<(\d+)\.(\d+)>", text)
    top = [e for e in m.execs if e.level == level]
    by = {e.n: e for e in top}
    seen = {}
    for n, i in shown:
        seen.setdefault(int(n), []).append(f"note<{n}.{i}>")
    if verbose:
        for e in top:
            if seen.get(e.n, []) != e.notes:
                m.fail("note:verbose", f"execution {e.n} ({e.fate}) made notes {e.notes}, printed at verbose level: {seen.get(e.n, [])}")
        return
    rec.count("notes_due", sum(map(len, seen.values())))
    for n, got in seen.items():
        if n not in by:
            m.fail("note:leak", f"notes {got} of a nested execution were reported for the outer test")
            continue
        if not by[n].fate.startswith("HvFail") and not any(r[1].startswith("err") for r in by[n].registered):
            m.fail("note:fate", f"notes of execution {n}, which ended with {by[n].fate}, were printed: {got}")
        if got != by[n].notes:
            m.fail("note:order", f"execution {n} made notes {by[n].notes} but {got} were printed")
    fails = [x for x in leaves(o.exc) if isinstance(x, (HvFail, HvFail2))]
    finals = [n for n in seen]
    if len(finals) > max(1, len(leaves(o.exc))):
        m.fail("note:many", f"notes of executions {finals} printed for {len(leaves(o.exc))} failures")
    # the last execution that failed like the reported error is the one that is being reported
    if fails and not quiet and not any(r[1].startswith("err") for e in top for r in e.registered):
        for x in fails:
            last = [e for e in top if e.fate == type(x).__name__]
            if last and last[-1].notes and last[-1].n not in seen:
                m.fail("note:missing", f"the failure {x!r} was reported without the notes {last[-1].notes} of its final execution {last[-1].n} "
                       f"(printed: {seen})")


def all_excs(e):
    return [] if e is None else [e] + [x for s in getattr(e, "exceptions", ()) for x in all_excs(s)]


def watch_features(m):
    def cb(r):
        if r["type"] != "test_case" or r["property"] != "t":
            return
        e = next((e for e in reversed(m.execs) if e.level == 1), None)
        if e is None or e.record is not None or e.fate == "strategy":
            return
        e.record = r
        m.rec.count("features_checked")
        f = {k for k in r["features"] if not k.startswith("Retried")}
        want = set(e.events) | {f"target:{l}" for l in e.targets}
        if f != want:
            m.fail("features", f"execution {e.n} made events/targets {sorted(want)} but the record has {sorted(f)}")
    return cb


PH = [Phase.explicit, Phase.generate, Phase.target, Phase.shrink]


def k_tests(rec, depth=0, verbose=False):
    rng = rec.rng
    for j in rec.loop(120, 9):
        m = Monitor(rec, f"test{depth}")
        prog = program(rng, m, depth, interrupts=rng.random() < 0.15)
        s = wrap(rng, m, rng.choice([st.integers(0, 200), st.text(max_size=3), st.lists(st.integers(0, 9), max_size=4)]))
        m.what = f"test (depth {depth}) with program {[(a, b if not callable(b) else '', c) for a, b, c in prog]}"
        cb = watch_features(m)
        v = Verbosity.verbose if verbose else Verbosity.quiet if rng.random() < 0.1 else Verbosity.normal
        on = j % 4 == 0
        if on:
            import sys
            TESTCASE_CALLBACKS.append(cb)
            sys.monitoring.use_tool_id(3, "hv")
        try:
            o = run_top(m, rng, prog, s, explicit=rng.choice([0, 0, 2]), max_examples=rng.choice([5, 20]), phases=PH,
                        report_multiple_bugs=rng.random() < 0.6,
                        verbosity=v)
        finally:
            if on:
                TESTCASE_CALLBACKS.remove(cb)
                sys.monitoring.free_tool_id(3)
        m.outside("after the run")
        if isinstance(o.exc, (KeyboardInterrupt, Ended, CleanupExit, unittest.SkipTest)):
            continue
        if not any(e.fate.startswith("HvFail") and e.level == 1 for e in m.execs) and any(
                isinstance(x, (HvFail, HvFail2)) for x in leaves(o.exc)):
            m.fail("nested:leak", f"the run ended with {o.exc!r} although no execution of the outer test failed")
        if any(type(x).__name__ in ("UnsatisfiedAssumption", "StopTest") for x in leaves(o.exc)):
            m.fail("assume:leak", f"the run ended with {o.exc!r}")
        check_notes(rec, m, o, verbose=verbose, quiet=v == Verbosity.quiet)


def k_nested(rec):
    k_tests(rec, depth=2)


def k_verbose(rec):
    k_tests(rec, depth=0, verbose=True)


def k_entry(rec):
    """find(), .example(), fuzz_one_input, and direct calls of the inner test."""
    import warnings
    warnings.simplefilter("ignore")
    rng = rec.rng
    for j in rec.loop(80, 9):
        kind = ["find", "example", "fuzz"][j % 3]
        m = Monitor(rec, kind)
        s = st.tuples(st.builds(m.start), wrap(rng, m, st.integers(0, 100)))
        if kind == "find":
            thr = rng.randrange(150)

            def cond(v):
                e = v[0]
                e.in_body = True
                try:
                    m.here(e)
                    m.register(e, "c")
                    m.say(e)
                    if v[1] % 7 == 6:
                        e.fate = "reject"
                        reject()
                    e.fate = "passed"
                    return v[1] >= thr
                finally:
                    e.in_body = False
            with m.test():
                o = call(find, s, cond, settings=S(max_examples=50), random=rng)
            if o.exc is not None and not isinstance(o.exc, NoSuchExample):
                m.fail("find", f"find raised {o.exc!r}")
            elif o.exc is None and (o.value[1] < thr or o.value[1] % 7 == 6):
                m.fail("find:rejected", f"find returned the rejected value {o.value!r}")
        elif kind == "example":
            with m.test():
                o = call(s.example)
            if o.exc is not None:
                m.fail("example", f".example() raised {o.exc!r}")
        else:
            prog = program(rng, m, 0)

            @given(st.builds(m.start), s.map(lambda t: t[1]) if False else wrap(rng, m, st.integers(0, 100)))
            def t(e, x):
                act(m, e, prog, repr(x))
            t._hypothesis_internal_use_settings = S(max_examples=5)
            fz = t.hypothesis.fuzz_one_input
            with m.test():
                for _ in range(10):
                    n0 = m.n
                    o = call(fz, rng.randbytes(rng.choice([0, 3, 30])))
                    if m.n - n0 > 1:
                        m.fail("fuzz:many", "one buffer led to several executions")
                    e = m.execs[-1] if m.n > n0 else None
                    want = e is not None and e.fate in ("assume", "reject", "strategy") and not any(r[1].startswith("err") for r in e.registered)
                    if want and not (o.exc is None and o.value is None):
                        m.fail("fuzz:rejected", f"a rejected execution led to {o.exc!r} / {o.value!r}")
        m.outside(f"after {kind}")


def k_stateful(rec):
    rng = rec.rng
    for j in rec.loop(40, 9):
        m = Monitor(rec, "stateful")
        prog, pf = program(rng, m, 0, fails=False), rng.choice([0, 2, 10])
        prog = [p for p in prog if p[0] not in ("assume", "reject")]
        key = rng.randrange(10**6)

        class M(RuleBasedStateMachine):
            def __init__(self):
                super().__init__()
                self.e = m.start()
                m.register(self.e, "init")
                self.k = 0

            @initialize(x=wrap(rng, m, st.integers(0, 5)))
            def i(self, x):
                self.step("i", x)

            @rule(x=wrap(rng, m, st.integers(0, 5)))
            def a(self, x):
                self.step("a", x)

            @rule(x=st.integers(0, 50))
            def b(self, x):
                self.step("b", x)
                if stable_hash((key, x)) % 100 < pf:
                    self.e.fate = "HvFail"
                    raise HvFail(x)
                if x % 9 == 8:
                    self.e.fate = "reject"
                    reject()

            def step(self, n, x):
                # the machine's own targets may be repeated across rules: labels are tracked by execution
                self.k += 1
                self.e.in_body = True
                act(m, self.e, prog, (n, x, self.k))
                self.e.in_body = True

            def teardown(self):
                m.here(self.e)
                m.register(self.e, "down")
                self.e.in_body = False
        with m.test():
            o = call(run_state_machine_as_test, M, settings=S(max_examples=15, stateful_step_count=6, phases=PH, verbosity=Verbosity.normal))
        m.outside("after a state machine")
        bad = [x for x in leaves(o.exc) if not isinstance(x, (HvFail, CleanupError, CleanupExit, Unsatisfiable))]
        if bad:
            m.fail("stateful", f"the machine run ended with {bad[0]!r}")
        check_notes(rec, m, o)


def separate(rng, m, prog, s):
    @seed(rng.randrange(2**32))
    @given(st.builds(m.start), s)
    def t(e, x):
        act(m, e, prog, repr(x))
    return S(max_examples=30, phases=PH)(t)


def k_threads(rec):
    """Different tests in different threads at the same time."""
    import sys
    rng = rec.rng
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        for _ in rec.loop(12, 9):
            runs = []
            for i in range(3):
                m = Monitor(rec, f"thread{i}")
                prog = [p for p in program(rng, m, 0) if p[0] not in ("thread", "interrupt")]
                s = wrap(rng, m, st.integers(0, 200))

                m.n = i * 10**6
                runs.append((m, separate(rng, m, prog, s)))
            errs = {}

            def go(m, t):
                with m.test():
                    try:
                        t()
                    except BaseException as e:
                        errs[m.what] = e
            with contextlib.redirect_stdout(io.StringIO()):
                ts = [threading.Thread(target=go, args=r) for r in runs]
                [t.start() for t in ts]
                [t.join() for t in ts]
            rec.count("concurrent_runs", 3)
            for m, t in runs:
                bad = [x for x in leaves(errs.get(m.what)) if not isinstance(x, (HvFail, HvFail2, CleanupError, CleanupExit, Unsatisfiable))]
                if bad:
                    m.fail("threads", f"running next to other tests ended with {bad[0]!r}")
                notes = "\n".join("\n".join(getattr(x, "__notes__", ())) for x in all_excs(errs.get(m.what)))
                mine = {n for e in m.execs for n in e.notes}
                if alien := set(re.findall(r"note<[^>]*>", notes)) - mine:
                    m.fail("threads:notes", f"notes {alien} of another thread")
    finally:
        sys.setswitchinterval(old)
