"""C28: alternative backends get consistent requests and cannot corrupt a run."""
import contextlib
import math
import random

from hypothesis import HealthCheck, Phase, given, seed, strategies as st
from hypothesis.control import current_build_context
from hypothesis.database import InMemoryExampleDatabase
from hypothesis.errors import BackendCannotProceed, Flaky, Unsatisfiable
from hypothesis.internal.conjecture.choice import choice_permitted
from hypothesis.internal.conjecture.providers import AVAILABLE_PROVIDERS
from hypothesis.internal.observability import TESTCASE_CALLBACKS
from hypothesis.stateful import run_state_machine_as_test

from hv.machines import Machine
from hv.programs import Program, failures, leaves
from hv.trees import canon, tree
from hv.util import FIRED, ExtremeProvider, HvFail, S, call, replay_gives, time_limit

INFO = dict(
    technique="runtime monitoring: a logging backend (valid, giving up, exhausting, verifying, unreproducible; per test case or per function; "
              "with avoid_realization) watches every request made to it, and a monitor relates the log to what the test received and reported",
    level="exploration",
    rule="One evaluation = one request, test case or run checked. Non-trivial = distinct (scenario, test, outcome).",
    floors={"requests": 20000, "cases": 3000, "values_compared": 1500, "failing_runs": 30, "giveups": 200, "claims": 20, "flaky_runs": 10,
            "replays": 200, "spans": 20000, "machine_runs": 8},
)
KINDS = ["requests0", "requests1", "failures0", "failures1", "giveup0", "final0", "flaky0", "machines0"]
NAME = "hv-watch"


def units(tier, seed):
    reps = 1 if tier == "quick" else 10
    return [dict(name=f"{k}-{i}", kind=k, timeout=800) for i in range(reps) for k in KINDS]


def run(unit, rec):
    globals()["k_" + unit["kind"].rstrip("0123456789")](rec)


class Log:
    """What happened to the backend during one run."""

    def __init__(self, rng, lifetime="test_function", avoid=False, giveup=None, p=0.0, style=None):
        self.rng, self.giveup, self.p, self.style = rng, giveup, p, style
        self.bad, self.cases, self.depth, self.in_case, self.draws, self.spans = [], [], 0, False, [], 0
        self.claimed, self.after_claim, self.requests, self.giveups, self.instances = None, 0, 0, 0, 0
        self.lifetime, self.avoid = lifetime, avoid

    def wrong(self, msg):
        if len(self.bad) < 3:
            self.bad.append(msg)


LOG = None


class Watch(ExtremeProvider):
    """Answers like ExtremeProvider (or plainly at random), logs and checks every request."""

    def __init__(self, cd, /):
        super().__init__(cd)
        self.log = LOG
        self.r, self.style = LOG.rng, LOG.style
        LOG.instances += 1
        self.depth = 0
        if cd is not None and LOG.lifetime == "test_function":
            LOG.wrong(f"a provider with lifetime {LOG.lifetime} was given {cd!r}")

    @contextlib.contextmanager
    def per_test_case_context_manager(self):
        log = self.log
        if log.in_case:
            log.wrong("a test case was started inside another one")
        log.in_case, log.draws = True, []
        # the outermost span is begun with the test case; one more may belong to a test case that was never run
        if not 1 <= self.depth <= (1 if self._cd else 2):
            log.wrong(f"{self.depth} spans were open when a test case was started")
        log.cases.append(log.draws)
        self.giveup_at = log.rng.choice([0, 0, 1, 2, 5, 20]) if log.giveup and log.rng.random() < log.p else None
        if self.giveup_at == 0 and log.rng.random() < 0.3:
            log.in_case = False
            self.give_up()
        try:
            with super().per_test_case_context_manager():
                yield
        finally:
            log.in_case = False

    def give_up(self):
        self.log.giveups += 1
        if self.log.giveup in ("exhausted", "verified"):
            self.log.claimed = self.log.claimed or self.log.giveup
        self.giveup_at = None
        raise BackendCannotProceed(self.log.giveup)

    def request(self, kind, ok, what):
        log = self.log
        log.requests += 1
        if log.claimed:
            log.after_claim += 1
        if not log.in_case:
            log.wrong(f"{kind} was requested outside the test-case context")
        if self.depth < 1:
            log.wrong(f"{kind} was requested outside all spans")
        if not ok:
            log.wrong(f"invalid request {kind}: {what}")
        if self.giveup_at is not None:
            self.giveup_at -= 1
            if self.giveup_at <= 0:
                self.give_up()

    def gave(self, v):
        self.log.draws.append(v)
        return v

    def draw_boolean(self, p=0.5):
        self.request("boolean", isinstance(p, (int, float)) and 0 <= p <= 1, p)
        return self.gave(super().draw_boolean(p))

    def draw_integer(self, min_value=None, max_value=None, *, weights=None, shrink_towards=0):
        ok = (min_value is None or type(min_value) is int) and (max_value is None or type(max_value) is int) and type(shrink_towards) is int
        ok = ok and (min_value is None or max_value is None or min_value <= max_value)
        if weights is not None:
            ok = ok and min_value is not None and max_value is not None and all(min_value <= k <= max_value for k in weights) and \
                all(0 <= w <= 1 for w in weights.values()) and sum(weights.values()) <= 1 + 1e-9
        self.request("integer", ok, (min_value, max_value, weights, shrink_towards))
        return self.gave(super().draw_integer(min_value, max_value, weights=weights, shrink_towards=shrink_towards))

    def draw_float(self, *, min_value=-math.inf, max_value=math.inf, allow_nan=True, smallest_nonzero_magnitude):
        snm = smallest_nonzero_magnitude
        ok = all(type(x) is float for x in (min_value, max_value, snm)) and type(allow_nan) is bool and snm > 0 and min_value <= max_value
        ok = ok and not (min_value == max_value == 0 and math.copysign(1, min_value) > math.copysign(1, max_value))
        ok = ok and (min_value <= 0 <= max_value or max(abs(min_value), abs(max_value)) >= snm)
        self.request("float", ok, (min_value, max_value, allow_nan, snm))
        v = super().draw_float(min_value=min_value, max_value=max_value, allow_nan=allow_nan, smallest_nonzero_magnitude=snm)
        if ok and not choice_permitted(v, dict(min_value=min_value, max_value=max_value, allow_nan=allow_nan, smallest_nonzero_magnitude=snm)):
            v = next(x for x in (min_value, max_value, 0.0, -0.0, snm, -snm) if choice_permitted(x, dict(
                min_value=min_value, max_value=max_value, allow_nan=allow_nan, smallest_nonzero_magnitude=snm)))
        return self.gave(v)

    def draw_string(self, intervals, *, min_size=0, max_size=10**10):
        self.request("string", 0 <= min_size <= max_size and (len(intervals) > 0 or min_size == 0), (intervals, min_size, max_size))
        return self.gave(super().draw_string(intervals, min_size=min_size, max_size=max_size))

    def draw_bytes(self, min_size=0, max_size=10**10):
        self.request("bytes", 0 <= min_size <= max_size, (min_size, max_size))
        return self.gave(super().draw_bytes(min_size, max_size))

    def span_start(self, label, /):
        self.log.spans += 1
        if type(label) is not int:
            self.log.wrong(f"span label {label!r}")
        self.depth += 1

    def span_end(self, discard, /):
        self.depth -= 1
        if type(discard) is not bool:
            self.log.wrong(f"span_end({discard!r})")
        if self.depth < 0:
            self.log.wrong("more spans were ended than begun")
            self.depth = 0

    def realize(self, v):
        if self.log.avoid and self.giveup_at is not None and self.log.rng.random() < 0.02:
            self.give_up()
        return v


class WatchCase(Watch):
    lifetime = "test_case"


class WatchAvoid(Watch):
    avoid_realization = True


AVAILABLE_PROVIDERS[NAME] = "checks.c28.Watch"
AVAILABLE_PROVIDERS[NAME + "-case"] = "checks.c28.WatchCase"
AVAILABLE_PROVIDERS[NAME + "-avoid"] = "checks.c28.WatchAvoid"


def new_log(rng, giveup=None, p=0.0, kinds=("", "-case", "-avoid")):
    global LOG
    k = rng.choice(kinds)
    LOG = Log(rng, lifetime="test_case" if k == "-case" else "test_function", avoid=k == "-avoid", giveup=giveup, p=p,
              style=rng.choice([None, None, "any", "wild"]))
    return LOG, NAME + k


def settle(rec, log, what):
    """Report what the log complained about."""
    rec.count("requests", log.requests)
    rec.count("spans", log.spans)
    rec.count("cases", len(log.cases))
    rec.count("giveups", log.giveups)
    for b in log.bad[:2]:
        rec.violation("request:" + b.split(":")[0][:40], f"{what}: {b}")


PH = [Phase.explicit, Phase.reuse, Phase.generate, Phase.target, Phase.shrink]


def k_requests(rec):
    """Valid backend: consistent requests, balanced spans, values reach the test unchanged and replay."""
    rng = rec.rng
    for _ in rec.loop(150, 9):
        node = tree(rng, rng.choice([0, 1, 1, 2]))
        log, backend = new_log(rng)
        seen = []

        def t(v):
            d = current_build_context().data
            seen.append((list(d.nodes), list(log.draws), canon(v), v, d.provider, node.complaint(v)))
        sett = S(max_examples=rng.choice([5, 25]), backend=backend, phases=PH)
        with time_limit(5):
            o = call(sett(given(node.strategy)(t)))
        if FIRED:
            continue
        what = f"{node.desc} with {backend}"
        settle(rec, log, what)
        if o.exc is not None and not isinstance(o.exc, Unsatisfiable):
            rec.violation("run:failed", f"{what}: {o.exc!r}")
            continue
        for nodes, draws, c, v, prov, complaint in seen:
            rec.observed((node.desc, c))
            rec.count("values_compared")
            if complaint and not log.avoid:
                rec.violation("value:invalid", f"{what}: {complaint} from choices {[n.value for n in nodes]}")
            if isinstance(prov, Watch):
                mine = [n.value for n in nodes if not n.was_forced]
                if [canon(x) for x in mine] != [canon(x) for x in draws]:
                    rec.violation("value:changed", f"{what}: the backend returned {draws} but the test case was made of {mine}")
                if prov.depth > 0 and (log.lifetime == "test_case" or prov.depth > 1):
                    rec.violation("spans:open", f"{what}: {prov.depth} spans were never ended")
        for nodes, draws, c, v, prov, _c in seen[:3]:
            got = [canon(x) for x in replay_gives(node.strategy, tuple(n.value for n in nodes))]
            rec.count("replays")
            if c not in got:
                rec.violation("value:replay", f"{what}: the test received {c} but its choices {[n.value for n in nodes]} replay as {got}")


def k_failures(rec):
    """Failures found by the backend are replayed, shrunk and reported as usual."""
    rng = rec.rng
    for _ in rec.loop(100, 9):
        p = Program(rng, nfail=rng.choice([1, 2, 3]), fail=rng.choice([0.1, 0.3, 1.0]), randoms=False, mutate=False)
        log, backend = new_log(rng)
        ex, db = [], InMemoryExampleDatabase()
        t = p.make(ex, S(max_examples=30, backend=backend, phases=PH, database=db, report_multiple_bugs=rng.random() < 0.7), name="t")
        with time_limit(8):
            o = call(t)
        if FIRED:
            continue
        what = f"{p.desc} with {backend}"
        settle(rec, log, what)
        f = failures(ex)
        rec.observed((p.desc, backend, len(f)))
        if not f:
            if o.exc is not None and not isinstance(o.exc, Unsatisfiable):
                rec.violation("failures:spurious", f"{what}: nothing failed but the run ended with {o.exc!r}")
            continue
        rec.count("failing_runs")
        got = leaves(o.exc, ex) if o.exc is not None else []
        if not got:
            rec.violation("failures:lost", f"{what}: {len(f)} failures were seen but the run passed")
            continue
        if not all(any(e.exc is x for e in ex) for x in got):
            rec.violation("failures:foreign", f"{what}: reported {got!r}, which no execution raised")
            continue
        for x in got:
            final = [e for e in ex if e.exc is x][-1]
            og = final.origin
            first = f[og][0]
            if first.complexity < final.complexity:
                rec.violation("failures:unshrunk", f"{what}: reported {final!r} although {first!r} was seen and is simpler")
            if len(f[og]) == 2 and final.complexity == first.complexity and first.nodes and p.failp == 1.0 and not p.rejectp and len(f) == 1:
                rec.violation("failures:noshrink", f"{what}: {final!r} was never shrunk")
        # the saved failure fails without the backend
        ex2 = []
        t2 = p.make(ex2, S(max_examples=30, phases=[Phase.reuse], database=db, backend="hypothesis"), name="t")
        t2.hypothesis.inner_test.__code__  # same function text, so the same database key
        with time_limit(4):
            o2 = call(t2)
        if FIRED:
            continue
        rec.count("replays")
        if o2.exc is None:
            rec.violation("failures:unsaved", f"{what}: the failure {got!r} was not found again from the database by the default backend")


def k_giveup(rec):
    """A backend that gives up on a test case discards exactly that test case."""
    rng = rec.rng
    for _ in rec.loop(150, 9):
        failing = rng.random() < 0.4
        scope = rng.choice(["discard_test_case", "discard_test_case", "other"])
        log, backend = new_log(rng, giveup=scope, p=rng.choice([0.05, 0.3, 0.9, 1.0]))
        n, done = rng.choice([5, 30]), []
        thr = rng.choice([0, 10, 200])

        def t(a, b, c):
            v = (a, tuple(b), c)
            done.append(v)
            if failing and a >= thr:
                raise HvFail(a)
        s = dict(a=st.integers(-10**9, 10**9), b=st.lists(st.integers(0, 2**40), max_size=4), c=st.floats())
        obs = rng.random() < 0.2
        recs = []
        if obs:
            TESTCASE_CALLBACKS.append(recs.append)
        try:
            o = call(S(max_examples=n, backend=backend, phases=PH)(given(**s)(t)))
        finally:
            if obs:
                TESTCASE_CALLBACKS.remove(recs.append) if recs.append in TESTCASE_CALLBACKS else TESTCASE_CALLBACKS.clear()
        what = f"giving up ({scope}, p={log.p}) with {backend}, failing={failing} from {thr}, max_examples={n}"
        settle(rec, log, what)
        rec.observed((scope, log.p, backend, failing, thr, n, len(done)))
        bad = [v for v in done if failing and v[0] >= thr]
        if not bad:
            if o.exc is not None:
                rec.violation("giveup:failed", f"{what}: nothing failed but the run ended with {o.exc!r}")
            elif len(done) < n:
                rec.violation("giveup:short", f"{what}: only {len(done)} test cases completed ({log.giveups} were given up)")
            elif len(done) > n + log.giveups:
                rec.violation("giveup:long", f"{what}: {len(done)} test cases completed ({log.giveups} were given up)")
        elif not isinstance(o.exc, HvFail):
            # realizing a failing test case may itself be given up
            if not (log.avoid and o.exc is None):
                rec.violation("giveup:lost", f"{what}: {bad[:3]} failed but the run ended with {o.exc!r}")
        elif bad[-1] != (thr, (), 0.0) and not any(x != x for x in [bad[-1][2]]) and thr >= 0 and bad[-1][0] != thr:
            rec.violation("giveup:unshrunk", f"{what}: reported {bad[-1]}")


def k_final(rec):
    """'exhausted' and 'verified' end the backend's part; a failure after 'verified' is blamed on the backend."""
    rng = rec.rng
    for _ in rec.loop(150, 9):
        failing = rng.random() < 0.6
        scope = rng.choice(["exhausted", "verified"])
        log, backend = new_log(rng, giveup=scope, p=rng.choice([0.1, 0.5, 1.0]))
        n, done, only_default = rng.choice([10, 50]), [], rng.random() < 0.6

        def t(a):
            w = isinstance(current_build_context().data.provider, Watch)
            done.append((w, a))
            if failing and a % 5 == 0 and not (only_default and w):
                raise HvFail(a)
        # a failure that the backend's own executions never show must come from the default backend, after the claim
        o = call(S(max_examples=n, backend=backend, phases=PH)(given(st.integers(0, 10**9))(t)))
        what = f"backend claims {scope} (p={log.p}) with {backend}, failing={failing}, max_examples={n}"
        settle(rec, log, what)
        rec.observed((scope, log.p, backend, failing, n, len(done)))
        if log.claimed:
            rec.count("claims")
            if log.after_claim:
                rec.violation("final:asked", f"{what}: the backend got {log.after_claim} more requests")
        fails = [a for w, a in done if failing and a % 5 == 0 and not (only_default and w)]
        if not fails:
            if o.exc is not None:
                rec.violation("final:failed", f"{what}: nothing failed but the run ended with {o.exc!r}")
            elif len(done) < n:
                rec.violation("final:short", f"{what}: only {len(done)} test cases completed")
            continue
        if not isinstance(o.exc, HvFail):
            rec.violation("final:lost", f"{what}: {fails[:3]} failed but the run ended with {o.exc!r}")
            continue
        note = any(f"backend={backend!r} claimed to verify" in x for x in getattr(o.exc, "__notes__", ()))
        if note != (log.claimed == "verified"):
            rec.violation("final:blame", f"{what}: claim {log.claimed}; notes {getattr(o.exc, '__notes__', None)}")
        if fails[-1] != 0 and not (only_default and any(w and a == 0 for w, a in done)):
            rec.violation("final:unshrunk", f"{what}: reported {fails[-1]}, although 0 fails")


def k_flaky(rec):
    """A failure that only happens under the backend is reported as such."""
    rng = rec.rng
    for _ in rec.loop(60, 6):
        log, backend = new_log(rng)
        how = rng.choice(["pass", "reject", "deeper"])
        done = []

        def t(data):
            a = data.draw(st.integers(0, 10**6))
            w = isinstance(current_build_context().data.provider, Watch)
            done.append((w, a))
            if w:
                if a % 3 == 0:
                    raise HvFail(a)
            elif how == "reject":
                from hypothesis import reject
                reject()
            elif how == "deeper":
                for _i in range(20):
                    data.draw(st.integers(0, 5))
        o = call(S(max_examples=20, backend=backend, phases=PH)(given(st.data())(t)))
        what = f"failing only under the backend ({how}) with {backend}"
        settle(rec, log, what)
        failed = [a for w, a in done if w and a % 3 == 0]
        rec.observed((how, backend, bool(failed), len(done)))
        if not failed:
            continue
        rec.count("flaky_runs")
        e = o.exc
        if not isinstance(e, Flaky):
            rec.violation("flaky:report", f"{what}: {failed[:3]} failed only under the backend, and the run ended with {e!r}")
        else:
            text = str(e) + "".join(map(str, getattr(e, "exceptions", ()))) + "".join(getattr(e, "__notes__", ()))
            if repr(backend) not in text or "Inconsistent" not in text:
                rec.violation("flaky:text", f"{what}: the report does not name the backend: {text!r}")


def k_machines(rec):
    rng = rec.rng
    for _ in rec.loop(25, 9):
        m = Machine(rng, fail=rng.choice([0, 0.1, 0.3]), rejects=rng.random() < 0.5)
        cls = m.make("M")
        log, backend = new_log(rng, kinds=("", "-case"))
        with time_limit(8):
            o = call(run_state_machine_as_test, cls, settings=S(max_examples=15, stateful_step_count=8, backend=backend, phases=PH))
        if FIRED:
            continue
        rec.count("machine_runs")
        rec.observed(("machine", backend, type(o.exc).__name__, len(m.traces)))
        what = f"state machine with {backend}"
        settle(rec, log, what)
        for tr in m.traces[:40]:
            if msg := m.judge(tr, 8):
                rec.violation("machine", f"{what}: {msg}")
