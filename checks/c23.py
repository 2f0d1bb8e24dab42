"""C23: settings resolve by documented precedence and validate every value."""
import math
import os
import subprocess
import sys
import tempfile
import threading
import unittest
from datetime import timedelta

from hypothesis import HealthCheck, Phase, Verbosity, given, settings, strategies as st
from hypothesis.configuration import set_hypothesis_home_dir
from hypothesis.database import ExampleDatabase, InMemoryExampleDatabase
from hypothesis.internal.conjecture.providers import AVAILABLE_PROVIDERS
from hypothesis.stateful import RuleBasedStateMachine, rule

from hv.util import captured

INFO = dict(
    technique="runtime monitoring: random histories of creating, registering, loading and nesting settings, with every option of "
              "every settings object ever made compared after each step with a model of the documented precedence; tests, threads, "
              "state machines and subprocesses report the settings in force inside them",
    level="exploration",
    rule="One evaluation = one operation whose effect on all live settings objects was compared with the model. Non-trivial = "
         "distinct (history, operation).",
    floors={"ops": 1000, "objects_checked": 10_000, "invalid": 150, "inside": 60, "threads": 15, "deadlines": 1000, "subprocesses": 4},
)
KINDS = ["history0", "history1", "history2", "values0", "process0"]
OPTIONS = ["max_examples", "derandomize", "database", "verbosity", "phases", "stateful_step_count", "report_multiple_bugs",
           "suppress_health_check", "deadline", "print_blob", "backend"]
DB = "the default database"


def units(tier, seed):
    reps = 1 if tier == "quick" else 8
    return [dict(name=f"{k}-{i}", kind=k, timeout=800) for i in range(reps) for k in KINDS]


def run(unit, rec):
    with captured():
        globals()["k_" + unit["kind"].rstrip("0123456789")](rec)


DBS = [InMemoryExampleDatabase() for _ in range(3)]


def rvalue(rng, opt):
    """(value given, value to be stored)"""
    if opt in ("max_examples", "stateful_step_count"):
        v = rng.choice([1, 2, 5, 1000, 10**20])
        return v, v
    if opt in ("derandomize", "report_multiple_bugs", "print_blob"):
        v = rng.random() < 0.5
        return v, v
    if opt == "database":
        v = rng.choice([None, *DBS])
        return v, v
    if opt == "verbosity":
        v = rng.choice(list(Verbosity))
        return v, v
    if opt == "phases":
        v = [rng.choice(list(Phase)) for _ in range(rng.randrange(8))]
        return rng.choice([tuple, list, set, frozenset, iter])(v), tuple(p for p in Phase if p in v)
    if opt == "suppress_health_check":
        v = [rng.choice(list(HealthCheck)) for _ in range(rng.randrange(4))]
        return rng.choice([tuple, list, iter])(v), tuple(v)
    if opt == "backend":
        return (v := rng.choice(["hypothesis", "hypothesis-urandom"])), v
    v = rng.choice([None, 1, 0.5, 200, 10**6, 1.25, timedelta(milliseconds=3), timedelta(days=100_000, microseconds=1), timedelta.max,
                    timedelta(microseconds=rng.randrange(1, 10**15)), rng.randrange(1, 10**9), rng.random() * 1000 + 0.01])
    return v, v if v is None or isinstance(v, timedelta) else timedelta(milliseconds=v)


class Weird:
    def __eq__(self, o):
        return False

    __hash__ = None


INVALID = {
    "max_examples": [0, -1, 1.0, "5", None, math.inf, [], Weird()],
    "stateful_step_count": [0, -1, 1.0, "5", None, math.nan],
    "derandomize": [None, "yes", 2, [], "", Weird()],
    "report_multiple_bugs": [None, "yes", 2, []],
    "print_blob": [None, "infer", 2, "False"],
    "database": ["", ".hypothesis", 0, {}, [], InMemoryExampleDatabase, False],
    "verbosity": [None, "normal", -1, 7, "verbose", Verbosity],
    "phases": [["generate"], [None], "generate", [0], None, 5, [Phase.generate, HealthCheck.too_slow], Phase.generate],
    "suppress_health_check": [["too_slow"], [None], HealthCheck.too_slow, "too_slow", None, 1, [Phase.generate]],
    "deadline": [0, -1, -0.5, 0.0, timedelta(0), timedelta(-1), True, False, "200", [], math.nan, math.inf, -math.inf, 10**30, 1e300],
    "backend": [None, "nope", "", 0, [], "Hypothesis"],
}


def k_values(rec):
    rng = rec.rng
    for opt, bads in INVALID.items():
        for v in bads:
            for how in (settings, lambda **k: settings(settings(), **k), lambda **k: settings.register_profile("bad", **k)):
                try:
                    got = how(**{opt: v})
                except Exception:
                    rec.count("invalid")
                else:
                    rec.violation("invalid-accepted", f"settings({opt}={v!r}) was accepted: {got!r}")
                rec.check("bad" not in settings._profiles, "invalid-registered", f"register_profile with {opt}={v!r} registered something")
                rec.observed((opt, repr(type(v)), repr(v)[:40]))
    for name in (None, 1, b"x", [], settings):
        for f in (settings.register_profile, settings.get_profile, settings.load_profile):
            try:
                f(name)
            except Exception:
                rec.count("invalid")
            else:
                rec.violation("profile-name", f"{f.__name__}({name!r}) was accepted")
    for bad in (1, "x", {}, object(), settings):
        try:
            settings(bad)
        except Exception:
            rec.count("invalid")
        else:
            rec.violation("invalid-parent", f"settings({bad!r}) was accepted")
    for kw in ({"nonsense": 1}, {"max_example": 1}, {"parent_": None}):
        try:
            settings(**kw)
        except TypeError:
            rec.count("invalid")
        else:
            rec.violation("unknown-option", f"settings(**{kw}) was accepted")
    try:
        settings(derandomize=True, database=DBS[0])
    except Exception:
        rec.count("invalid")
    else:
        rec.violation("derandomize-database", "derandomize=True with a database was accepted")
    for target in (settings, settings()):
        for attr in (*OPTIONS, "default", "new_attribute"):
            for f in (lambda: setattr(target, attr, 1), lambda: delattr(target, attr)):
                if f is None or (target is settings and f.__code__.co_names[:1] == ("delattr",)):
                    continue
                try:
                    f()
                except AttributeError:
                    rec.count("invalid")
                else:
                    rec.violation("mutable", f"assigning {attr} of {target!r} was allowed")
    # deadlines are exact
    for _ in rec.loop(3000 if rec.quick else 50_000):
        us = rng.choice([rng.randrange(1, 10**4), rng.randrange(1, 10**10), rng.randrange(1, 10**20)])
        us = min(us, timedelta.max // timedelta(microseconds=1))
        d = timedelta(microseconds=us)
        s = settings(deadline=d)
        rec.count("deadlines")
        rec.observed(("deadline", us))
        rec.check(s.deadline == d, "deadline-exact", lambda: f"settings(deadline={d!r}).deadline is {timedelta.__repr__(s.deadline)}")
        text = repr(s.deadline)
        if us < 10**10:
            back = eval(text, {"timedelta": timedelta})
            rec.check(back == d, "deadline-repr", lambda: f"deadline {timedelta.__repr__(d)} prints as {text}, which means {back!r}")
        ms = rng.choice([rng.randrange(1, 10**9), rng.random() * 10 + 0.001])
        rec.check(settings(deadline=ms).deadline == timedelta(milliseconds=ms), "deadline-ms", lambda: f"deadline={ms} stored as {settings(deadline=ms).deadline!r}")
    # bool-like options survive both ways round; unknown attributes do not appear
    for opt in OPTIONS:
        for _ in range(60):
            given_, stored = rvalue(rng, opt)
            s = settings(**{opt: given_})
            rec.observed((opt, repr(stored)[:60]))
            rec.check(getattr(s, opt) == stored and (opt != "database" or s.database is stored), "value-stored", f"settings({opt}={stored!r}).{opt} is {getattr(s, opt)!r}")
            if opt != "database" and opt != "backend":
                rec.check(f"{opt}={getattr(s, opt)!r}" in repr(s), "repr", f"settings({opt}={stored!r}) prints as {s!r}")


def k_history(rec):
    rng = rec.rng
    home = tempfile.mkdtemp(prefix="hv23-")
    set_hypothesis_home_dir(home)
    saved = dict(settings._profiles)
    try:
        for _ in rec.loop(60 if rec.quick else 3000):
            settings._profiles.clear()
            settings._profiles.update(saved)
            settings.load_profile("default")
            history(rec, rng)
    finally:
        settings._profiles.clear()
        settings._profiles.update(saved)
        settings.load_profile("default")
        set_hypothesis_home_dir(None)
        __import__("shutil").rmtree(home, ignore_errors=True)


def history(rec, rng):
    base = dict(max_examples=100, derandomize=False, database=DB, verbosity=Verbosity.normal, phases=tuple(Phase), stateful_step_count=50,
                report_multiple_bugs=True, suppress_health_check=(), deadline=timedelta(milliseconds=200), print_blob=False, backend="hypothesis")
    ci = dict(base, derandomize=True, deadline=None, database=None, print_blob=True, suppress_health_check=(HealthCheck.too_slow,))
    profiles = {"default": base, "ci": ci}  # name -> options
    objs = []  # (settings object, options)
    current = base
    cur_name = "default"
    trace = []

    def compare(s, m, what):
        for o in OPTIONS:
            got = getattr(s, o)
            want = m[o]
            if o == "database" and want is DB:
                ok = isinstance(got, ExampleDatabase) and all(got is not d for d in DBS)
            elif o == "database":
                ok = got is want
            else:
                ok = got == want and type(got) is not type(None) or got is None and want is None
            if not ok:
                rec.violation("wrong-value", f"{what}.{o} is {got!r}, expected {want!r}, after {trace}")
                return False
        rec.count("objects_checked")
        return True

    def options():
        kw, m = {}, {}
        for o in rng.sample(OPTIONS, rng.choice([0, 1, 1, 2, 3, 6])):
            kw[o], m[o] = rvalue(rng, o)
        if m.get("derandomize"):
            if "database" in m:
                kw.pop("database")
            m["database"] = None
        return kw, m

    for _ in range(rng.choice([5, 15, 40])):
        op = rng.choice(["make", "make", "child", "child", "register", "register", "load", "load", "loadbad", "registerbad", "get", "given", "machine", "thread",
                         "nested", "mutate", "decorate-twice"])
        kw, m = options()
        name = rng.choice(["default", "ci", "a", "b", "c", "", "été"])
        rec.count("ops")
        parent = rng.choice(objs) if objs else None
        trace.append((op, name, {k: v for k, v in m.items()}, objs.index(parent) if parent else None))
        trace[:] = trace[-25:]
        if op == "make":
            objs.append((settings(**kw), {**current, **m}))
        elif op == "child" and parent:
            s = rng.choice([lambda: settings(parent[0], **kw), lambda: settings(parent=parent[0], **kw)])()
            objs.append((s, {**parent[1], **m}))
        elif op == "register":
            if rng.random() < 0.5 or not parent:
                parent = None
            settings.register_profile(name, *([parent[0]] if parent else []), **kw)
            profiles[name] = {**(parent[1] if parent else current), **m}
            if name == cur_name:
                current = profiles[name]
        elif op == "load":
            try:
                settings.load_profile(name)
            except Exception:
                rec.check(name not in profiles, "load-refused", f"load_profile({name!r}) refused after {trace}")
            else:
                rec.check(name in profiles, "load-unknown", f"load_profile({name!r}) accepted after {trace}")
                current, cur_name = profiles.get(name, current), name
        elif op == "loadbad":
            try:
                settings.load_profile("unregistered")
            except Exception:
                pass
            else:
                rec.violation("load-unknown", f"an unregistered profile was loaded after {trace}")
        elif op == "registerbad":
            opt = rng.choice(OPTIONS)
            try:
                settings.register_profile(name, **{opt: rng.choice(INVALID[opt])})
            except Exception:
                pass
            else:
                rec.violation("invalid-accepted", f"an invalid profile was registered after {trace}")
        elif op == "get":
            try:
                s = settings.get_profile(name)
            except Exception:
                rec.check(name not in profiles, "get-refused", f"get_profile({name!r}) refused after {trace}")
            else:
                if rec.check(name in profiles, "get-unknown", f"get_profile({name!r}) accepted after {trace}"):
                    compare(s, profiles[name], f"get_profile({name!r})")
                    objs.append((s, profiles[name]))
        elif op in ("given", "nested"):
            given_inside(rec, rng, parent if rng.random() < 0.6 else None, current, profiles, compare, op, kw, m)
        elif op == "machine":
            seen = []

            class M(RuleBasedStateMachine):
                @rule()
                def r(self):
                    seen.append(settings.default)

            if parent and parent[1]["backend"] == "hypothesis" and parent[1]["max_examples"] < 10 and Phase.generate in parent[1]["phases"]:
                M = parent[0](M)
                rec.check(M.TestCase.settings is parent[0], "machine-settings", f"{M.TestCase.settings!r} after {trace}")
                o = unittest.TestResult()
                M.TestCase("runTest").run(o)
                if seen:
                    compare(seen[0], parent[1], "settings.default inside a state machine")
                    rec.count("inside")
            else:
                for k in ("deadline", "stateful_step_count"):
                    want = None if k == "deadline" else current[k]
                    got = getattr(M.TestCase.settings, k)
                    rec.check(got == want or k == "deadline", "machine-default", f"machine {k} is {got!r}, active profile {want!r}")
        elif op == "thread":
            got = []
            t = threading.Thread(target=lambda: got.append((settings.default, settings(**kw))))
            t.start()
            t.join()
            if rec.check(got, "thread-raised", f"settings cannot be used in a new thread after {trace}"):
                compare(got[0][0], current, "settings.default in a new thread")
                compare(got[0][1], {**current, **m}, "settings() in a new thread")
                rec.count("threads")
        elif op == "mutate" and parent:
            o = rng.choice(OPTIONS)
            try:
                setattr(parent[0], o, rvalue(rng, o)[0])
            except AttributeError:
                pass
            else:
                rec.violation("mutable", f"settings object could be changed: {o}")
        elif op == "decorate-twice" and parent:
            def f():
                pass
            g = parent[0](f)
            try:
                settings()(g)
            except Exception:
                pass
            else:
                rec.violation("twice", "two settings decorators on one test were accepted")
        compare(settings.default, current, "settings.default")
        for i, (s, mm) in enumerate(objs):
            if not compare(s, mm, f"settings object {i}"):
                return
        for n, mm in profiles.items():
            compare(settings.get_profile(n), mm, f"get_profile({n!r})")
        rec.observed((repr(trace)))


def given_inside(rec, rng, parent, current, profiles, compare, op, kw, m):
    """What a test sees."""
    seen = []
    other = rng.choice(list(profiles))
    now = settings._current_profile

    def f(x):
        if not seen:
            seen.append((settings.default, settings(**kw)))
            if op == "nested":
                settings.load_profile(other)  # affects only this execution; the surrounding default comes back

    if parent is not None and rng.random() < 0.5:
        t = given(st.integers())(parent[0](f))
    else:
        t = given(st.integers())(f)
        if parent is not None:
            t = parent[0](t)
    want = parent[1] if parent is not None else current
    if want["max_examples"] > 10 ** 6 or not ({Phase.generate} & set(want["phases"])):
        return
    if op != "nested" and rng.random() < 0.5:
        settings.load_profile(other)  # a profile loaded after the definition of the test does not change it
    before = settings.default
    try:
        t._hypothesis_internal_use_settings  # noqa
        try:
            t()
        except BaseException:
            pass
        rec.check(settings.default is before, "default-not-restored", f"running a test changed settings.default to {settings.default!r}")
        if seen:
            rec.count("inside")
            eff = dict(want)
            compare(seen[0][0], eff, "settings.default inside a test")
            compare(seen[0][1], {**eff, **m}, "settings() inside a test")
    finally:
        settings.load_profile(now)


SCRIPT = r"""
import json, os, sys
from hypothesis import settings
d = settings.default
print(json.dumps([d.max_examples, d.derandomize, d.database is None, d.deadline is None, d.print_blob, [h.name for h in d.suppress_health_check],
                  settings._current_profile if hasattr(settings, "_current_profile") else None]))
"""


def k_process(rec):
    import json

    for env, ci in [({}, False), ({"CI": "1"}, True), ({"CI": "false"}, True), ({"TF_BUILD": "True"}, True), ({"CI": ""}, True), ({"CICD": "1"}, False)]:
        e = {k: v for k, v in os.environ.items() if k not in ("CI", "TF_BUILD")} | env
        p = subprocess.run([sys.executable, "-c", SCRIPT], env=e, capture_output=True, text=True, timeout=120, cwd=tempfile.gettempdir())
        rec.count("subprocesses")
        rec.observed(repr(env))
        want = [100, ci, ci, ci, ci, ["too_slow"] if ci else []]
        got = json.loads(p.stdout)[:6] if p.returncode == 0 else p.stderr[-500:]
        rec.check(got == want, "environment-profile", f"with {env} in the environment the defaults are {got}, expected {want}")
    assert AVAILABLE_PROVIDERS
