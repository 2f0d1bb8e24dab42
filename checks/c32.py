"""C32: the pytest plugin runs, reports and configures tests without changing verdicts."""
import base64
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

from hv.util import stable_hash

INFO = dict(
    technique="runtime monitoring: generated mini-suites are run by a real pytest process with drawn plugin options; an observer plugin of the suite logs "
              "pytest's own reports and every execution of every test body, and a monitor compares verdicts, settings in effect, executions, statistics "
              "and falsifying examples with what each test of the suite was written to do",
    level="exploration",
    rule="One evaluation = one test item of one pytest run. Non-trivial = distinct (shape, body, marks, fixtures, parametrization, options).",
    floors={"sessions": 12, "items": 90, "verdicts_failed": 20, "verdicts_skipped": 3, "verdicts_xfailed": 1, "fixture_refusals": 1,
            "example_owners": 6, "stats_blocks": 8, "counted_runs": 4, "plain_sessions": 1, "reused": 2},
)
KINDS = ["suite0", "suite1", "suite2", "suite3", "config0", "config1", "reuse0", "plain0"]
VERBS = ["quiet", "normal", "verbose", "debug"]


def units(tier, seed):
    reps = 1 if tier == "quick" else 8
    return [dict(name=f"{k}-{i}", kind=k, timeout=800) for i in range(reps) for k in KINDS]


def run(unit, rec):
    globals()["k_" + unit["kind"].rstrip("0123456789")](rec)


# ---------------------------------------------------------------- the suites

OBS = '''
import json, os, sys

def put(**kw):
    data = (json.dumps(kw, default=repr) + "\\n").encode()
    fd = os.open(os.environ["HV_OBS"], os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, data)
    os.close(fd)

def item():
    return os.environ.get("PYTEST_CURRENT_TEST", "").rsplit(" (", 1)[0]

def ran(_x=None, **kw):
    put(t="run", id=item(), x=repr(_x), fx=kw)

def hran(_x=None, **kw):
    from hypothesis import settings
    from hypothesis.control import current_build_context
    s = settings.default
    put(t="run", id=item(), x=repr(_x), fx=kw, final=bool(current_build_context().is_final),
        default=[s.max_examples, s.verbosity.name, sorted(p.name for p in s.phases), settings._current_profile])
'''

CONF = '''
import json, os, sys
import pytest
import obs

def pytest_runtest_logreport(report):
    if os.environ.get("PYTEST_XDIST_WORKER"):
        return
    obs.put(t="report", id=report.nodeid, when=report.when, outcome=report.outcome, wasxfail=hasattr(report, "wasxfail"),
            text=report.longreprtext, sections=report.sections)

def pytest_collectreport(report):
    if report.failed:
        obs.put(t="collect", id=report.nodeid, text=report.longreprtext)

def pytest_sessionfinish(session):
    obs.put(t="end", worker=os.environ.get("PYTEST_XDIST_WORKER"), imported="hypothesis" in sys.modules)

COUNT = {}

def tick(name):
    COUNT[name] = COUNT.get(name, 0) + 1
    obs.put(t="setup", id=obs.item(), name=name)
    return (name, os.getpid(), COUNT[name])

@pytest.fixture
def fx_func():
    yield tick("fx_func")

@pytest.fixture(scope="class")
def fx_cls():
    yield tick("fx_cls")

@pytest.fixture(scope="module")
def fx_mod():
    yield tick("fx_mod")

@pytest.fixture(scope="session")
def fx_sess():
    yield tick("fx_sess")

@pytest.fixture
def fx_down():
    yield tick("fx_down")

@pytest.fixture(scope="module")
def fx_up():
    yield tick("fx_up")

@pytest.fixture(scope="module", params=["p", "q"])
def fx_par(request):
    yield tick("fx_par-" + request.param)

def pytest_generate_tests(metafunc):
    if "gen" in metafunc.fixturenames:
        metafunc.parametrize("gen", ["g1", "g2"])

@pytest.fixture
def fx_fdep(fx_mod):
    return tick("fx_fdep")

@pytest.fixture(scope="module")
def fx_mdep(fx_sess):
    return tick("fx_mdep")

@pytest.fixture
def fx_broken():
    raise RuntimeError("broken fixture")
'''

CONF_HYP = '''
from hypothesis import HealthCheck, Phase, Verbosity, settings
settings.register_profile("p7", max_examples=7, suppress_health_check=[HealthCheck.too_slow], deadline=None)
settings.register_profile("pverb", max_examples=9, verbosity=Verbosity.verbose, deadline=None)
settings.register_profile("pquiet", max_examples=6, verbosity=Verbosity.quiet, deadline=None)
settings.register_profile("pnoexp", max_examples=8, phases=[Phase.explicit, Phase.reuse, Phase.generate, Phase.shrink], deadline=None)
settings.register_profile("pfix", max_examples=10, suppress_health_check=[HealthCheck.function_scoped_fixture], deadline=None)
settings.register_profile("pdet", max_examples=11, derandomize=True, deadline=None)
settings.register_profile("base", max_examples=12, deadline=None)
'''
PROFILES = {"p7": (7, "normal"), "pverb": (9, "verbose"), "pquiet": (6, "quiet"), "pnoexp": (8, "normal"), "pfix": (10, "normal"),
            "pdet": (11, "normal"), "base": (12, "normal")}

HEAD = '''
import unittest
import pytest
from hypothesis import HealthCheck, assume, example, given, reproduce_failure, seed, settings, strategies as st
from hypothesis.stateful import RuleBasedStateMachine, rule
from obs import hran, ran, put
from conftest import tick

@pytest.fixture(scope="module")
def fx_down():
    yield tick("fx_down")

@pytest.fixture
def fx_up():
    yield tick("fx_up")

'''
# name -> scope as seen from the test files
FIXTURES = {"fx_func": "function", "fx_cls": "class", "fx_mod": "module", "fx_sess": "session", "fx_down": "module", "fx_up": "function",
            "fx_par": "module", "fx_fdep": "function", "fx_mdep": "module", "fx_broken": "function"}
PARFIX = {"fx_par": ["p", "q"], "gen": ["g1", "g2"]}
FIXTURES["gen"] = "generated"

# name -> (body lines, strategy, verdict of the call, text that tells the error)
BODIES = {
    "pass": (["pass"], "ints", "passed", None),
    "passbool": (["pass"], "bools", "passed", None),
    "failall": (["raise ValueError('boom')"], "ints", "failed", "ValueError: boom"),
    "failbool": (["if x: raise ValueError('boom')"], "bools", "failed", "ValueError: boom"),
    "failassert": (["assert x is None"], "ints", "failed", "assert"),
    "failcall": (["pytest.fail('boom')"], "ints", "failed", "boom"),
    "two": (["if x: raise ValueError('boom')", "raise KeyError('bang')"], "bools", "failed", "2 distinct failures"),
    "skipall": (["pytest.skip('no')"], "ints", "skipped", None),
    "skipbool": (["if x: pytest.skip('no')"], "bools", "skipped", None),
    "skiputil": (["raise unittest.SkipTest('no')"], "ints", "skipped", None),
    "xfailall": (["pytest.xfail('known')"], "ints", "xfailed", None),
    "xfailbool": (["if x: pytest.xfail('known')"], "bools", "xfailed", None),
    "importor": (["pytest.importorskip('no_such_module_at_all')"], "ints", "skipped", None),
    "rejectall": (["assume(False)"], "ints", "failed", "Unsatisfiable|FailedHealthCheck"),
    "rejectsome": (["assume(x)"], "bools", "passed", None),
    "flaky": (["if not hasattr(obsmod, KEY):", "    setattr(obsmod, KEY, 1)", "    raise ValueError('boom')"], "ints", "failed", "Flaky"),
    "badarg": (["pass"], "bad", "failed", "InvalidArgument"),
    "returns": (["return 5"], "ints", "failed", "FailedHealthCheck"),
    "explicit": (["if x == 'ex': raise ValueError('boom')"], "ints", "failed", "ValueError: boom"),
    "failpar": (["if x >= LIMIT: raise ValueError('boom')"], "ints", "failed", "ValueError: boom"),
    "param": (["if FAILPAR: raise ValueError('boom')"], "ints", "param", "ValueError: boom"),
}
STRATS = {"ints": "st.integers({lo}, 10**9)", "bools": "st.booleans()", "bad": "st.integers(5, 1)"}
ABNORMAL = {"rejectall", "flaky", "returns"}  # failures without a falsifying example of their own


NOSTATS = {"explicit", "skipall", "skipbool", "skiputil", "importor", "returns", "rejectall"}


def make_test(rng, k, fileno, bodies=None):
    body = rng.choice(bodies or list(BODIES))
    t = dict(name=f"test_{'abcdefghij'[k % 10]}{k}_{body}", body=body, hyp=True, lo=rng.choice([0, 7, 1000, 12345]), marks=[], fixtures=[], params=None,
             own=None, below=rng.random() < 0.4, suppress=False, file=f"test_f{fileno}.py")
    t["shape"] = rng.choice(["func", "func", "method", "nested", "unittest"])
    if rng.random() < 0.12 and not bodies:
        t["hyp"] = False
        t["body"] = rng.choice(["pass", "failall", "skipall", "xfailall", "failassert"])
        t["name"] = f"test_n{k}_{t['body']}"
    if body == "param" or (t["shape"] != "unittest" and rng.random() < 0.3):
        if t["shape"] == "unittest":
            t["shape"] = "method"
        t["params"] = rng.sample([3, 4, 5, 6], rng.choice([1, 2, 2, 3]))
        if not t["hyp"] and t["body"] == "param":
            t["body"] = "pass"
    if t["shape"] != "unittest" and rng.random() < 0.4:
        fs = list(FIXTURES)
        fs.remove(rng.choice(list(PARFIX)))  # at most one which is parametrized
        t["fixtures"] = rng.sample([f for f in fs if f != "fx_broken" or rng.random() < 0.3], rng.choice([1, 1, 2]))
    if t["shape"] != "unittest" and rng.random() < 0.15:
        t["usefixtures"] = rng.choice(["fx_func", "fx_mod", "fx_up"])
    t["builtin"] = rng.choice([None] * 9 + ["tmp_path", "request"]) if t["shape"] != "unittest" else None
    if t["body"] == "failpar":
        # what fails depends on the case, so the cases must not share what they store
        t["own"] = 40
        if t["shape"] == "unittest":
            t["shape"] = "func"
        if rng.random() < 0.5:
            t["params"], t["fixtures"] = t["params"] or [3, 5], [f for f in t["fixtures"] if f not in PARFIX]
        else:
            t["params"], t["fixtures"] = None, [*(f for f in t["fixtures"] if f not in PARFIX), rng.choice(list(PARFIX))]
        t["fixtures"] = sorted(f for f in t["fixtures"] if f != "fx_broken")
    elif rng.random() < 0.3:
        t["own"] = rng.choice([2, 3, 5, 15, 33])
    if any(FIXTURES[f] == "function" for f in t["fixtures"]) or t["builtin"] == "tmp_path":
        t["suppress"] = rng.random() < 0.5
    if rng.random() < 0.25 and not bodies:
        marks = ["skip", "skipif1", "skipif0", "xfail", "xfails", "xfailraises", "xfailrun"]
        t["marks"] = [rng.choice(marks[:3] if t["shape"] == "unittest" else marks)]
    if t["shape"] == "unittest" and t["body"] in ("xfailall", "xfailbool", "returns"):
        t["body"] = "pass"
    return t


MARKSRC = {"skip": "@pytest.mark.skip(reason='m')", "skipif1": "@pytest.mark.skipif(True, reason='m')", "skipif0": "@pytest.mark.skipif(False, reason='m')",
           "xfail": "@pytest.mark.xfail", "xfails": "@pytest.mark.xfail(strict=True)", "xfailraises": "@pytest.mark.xfail(raises=KeyError)",
           "xfailrun": "@pytest.mark.xfail(run=False)"}


def source(t):
    pre, post = [], []
    ms = [MARKSRC[m] for m in t["marks"]]
    if t["params"]:
        ms.append(f"@pytest.mark.parametrize('par', {t['params']})")
    if t.get("usefixtures"):
        ms.append(f"@pytest.mark.usefixtures('{t['usefixtures']}')")
    (post if t["below"] else pre).extend(ms)
    deco = list(pre)
    if t["hyp"]:
        kw = []
        if t["own"]:
            kw.append(f"max_examples={t['own']}")
        if t["suppress"]:
            kw.append("suppress_health_check=[HealthCheck.function_scoped_fixture]")
        if kw:
            deco.append(f"@settings({', '.join(kw)})")
        if t["body"] == "explicit":
            deco.append("@example(x='ex')")
        deco.append(f"@given(x={STRATS[BODIES[t['body']][1]].format(lo=t['lo'])})")
    deco += post
    args = list(t["fixtures"]) + ([t["builtin"]] if t["builtin"] else []) + (["par"] if t["params"] else [])
    sig = args + (["x"] if t["hyp"] else [])
    if t["shape"] != "func":
        sig = ["self", *sig]
    logged = "".join(f", {a}={a}" for a in args if a not in ("tmp_path", "request"))
    lines = [*deco, f"def {t['name']}({', '.join(sig)}):", f"    {'hran' if t['hyp'] else 'ran'}({'x' if t['hyp'] else 'None'}{logged})"]
    if not t["hyp"]:
        lines.append("    x = 0")
    for ln in BODIES[t["body"]][0]:
        ln = ln.replace("obsmod", "pytest").replace("KEY", repr("hv_" + t["name"] + t["file"]) + ("+str(par)" if t["params"] else ""))
        if "hv_" in ln and t["fixtures"]:
            for f in t["fixtures"]:
                if f == "gen":
                    ln = ln.replace(repr("hv_" + t["name"] + t["file"]), repr("hv_" + t["name"] + t["file"]) + "+gen")
                elif f in PARFIX:
                    ln = ln.replace(repr("hv_" + t["name"] + t["file"]), repr("hv_" + t["name"] + t["file"]) + f"+{f}[0]")
        ln = ln.replace("LIMIT", f"{t['lo']} + 100 * par" if t["params"] else f"{t['lo']} + (100 if {'gen' if 'gen' in t['fixtures'] else 'fx_par'}[0] in ('g1', 'fx_par-p') else 300)".replace("gen[0]", "gen"))
        lines.append("    " + ln.replace("FAILPAR", f"par == {t['params'][0]}" if t["params"] else "False"))
    if t["shape"] == "func":
        return lines
    cls = f"TestC{t['name'][5:]}"
    t["cls"] = cls
    lines = ["    " + ln for ln in lines]
    if t["shape"] == "unittest":
        return [f"class {cls}(unittest.TestCase):", *lines]
    if t["shape"] == "nested":
        t["cls"] = f"TestOuter{cls}::{cls}"
        return [f"class TestOuter{cls}:", f"    class {cls}:", *["    " + ln for ln in lines]]
    return [f"class {cls}:", *lines]


EXTRAS = [  # (source, names of items, verdict)
    ("@settings(max_examples=3)\ndef test_pointless_settings():\n    pass\n", "test_pointless_settings", "Using `@settings` on a test without `@given`"),
    ("@example(1)\ndef test_pointless_example():\n    pass\n", "test_pointless_example", "Using `@example` on a test without `@given`"),
    ("@seed(1)\ndef test_pointless_seed():\n    pass\n", "test_pointless_seed", "Using `@seed` on a test without `@given`"),
    ("@st.composite\ndef test_composite(draw):\n    return draw(st.integers())\n", "test_composite", "is a function that returns a Hypothesis strategy"),
    ("class Mach(RuleBasedStateMachine):\n    @rule(x=st.integers())\n    def r(self, x):\n        raise ValueError('machine boom')\nTestMach = Mach.TestCase\n",
     "TestMach::runTest", "machine boom"),
    ("class MachOk(RuleBasedStateMachine):\n    @rule(x=st.integers())\n    def r(self, x):\n        pass\nTestMachOk = MachOk.TestCase\n",
     "TestMachOk::runTest", None),
]


def make_suite(rng, bodies=None):
    if bodies:
        suite = dict(tests=[make_test(rng, k, 0, bodies) for k in range(rng.choice([2, 3, 4]))], extras=[],
                     confprofile=rng.choice([None, None, "base", "pnoexp"]), autouse=rng.random() < 0.3)
        return suite
    suite = dict(tests=[], extras=[], confprofile=rng.choice([None, None, "base", "p7"]), autouse=rng.random() < 0.3)
    for f in range(rng.choice([1, 2, 2])):
        for k in range(rng.choice([4, 6, 8])):
            suite["tests"].append(make_test(rng, k + 10 * f, f))
    suite["extras"] = [e for e in EXTRAS if rng.random() < 0.25]
    return suite


def write_suite(d, suite):
    with open(os.path.join(d, "obs.py"), "w") as f:
        f.write(OBS)
    with open(os.path.join(d, "conftest.py"), "w") as f:
        f.write(CONF + CONF_HYP)
        if suite["confprofile"]:
            f.write(f"settings.load_profile({suite['confprofile']!r})\n")
        if suite["autouse"]:
            f.write("@pytest.fixture\ndef fx_inner():\n    return 1\n@pytest.fixture(autouse=True)\ndef fx_auto(fx_inner):\n    yield tick('fx_auto')\n")
    with open(os.path.join(d, "pytest.ini"), "w") as f:
        f.write("[pytest]\naddopts = -p no:cacheprovider\n")
    for fname in sorted({t["file"] for t in suite["tests"]}):
        out = [HEAD]
        for t in suite["tests"]:
            if t["file"] == fname:
                out.append("\n".join(source(t)) + "\n")
        with open(os.path.join(d, fname), "w") as f:
            f.write("\n".join(out))
    if suite["extras"]:
        with open(os.path.join(d, "test_x.py"), "w") as f:
            f.write(HEAD + "\n".join(e[0] for e in suite["extras"]))


def itemids(t):
    """The items pytest makes of this test, each with its parameter (or None)."""
    base = "::".join([t["file"], *([t["cls"]] if t["shape"] != "func" else []), t["name"]])
    axes = [p for f in t["fixtures"] for p in [PARFIX.get(f)] if p]
    pars = t["params"] or [None]
    fps = axes[0] if axes else [None]
    out = []
    for p in pars:
        for q in fps:
            parts = {str(p)} - {"None"} | ({q} - {None})
            # pytest decides the order of the two parts of the name; both are accepted
            out.append((base, p, q, parts))
    return out


def smallest(t, par, q):
    """The smallest failing value of x."""
    if t["body"] == "failpar":
        return repr(t["lo"] + (100 * par if t["params"] else {"p": 100, "q": 300, "g1": 100, "g2": 300}[q]))
    return {"failbool": "True", "explicit": "'ex'"}.get(t["body"], repr(t["lo"]))


def find(ids, base, parts):
    for i in ids:
        b, _, rest = i.partition("[")
        if b == base and set(rest.rstrip("]").split("-")) - {""} == parts:
            return i
    return None


def refused(t, opts_profile):
    if not t["hyp"]:
        return False
    if t["suppress"] or (opts_profile == "pfix" and True):
        return False
    return any(FIXTURES[f] == "function" for f in t["fixtures"]) or t["builtin"] == "tmp_path"


def expected(t, par, profile, plugin=True):
    """-> (verdict, error pattern, does the body run?)"""
    marks = t["marks"]
    if "skip" in marks or "skipif1" in marks:
        return "skipped", None, False
    if "xfailrun" in marks:
        return "xfailed", None, False
    if "fx_broken" in t["fixtures"]:
        # setting up fails before anything of the test is run
        return ("xfailed" if {"xfail", "xfails"} & set(marks) else "error"), None, False
    runs = True
    if plugin and refused(t, profile):
        verdict, pat, runs = "failed", "FailedHealthCheck.*|function-scoped fixture", False
        kind = "FailedHealthCheck"
    else:
        verdict, pat = BODIES[t["body"]][2:]
        if verdict == "param":
            verdict = "failed" if par == t["params"][0] else "passed"
        if not t["hyp"] and t["body"] == "failbool":
            verdict = "passed"
        if t["body"] == "badarg":
            runs = False
        kind = "KeyError" if False else "other"
    for m in marks:
        if m in ("xfail", "xfails"):
            if verdict == "failed":
                verdict = "xfailed"
            elif verdict == "passed":
                verdict = "xpassed" if m == "xfail" else "failed"
                pat = None if m == "xfail" else r"XPASS\(strict\)"
        elif m == "xfailraises":
            if verdict == "passed":
                verdict = "xpassed"
    return verdict, pat, runs


# ---------------------------------------------------------------- running and reading

def pytest_run(d, args, rec, name="obs.jsonl", timeout=120):
    obs = os.path.join(d, name)
    if os.path.exists(obs):
        os.unlink(obs)
    env = {k: v for k, v in os.environ.items() if not k.startswith(("HYPOTHESIS", "PYTEST", "COV", "CI", "GITHUB", "TOX"))}
    env.update(HV_OBS=obs, PYTHONDONTWRITEBYTECODE="1", COLUMNS="200", TERM="dumb")
    try:
        p = subprocess.run([sys.executable, "-m", "pytest", "-p", "no:cacheprovider", "-p", "no:cov", "-p", "no:timeout", *args], cwd=d, env=env,
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        rec.count("cut_short")
        return None
    events = []
    if os.path.exists(obs):
        with open(obs) as f:
            events = [json.loads(line) for line in f]
    rec.count("sessions")
    return dict(rc=p.returncode, out=p.stdout, events=events, args=args)


def verdicts(res):
    """nodeid -> (verdict, text, sections)"""
    by = {}
    for e in res["events"]:
        if e["t"] == "report":
            by.setdefault(e["id"], []).append(e)
    out = {}
    for i, reports in by.items():
        texts = "\n".join(r["text"] for r in reports if r["text"])
        sections = [s for r in reports if r["when"] == "teardown" or r["outcome"] != "passed" for s in r["sections"]] or \
                   [s for r in reports for s in r["sections"]]
        v = "passed"
        for r in reports:
            if r["outcome"] == "skipped":
                v = "xfailed" if r["wasxfail"] else "skipped"
            elif r["outcome"] == "failed":
                v = "failed" if r["when"] == "call" else "error"
            elif r["when"] == "call" and r["wasxfail"]:
                v = "xpassed"
        if sum(r["when"] == "call" for r in reports) > 1:
            v = "reported more than once"
        out[i] = (v, texts, [tuple(s) for s in sections])
    return out


def options(rng, profiles=None, dense=False):
    def some(p):
        return rng.random() < (0.9 if dense else p)
    o = dict(args=[], profile=None, verb=None, stats=False, seed=None, explain=False, xdist=False, nocap=False, v=False, junit=False, marker=None)
    if some(0.6):
        o["profile"] = rng.choice(profiles or list(PROFILES))
        o["args"].append(f"--hypothesis-profile={o['profile']}")
    if some(0.5):
        o["verb"] = rng.choice(VERBS[2:] + VERBS if dense else VERBS)
        o["args"].append(f"--hypothesis-verbosity={o['verb']}")
    if some(0.6):
        o["stats"] = True
        o["args"].append("--hypothesis-show-statistics")
    if rng.random() < 0.4:
        o["seed"] = rng.choice(["0", "1", "12345678901234567890", "abc", "-5"])
        o["args"].append(f"--hypothesis-seed={o['seed']}")
    if some(0.4):
        o["explain"] = True
        o["args"].append("--hypothesis-explain")
    if rng.random() < 0.25:
        o["xdist"] = True
        o["args"] += ["-n", "2", "--dist", rng.choice(["load", "loadfile", "each" if False else "load"])]
    if rng.random() < 0.25 and not o["xdist"]:
        o["nocap"] = True
        o["args"].append("-s")
    if rng.random() < 0.4:
        o["v"] = True
        o["args"].append("-v")
    if rng.random() < 0.4:
        o["junit"] = True
        o["args"] += ["--junitxml=out.xml"]
    if rng.random() < 0.15:
        o["marker"] = rng.choice(["hypothesis", "not hypothesis"])
        o["args"] += ["-m", o["marker"]]
    o["args"] += rng.choice([[], [], ["--tb=native"], ["--tb=short"]])
    return o


def fail(rec, sig, res, suite, **kw):
    rec.violation(sig, dict(kw, args=res["args"], out=res["out"][-3000:]))


STATS_HEAD = re.compile(r"^(test_\w+\.py(?:::[^\n:]+)+):\n\n((?:  .*\n|\n(?=  ))*)", re.M)


def check_suite(rec, suite, o, res):
    vs = verdicts(res)
    runs = {}
    setups = {}
    for e in res["events"]:
        if e["t"] == "run":
            runs.setdefault(e["id"], []).append(e)
        elif e["t"] == "setup":
            setups.setdefault(e["id"], []).append(e["name"])
        elif e["t"] == "collect":
            return fail(rec, "a file could not be collected", res, suite, text=e["text"][-1500:])
    profile = o["profile"] or suite["confprofile"]
    nmax, verb = PROFILES.get(profile, (100, "normal"))
    if o["verb"]:
        verb = o["verb"]
    stats = {}
    if o["stats"]:
        tail = res["out"].partition("Hypothesis Statistics ===")[2]
        for m in STATS_HEAD.finditer(tail):
            if m.group(1) in stats:
                fail(rec, "statistics of one test are printed twice", res, suite, item=m.group(1))
            stats[m.group(1)] = m.group(2)
    elif "Hypothesis Statistics" in res["out"]:
        fail(rec, "statistics without the option", res, suite)
    seen = set()
    names = {t["name"] for t in suite["tests"]}
    hypitems = set()
    for t in suite["tests"]:
        wanted = not o["marker"] or (o["marker"] == "hypothesis") == t["hyp"]
        for base, par, q, parts in itemids(t):
            i = find(vs, base, parts)
            if not wanted:
                if i is not None:
                    fail(rec, f"-m {o['marker']} selected the wrong tests", res, suite, test=t["name"])
                continue
            if i is None:
                fail(rec, "a test was not run or not reported", res, suite, test=t["name"], parts=sorted(parts), ids=sorted(vs))
                continue
            seen.add(i)
            if t["hyp"]:
                hypitems.add(i)
            v, text, sections = vs[i]
            want, pat, body = expected(t, par, profile)
            rec.observed("item:" + str(stable_hash((t["shape"], t["body"], t["marks"], t["below"], t["fixtures"], bool(t["params"]), t["hyp"], o["args"])))); rec.count("items")
            info = dict(item=i, test=t, src=source(t), verdict=v, text=text[-1500:])
            if v != want:
                fail(rec, f"verdict {v} for a test which should be {want}", res, suite, **info)
                continue
            rec.count("verdicts_" + v)
            if pat and v == "failed" and not re.search(pat, text):
                fail(rec, "failed for another reason", res, suite, **info)
            rs = runs.get(i, [])
            if t["hyp"] and refused(t, profile) and want == "failed":
                rec.count("fixture_refusals")
            if bool(rs) != body and not (t["body"] == "badarg"):
                fail(rec, "the body was run, or was not run, against expectation", res, suite, runs=len(rs), **info)
            if not rs:
                continue
            # what every execution saw
            fxs = {json.dumps(r["fx"], sort_keys=True) for r in rs}
            if len(fxs) != 1:
                fail(rec, "fixture values changed during a test", res, suite, values=sorted(fxs)[:3], **info)
            fx = rs[0]["fx"]
            if t["params"] and fx.get("par") != par:
                fail(rec, "a parametrized test got the argument of another case", res, suite, **info)
            for f in t["fixtures"]:
                if f in PARFIX and (fx[f] if f == "gen" else fx[f][0]) != (q if f == "gen" else f"{f}-{q}"):
                    fail(rec, "a test got the wrong parametrized fixture", res, suite, **info)
            su = setups.get(i, [])
            for f in t["fixtures"]:
                if FIXTURES[f] == "function" and su.count(f) != 1:
                    fail(rec, "a function-scoped fixture was not set up once", res, suite, setups=su, **info)
            if suite["autouse"] and su.count("fx_auto") != 1:
                fail(rec, "an automatic fixture was not set up once", res, suite, setups=su, **info)
            if not t["hyp"]:
                if len(rs) != 1:
                    fail(rec, "an ordinary test was run more than once", res, suite, **info)
                if any("Hypothesis" in s[0] for s in sections) or "Falsifying" in text or i in stats:
                    fail(rec, "an ordinary test has a Hypothesis report", res, suite, sections=sections, **info)
                continue
            # settings in effect
            d = rs[0]["default"]
            n = t["own"] or nmax
            if d[0] != n or d[1] != verb:
                fail(rec, "profile or verbosity did not take effect", res, suite, default=d, want=[n, verb], **info)
            explain = profile != "pnoexp" or o["explain"]
            if ("explain" in d[2]) != explain:
                fail(rec, "the explain option or the profile's phases did not take effect", res, suite, default=d, **info)
            if t["body"] == "pass" or (t["body"] == "param" and v in ("passed", "xpassed")):
                rec.count("counted_runs")
                if len(rs) != n:
                    fail(rec, "max_examples of the profile or test did not take effect", res, suite, runs=len(rs), want=n, **info)
            # whose examples
            own = t["name"]
            blob = text + "\n".join(s[1] for s in sections if s[0] == "Hypothesis")
            for m in re.finditer(r"(?:Falsifying|Trying|Falsifying explicit|Trying explicit) example: (\w+)\(", blob):
                if m.group(1) != own:
                    fail(rec, "an example of another test in the report", res, suite, other=m.group(1), sections=sections, **info)
            tried = sum(len(re.findall(r"Trying (?:explicit )?example: ", s[1])) for s in sections if s[0] == "Hypothesis")
            if t["body"] != "explicit" and (tried > 0) != (verb in ("verbose", "debug")):
                fail(rec, "what was tried is printed at the wrong verbosity", res, suite, tried=tried, verb=verb, sections=sections, **info)
            if v == "failed" and t["body"] not in ABNORMAL and t["body"] not in ("two",) and "xfails" not in t["marks"]:
                if verb != "quiet":
                    m = re.findall(r"Falsifying (?:explicit )?example: (\w+)\(((?:.|\n)*?)\n\s*(?:E\s+)?\)", blob)
                    rec.count("example_owners")
                    want_x = smallest(t, par, q)
                    if not m:
                        fail(rec, "a failure without its falsifying example", res, suite, sections=sections, **info)
                    for _, args in m:
                        if not re.search(r"\bx=" + re.escape(want_x) + r",", args):
                            fail(rec, "the falsifying example of a test is not the smallest failing value", res, suite, want=want_x, args=args, **info)
                        if t["params"] and f"par={par}," not in args:
                            fail(rec, "the falsifying example shows another parameter", res, suite, args=args, **info)
                if re.search(r"hypothesis-seed", blob):
                    fail(rec, "how to reproduce with a seed is shown although there is a falsifying example", res, suite, **info)
            if v == "failed" and t["body"] in ("rejectall", "returns") and "xfails" not in t["marks"]:
                m = re.findall(r"@seed\((\d+)\).*--hypothesis-seed=(\d+)", blob)
                if o["seed"] is None and profile != "pdet" and verb != "quiet":
                    if not m or m[0][0] != m[0][1]:
                        fail(rec, "a failure does not tell the seed which reproduces it", res, suite, sections=sections, **info)
                    else:
                        suite.setdefault("seeds", []).append((m[0][0], t, par, q, i, [r["x"] for r in rs]))
                elif m:
                    fail(rec, "another seed is proposed although the seed was fixed", res, suite, **info)
            # statistics
            if o["stats"]:
                s = stats.get(i)
                if s is None:
                    # a test which is skipped, or refused by a health check, has none
                    if t["body"] not in NOSTATS:
                        fail(rec, "no statistics for a test", res, suite, stats=sorted(stats), **info)
                    continue
                rec.count("stats_blocks")
                if v in ("passed", "xpassed"):
                    good = [int(x) for x in re.findall(r"(\d+) passing examples", s)]
                    want_n = len([r for r in rs if t["body"] != "rejectsome" or r["x"] == "True"])
                    if sum(good) != want_n or re.search(r"[1-9]\d* failing", s):
                        fail(rec, "the statistics of a test are not its own", res, suite, stats=s, want=want_n, **info)
                    if t["body"] == "pass" and f"settings.max_examples={n}" not in s:
                        fail(rec, "the statistics of a test are not its own", res, suite, stats=s, **info)
                elif t["body"].startswith(("fail", "param")):
                    if not re.search(r"[1-9]\d* failing examples", s):
                        fail(rec, "the statistics of a failing test show no failure", res, suite, stats=s, **info)
    for src, name, pat in suite["extras"]:
        i = "test_x.py::" + name
        wanted = not o["marker"] or (o["marker"] == "hypothesis") == name.startswith("TestMach")
        if not wanted:
            continue
        if i not in vs:
            fail(rec, "a test was not run or not reported", res, suite, test=name, ids=sorted(vs))
            continue
        seen.add(i)
        rec.observed("item:" + str(stable_hash(name + repr(o["args"])))); rec.count("items")
        v, text, sections = vs[i]
        if (pat is None) != (v == "passed") or v not in ("passed", "failed") or (pat and pat not in text):
            fail(rec, f"verdict {v} or the reason is wrong for a special test", res, suite, src=src, text=text[-1500:], item=i)
        rec.count("extras")
        if o["stats"] and name.startswith("TestMach") and i not in stats:
            fail(rec, "no statistics for a test", res, suite, item=i, stats=sorted(stats))
    if set(vs) - seen:
        fail(rec, "an unexpected test was reported", res, suite, ids=sorted(set(vs) - seen))
    if set(stats) - set(runs) - {i for i in vs if i.startswith("test_x")} - {i for i in vs if "badarg" in i}:
        fail(rec, "statistics of something which was not run", res, suite, ids=sorted(set(stats) - set(runs)))
    # the junit report
    if o["junit"] and not o["xdist"]:
        try:
            root = ET.parse(os.path.join(suite["dir"], "out.xml")).getroot()
        except Exception as e:
            return fail(rec, "the junit report is not readable", res, suite, err=repr(e))
        props = [(p.get("name"), p.get("value")) for p in root.iter("property") if p.get("name", "").startswith("hypothesis-statistics-")]
        rec.count("junit_properties", len(props))
        for name, value in props:
            i = name.removeprefix("hypothesis-statistics-")
            txt = base64.b64decode(value).decode()
            if i not in vs or not txt.startswith(i + ":"):
                fail(rec, "the junit report has statistics of another test", res, suite, item=i, txt=txt[:300])
            elif o["stats"] and i in stats and stats[i].strip() not in txt:
                fail(rec, "the junit report has other statistics", res, suite, item=i, txt=txt, stats=stats[i])
        if len({n for n, _ in props}) != len(props):
            fail(rec, "the junit report has statistics twice", res, suite, names=sorted(n for n, _ in props))
        missing = {i for i in hypitems if i in runs and re.search(r"test_[a-z]\d+_([a-z]+)", i).group(1) not in NOSTATS} - {n.removeprefix("hypothesis-statistics-") for n, _ in props}
        if missing:
            fail(rec, "the junit report lacks the statistics of a test", res, suite, missing=sorted(missing))
    # header
    if o["v"]:
        m = re.search(r"^hypothesis profile '([^']*)'", res["out"], re.M)
        name = profile or "default"
        if o["verb"] and o["verb"] != PROFILES.get(profile, (0, "normal"))[1]:
            name += f"-with-{o['verb']}-verbosity"
        if o["explain"] and profile == "pnoexp":
            name += "-with-explain-phase"
        if not m or m.group(1) != name:
            fail(rec, "the header shows another profile", res, suite, want=name, got=m and m.group(1))
    # -s shows the reports as they come
    if o["nocap"] and verb in ("verbose", "debug") and any(r for i, r in runs.items() if i in hypitems):
        if "Trying example:" not in res["out"] and "Trying explicit example:" not in res["out"]:
            fail(rec, "-s shows nothing of what is tried", res, suite)
    return runs, vs


def sequences(runs, suite):
    return {i: [r["x"] for r in rs] for i, rs in runs.items()}


def k_suite(rec):
    for _ in rec.loop(200, 11 if rec.quick else None):
        d = tempfile.mkdtemp(prefix="hv-c32-")
        try:
            one_suite(rec, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)


def k_config(rec):
    """Quick tests under many combinations of the options."""
    for _ in rec.loop(200, 11 if rec.quick else None):
        d = tempfile.mkdtemp(prefix="hv-c32-")
        try:
            one_suite(rec, d, bodies=["pass", "pass", "passbool", "rejectsome", "skipall", "failbool"], again=None,
                      profiles=["pnoexp", "pnoexp", "pnoexp", *PROFILES], dense=rec.rng.random() < 0.7)
        finally:
            shutil.rmtree(d, ignore_errors=True)


def k_reuse(rec):
    """Failing tests, run again with what the first run stored."""
    for _ in rec.loop(200, 11 if rec.quick else None):
        d = tempfile.mkdtemp(prefix="hv-c32-")
        try:
            one_suite(rec, d, bodies=["failpar", "failpar", "param", "failassert", "failbool"], again="reuse",
                      profiles=["pnoexp", "pfix"])
        finally:
            shutil.rmtree(d, ignore_errors=True)


def one_suite(rec, d, bodies=None, again=0, profiles=None, dense=False):
    rng = rec.rng
    suite = make_suite(rng, bodies)
    suite["dir"] = d
    write_suite(d, suite)
    o = options(rng, profiles, dense)
    if again == "reuse":
        o["args"] = [a for a in o["args"] if "seed" not in a]
        o["seed"] = None
    res = pytest_run(d, o["args"], rec)
    if res is None:
        return
    got = check_suite(rec, suite, o, res)
    if got is None:
        return
    runs, vs = got
    rec.sample(args=o["args"], tests=[t["name"] for t in suite["tests"]], verdicts={i: v[0] for i, v in list(vs.items())[:6]})
    if again == 0:
        again = rng.choice(["seed", "reuse", "noplugin", "seedline", None])
    profile = o["profile"] or suite["confprofile"]
    by_item = {find(vs, b, ps): (t, p, q) for t in suite["tests"] for b, p, q, ps in itemids(t)}
    if again == "seed" or (o["seed"] is not None and again is None and not bodies):
        if o["seed"] is None:
            o = dict(o, seed="77", args=[*o["args"], "--hypothesis-seed=77"])
            shutil.rmtree(os.path.join(d, ".hypothesis"), ignore_errors=True)
            res = pytest_run(d, o["args"], rec)
            runs = check_suite(rec, suite, o, res)[0]
        shutil.rmtree(os.path.join(d, ".hypothesis"), ignore_errors=True)
        res2 = pytest_run(d, o["args"], rec)
        if res2 is None:
            return
        got2 = check_suite(rec, suite, o, res2)
        if got2 is None:
            return
        rec.count("seed_reruns")
        for i, rs in runs.items():
            a, b = [r["x"] for r in rs], [r["x"] for r in got2[0].get(i, [])]
            if a != b:
                fail(rec, "two runs with the same seed differ", res2, suite, item=i, a=a[:20], b=b[:20])
    elif again == "reuse" and profile != "pdet" and o["seed"] is None:
        # the stored examples of a test are tried first, and by that test alone
        res2 = pytest_run(d, o["args"], rec)
        if res2 is None:
            return
        got2 = check_suite(rec, suite, o, res2)
        if got2 is None:
            return
        for i, rs in got2[0].items():
            t, par, q = by_item.get(i, (None,) * 3)
            if t and t["hyp"] and t["body"] in ("failall", "failbool", "failassert", "failcall", "failpar", "param") and vs[i][0] in ("failed", "xfailed"):
                rec.count("reused")
                want = smallest(t, par, q)
                if rs[0]["x"] != want:
                    fail(rec, "the stored failing example was not tried first", res2, suite, item=i, first=rs[0]["x"], want=want)
    elif again == "noplugin":
        res2 = pytest_run(d, ["-p", "no:hypothesispytest"], rec, name="obs2.jsonl")
        if res2 is None:
            return
        vs2 = verdicts(res2)
        for i, (v, *_) in vs.items():
            t = by_item.get(i, (None,))[0]
            if t is None or i not in vs2 or refused(t, profile):
                continue
            if t["hyp"] and t["shape"] != "func" and (t["params"] or set(PARFIX) & set(t["fixtures"])):
                continue  # without the plugin, a new instance per case is reported as another executor
            rec.count("compared_without_plugin")
            if v != vs2[i][0]:
                fail(rec, "the plugin changes a verdict", res2, suite, item=i, with_plugin=v, without=vs2[i][0], test=t)
    elif again == "seedline" and suite.get("seeds"):
        sd, t, par, q, i, xs = rng.choice(suite["seeds"])
        shutil.rmtree(os.path.join(d, ".hypothesis"), ignore_errors=True)
        args = [a for a in o["args"] if a not in ("-m", o["marker"])] + [f"--hypothesis-seed={sd}", i]
        res2 = pytest_run(d, args, rec)
        if res2 is None:
            return
        rs = [e["x"] for e in res2["events"] if e["t"] == "run" and e["id"] == i]
        rec.count("seed_lines")
        if rs != xs or verdicts(res2).get(i, ("?",))[0] != vs[i][0]:
            fail(rec, "the proposed seed does not reproduce the failure", res2, suite, item=i, a=xs[:20], b=rs[:20], seed=sd)


# ---------------------------------------------------------------- suites which do not use Hypothesis

def k_plain(rec):
    for _ in rec.loop(100, 9 if rec.quick else None):
        d = tempfile.mkdtemp(prefix="hv-c32-")
        try:
            one_plain(rec, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)


def one_plain(rec, d):
    rng = rec.rng
    with open(os.path.join(d, "obs.py"), "w") as f:
        f.write(OBS)
    with open(os.path.join(d, "conftest.py"), "w") as f:
        f.write(CONF)
    tests = []
    for k in range(8):
        while True:
            t = make_test(rng, k, 0)
            if t["body"] in ("pass", "failall", "skipall", "xfailall", "failassert", "param", "failcall", "skiputil", "importor"):
                break
        t["hyp"] = False
        t["suppress"] = t["own"] = None
        tests.append(t)
    head = HEAD.replace("from hypothesis import HealthCheck, assume, example, given, reproduce_failure, seed, settings, strategies as st\n", "")
    head = head.replace("from hypothesis.stateful import RuleBasedStateMachine, rule\n", "").replace("from obs import hran, ran, put", "from obs import ran, put")
    with open(os.path.join(d, "test_f0.py"), "w") as f:
        f.write(head + "\n".join("\n".join(source(t)) + "\n" for t in tests))
    args = rng.choice([[], ["-q"], ["-n", "2"], ["--junitxml=out.xml"], ["-s"], ["-x"], ["-m", "not slow"], ["--collect-only", "-q"], ["-rA"]])
    res = pytest_run(d, args, rec)
    res2 = pytest_run(d, [*args, "-p", "no:hypothesispytest"], rec, name="obs2.jsonl")
    if res is None or res2 is None:
        return
    rec.count("plain_sessions")
    a, b = verdicts(res), verdicts(res2)
    for e in res["events"]:
        if e["t"] == "end" and e["imported"]:
            fail(rec, "the plugin imported Hypothesis although nothing uses it", res, None)

    def clean(v):
        # the verdict and the message; paths, addresses and times differ
        return {i: (x[0], [re.sub(r"0x[0-9a-f]+|\d+", "#", ln) for ln in x[1].splitlines() if ln[:1] in ("E", ">")]) for i, x in v.items()}
    if clean(a) != clean(b):
        bad = sorted(i for i in set(a) | set(b) if clean(a).get(i) != clean(b).get(i))
        fail(rec, "the plugin changes tests which do not use Hypothesis", res, None, items=bad, a=[clean(a).get(i) for i in bad], b=[clean(b).get(i) for i in bad])
    for i in a:
        rec.observed("item:" + str(stable_hash(i + repr(args)))); rec.count("items")
    if "Hypothesis" in res["out"].replace("plugins: hypothesis", ""):
        fail(rec, "the plugin reports although nothing uses Hypothesis", res, None)
