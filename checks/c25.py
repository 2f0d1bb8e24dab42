"""C25: observability records and statistics tell the truth about every execution."""
import contextlib
import dataclasses
import enum
import gc
import inspect
import json
import math
import re
import sys
import time
import unittest
from collections import Counter

import attr
from hypothesis import Phase, assume, event, example, given, note, reject, seed, strategies as st, target
from hypothesis.database import InMemoryExampleDatabase
from hypothesis.errors import Unsatisfiable
from hypothesis.internal.observability import TESTCASE_CALLBACKS
from hypothesis.stateful import RuleBasedStateMachine, precondition, rule, run_state_machine_as_test
from hypothesis.statistics import collector, describe_statistics

from hv.util import HvFail, HvFail2, S, call, stable_hash

INFO = dict(
    technique="runtime monitoring: every execution of generated tests keeps its own log (arguments, events, targets, predicates, fate, lines "
              "reached); the records delivered to the observability callback and the collected statistics are checked against those logs, "
              "and the same run without the callback must try the same inputs and end the same way",
    level="exploration",
    rule="One evaluation = one delivered record (or one run's statistics) checked against the log of the execution it describes. "
         "Non-trivial = distinct (record kind, fate, argument strategies).",
    floors={"records": 3000, "failed_records": 60, "gave_up_records": 400, "explicit_records": 30, "final_records": 20, "stats_runs": 30,
            "onoff_pairs": 25, "coverage_checked": 500, "events_checked": 300, "hostile_values": 300, "interrupted_records": 3, "phase_findings": 40, "later_findings": 3},
)
KINDS = ["tests0", "tests1", "tests2", "stateful0", "onoff0", "onoff1", "hostile0", "interrupts0", "phases0"]


def units(tier, seed):
    reps = 1 if tier == "quick" else 10
    return [dict(name=f"{k}-{i}", kind=k, timeout=800) for i in range(reps) for k in KINDS]


def run(unit, rec):
    if rec.seed % 2:
        gc.set_threshold(60)  # collections at every awkward moment
    globals()["k_" + unit["kind"].rstrip("0123456789")](rec)


class Stop(BaseException):
    pass


# ---------------------------------------------------------------- values

class Colour(enum.Enum):
    RED = 1
    BLUE = "b"


@dataclasses.dataclass
class DC:
    x: object
    y: object = None


@attr.s
class At:
    z = attr.ib()


class Jsonish:
    def __init__(self, v):
        self.v = v

    def to_json(self):
        return {"v": self.v}

    def __repr__(self):
        return f"Jsonish({self.v!r})"


class Odd:
    def __repr__(self):
        return "<odd ' \" \\ \n \ud800 \x00 thing>"


class BadJson:
    def to_json(self):
        raise RuntimeError("no json for you")

    def __repr__(self):
        return "BadJson()"


def cyc_list(v):
    x = [v]
    x.append(x)
    return x


def cyc_dict(v):
    x = {"v": v}
    x["self"] = [x]
    return x


def cyc_dc(v):
    x = DC(v)
    x.y = [x]
    return x


def plain():
    s = st.one_of(st.none(), st.booleans(), st.integers(), st.floats(allow_nan=False, allow_infinity=False), st.text(max_size=5))
    return st.recursive(s, lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(st.text(max_size=3), c, max_size=3),
                                               st.tuples(c, c)), max_leaves=6)


STRATS = {
    "int": lambda: st.integers(), "small": lambda: st.integers(0, 9), "float": lambda: st.floats(), "text": lambda: st.text(max_size=8),
    "lists": lambda: st.lists(st.integers(-5, 5), max_size=5), "plain": plain, "bytes": lambda: st.binary(max_size=4),
    "huge": lambda: st.integers(2**62, 2**1100) | st.integers(-2**1100, -2**62), "enum": lambda: st.sampled_from(Colour),
    "dc": lambda: st.builds(DC, st.integers(0, 9), st.lists(st.floats(), max_size=2)), "attrs": lambda: st.builds(At, st.text(max_size=3)),
    "sets": lambda: st.frozensets(st.integers(0, 50), max_size=4), "complex": lambda: st.complex_numbers(),
    "jsonish": lambda: st.builds(Jsonish, st.floats() | st.lists(st.booleans(), max_size=2)), "odd": lambda: st.builds(Odd),
    "badjson": lambda: st.builds(BadJson), "cyclist": lambda: st.builds(cyc_list, st.integers()),
    "cycdict": lambda: st.builds(cyc_dict, st.integers()), "cycdc": lambda: st.builds(cyc_dc, st.integers()),
    "keyed": lambda: st.dictionaries(st.tuples(st.integers(), st.none()) | st.floats(), st.floats(), max_size=2),
    "filtered": lambda: st.integers(0, 99).filter(lambda x: x % 3), "surr": lambda: st.characters(categories=["Cs"]),
    "gen": lambda: st.builds(lambda: (i for i in range(3))), "dcgen": lambda: st.builds(lambda: DC((i for i in range(3)))),
}
HOSTILE = ["float", "huge", "dc", "jsonish", "odd", "badjson", "cyclist", "cycdict", "cycdc", "keyed", "surr", "gen", "dcgen", "complex"]


def agrees(v, j, depth=0):
    """Is j (parsed from strict json) a faithful rendering of v?"""
    if v is None or isinstance(v, bool):
        return j is v
    if isinstance(v, int):
        if abs(v) < 2**63:
            return j == v and not isinstance(j, bool)
        return isinstance(j, (int, float)) and (j > 0) == (v > 0) and (j == v or j == float(max(-sys.float_info.max, min(v, sys.float_info.max))))
    if isinstance(v, float):
        if math.isfinite(v):
            return j == v and math.copysign(1, j) == math.copysign(1, v)
        return isinstance(j, str)
    if isinstance(v, str):
        return j == v
    if depth > 4:
        return True
    if isinstance(v, (set, frozenset)):
        return isinstance(j, list) and len(j) == len(v)
    if isinstance(v, (list, tuple)):
        return isinstance(j, list) and len(j) == len(v) and all(agrees(a, b, depth + 1) for a, b in zip(v, j)) or depth and isinstance(j, str)
    if isinstance(v, dict):
        if all(isinstance(k, str) for k in v):
            return isinstance(j, dict) and list(j) == list(v) and all(agrees(v[k], j[k], depth + 1) for k in v) or depth and isinstance(j, str)
        return isinstance(j, dict)
    if isinstance(v, DC):
        return isinstance(j, dict) and set(j) == {"x", "y"} and agrees(v.x, j["x"], depth + 1) and agrees(v.y, j["y"], depth + 1) or (
            depth and isinstance(j, str))
    if isinstance(v, At):
        return isinstance(j, dict) and agrees(v.z, j["z"], depth + 1)
    if isinstance(v, Jsonish):
        return isinstance(j, dict) and agrees(v.v, j["v"], depth + 1)
    if isinstance(v, complex):
        try:
            w = complex(eval(j, {"__builtins__": {}, "complex": complex, "nan": math.nan, "inf": math.inf, "nanj": complex(0, math.nan), "infj": complex(0, math.inf)}))
        except Exception:
            return isinstance(j, str) and (v != v) and ("nan" in j or "struct" in j)
        return all(a == b or math.isnan(a) and math.isnan(b) for a, b in ((v.real, w.real), (v.imag, w.imag))) or j == repr(v)
    if isinstance(v, (bytes, Colour)):
        return isinstance(j, str) and j == (f"Colour.{v.name}" if isinstance(v, Colour) else repr(v))
    return isinstance(j, str)


# ---------------------------------------------------------------- schema

REQUIRED = {"type": str, "status": str, "status_reason": str, "representation": str, "arguments": dict, "how_generated": (str, type(None)),
            "features": dict, "coverage": (dict, type(None)), "timing": dict, "metadata": dict, "property": str, "run_start": (int, float)}
INFOKEYS = {"type": str, "title": str, "content": (str, dict), "property": str, "run_start": (int, float)}


def schema_problem(r):
    want = REQUIRED if r.get("type") == "test_case" else INFOKEYS
    if set(r) != set(want):
        return f"keys {sorted(set(r) ^ set(want))}"
    for k, t in want.items():
        if not isinstance(r[k], t):
            return f"{k}: {type(r[k]).__name__}"
    if r["type"] == "test_case":
        if r["status"] not in ("passed", "failed", "gave_up"):
            return "status " + r["status"]
        for k, v in r["timing"].items():
            if isinstance(v, bool) or not isinstance(v, (int, float)) or not v >= 0:
                return f"timing {k}={v!r}"
        for f, lines in (r["coverage"] or {}).items():
            if not (isinstance(lines, list) and all(type(x) is int and x >= 1 for x in lines) and len(set(lines)) == len(lines)):
                return f"coverage of {f}"
    elif r["type"] not in ("info", "alert", "error"):
        return "type"


class Exec:
    def __init__(self, how):
        self.how, self.fate, self.args, self.events, self.targets, self.preds = how, "unfinished", None, {}, {}, Counter()
        self.draws, self.lines, self.records, self.exc, self.t0, self.body = {}, set(), [], None, time.perf_counter(), False


class Watch:
    """Execution logs of one run, and the records attributed to them."""

    def __init__(self, name):
        self.name, self.execs, self.infos, self.errors, self.orphans = name, [], [], [], []

    def start(self, how="draw"):
        self.execs.append(Exec(how))
        return self.execs[-1]

    def __call__(self, r):
        try:
            raw = json.dumps(r, allow_nan=False)
            r = json.loads(raw)
        except Exception as e:
            self.errors.append(f"record is not valid JSON: {e!r}: {str(r)[:500]}")
            return
        if p := schema_problem(r):
            self.errors.append(f"record does not match the schema: {p}: {raw[:600]}")
        if r["type"] != "test_case":
            self.infos.append((r, len(self.execs)))
        elif not self.execs:
            self.orphans.append(r)
        else:
            self.execs[-1].records.append(r)
            self.execs[-1].wall = time.perf_counter() - self.execs[-1].t0


HERE = __file__


def L():
    return inspect.currentframe().f_back.f_lineno


def make(rng, strats, weights):
    """A test whose fate depends on its arguments, and the Watch that follows it."""
    watch = Watch("t")
    salt = rng.randrange(10**9)
    slots = {}
    tick = st.builds(lambda: watch.start())

    def h(args, k):
        return stable_hash((salt, k, args)) % 100

    def body(e, **kw):
        if not isinstance(e, Exec):
            e = watch.start("explicit")
        e.body = True
        e.args = dict(kw)
        data = kw.pop("data", None)
        key = repr([v for k, v in sorted(kw.items()) if isinstance(v, (int, str, bytes, bool, type(None)))])
        try:
            if h(key, "ev") < 40:
                e.events[f"ev{h(key, 'n') % 3}"] = ""
                event(f"ev{h(key, 'n') % 3}")
            if h(key, "pay") < 30:
                p = [3, 2.5, "s", -1, float("nan"), float("inf"), 2**70, 0, False, -0.0, ""][h(key, "p") % 11]
                e.events["pay"] = p
                event("pay", p)
            if weights["target"] and h(key, "tg") < 60:
                e.targets["target:lab" if h(key, "l") < 50 else "target"] = v = float(h(key, "v"))
                target(v, label="lab" if h(key, "l") < 50 else "")
            if data is not None:
                for i in range(h(key, "nd") % 3):
                    lab = f"d{i}" if h(key, ("lab", i)) < 50 else None
                    e.draws[f"Draw {i + 1}" + (f" ({lab})" if lab else "")] = data.draw(st.integers(0, 1000), label=lab)
            if h(key, "as") < weights["assume"]:
                e.fate, e.lines = "assume", e.lines | {L()}  # watched
                e.preds["unsatisfied"] += 1
                assume(False)
            else:
                e.preds["satisfied"] += 1
                e.lines.add(L())  # watched
                assume(True)
            if h(key, "re") < weights["reject"]:
                e.fate, e.lines = "reject", e.lines | {L()}  # watched
                e.preds["unsatisfied"] += 1
                reject()
            if h(key, "f1") < weights["fail"]:
                e.fate, e.lines = "HvFail", e.lines | {L()}  # watched
                raise HvFail(key)
            if h(key, "f2") < weights["fail"]:
                e.fate, e.lines = "HvFail2", e.lines | {L()}  # watched
                raise HvFail2(key)
            if h(key, "f3") < weights["interrupt"]:
                e.fate = ["KeyboardInterrupt", "SkipTest", "Stop"][h(key, "ik") % 3]
                raise [KeyboardInterrupt, unittest.SkipTest, Stop][h(key, "ik") % 3]()
            e.fate = "passed"
            e.lines.add(L())  # watched
        except BaseException as ex:
            if e.fate == "unfinished":
                e.fate = "overrun"
            e.exc = ex
            raise
    names = [f"a{i}" for i in range(len(strats))]
    ns = {"body": body}
    extra = ", data" if weights.get("data") else ""
    exec(f"def t(e, {', '.join(names)}{extra}):\n    body(e, {', '.join(f'{n}={n}' for n in names)}{', data=data' if extra else ''})", ns)
    t = ns["t"]
    t.__module__ = "hv_c25"
    slots.update({n: STRATS[s]() for n, s in zip(names, strats)})
    kw = dict(e=tick, **slots)
    if weights.get("data"):
        kw["data"] = st.data()
    return t, kw, watch, names


FATES = {"passed": "passed", "HvFail": "failed", "HvFail2": "failed"}


def judge(rec, watch, what, *, stats=None, final_fate=None, names=(), explicit=0):
    bad = []
    bad += watch.errors
    if watch.orphans:
        bad.append(f"{len(watch.orphans)} records before any execution: {watch.orphans[0]}")
    starts, props = set(), set()
    for i, e in enumerate(watch.execs):
        if len(e.records) != 1:
            bad.append(f"execution {i} ({e.how}, {e.fate}) delivered {len(e.records)} records: "
                       f"{[(r['how_generated'], r['status']) for r in e.records]}")
            continue
        r = e.records[0]
        starts.add(r["run_start"])
        props.add(r["property"])
        fate = e.fate if e.body else "strategy"
        rec.count("records")
        want = FATES.get(fate, "gave_up")
        rec.observed((what, fate, r["how_generated"]))
        where = f"execution {i} ({e.how}, fate {fate}, args {e.args!r}), record {str(r)[:1200]}"
        if r["status"] != want:
            bad.append(f"status {r['status']!r} but should be {want!r}: {where}")
        rec.count(want + "_records")
        if fate in ("KeyboardInterrupt", "SkipTest", "Stop"):
            rec.count("interrupted_records")
        reason = r["status_reason"]
        if want == "passed" and reason not in ("",):
            bad.append(f"passed with a reason {reason!r}: {where}")
        if fate in ("HvFail", "HvFail2") and not (reason.startswith(fate + " at ") and "c25.py:" in reason):
            bad.append(f"failure reason {reason!r}: {where}")
        if fate in ("assume", "reject") and fate not in reason:
            bad.append(f"rejection reason {reason!r}: {where}")
        if fate in ("HvFail", "HvFail2") and (fate not in (r["metadata"].get("traceback") or "") or "Traceback" not in r["metadata"]["traceback"]):
            bad.append(f"no traceback in metadata: {where}")
        if fate not in ("HvFail", "HvFail2") and r["metadata"].get("traceback") is not None:
            bad.append(f"traceback for an execution that did not fail: {where}")
        # how generated
        hg = r["how_generated"] or ""
        if (e.how == "explicit") != (hg == "explicit example"):
            bad.append(f"how_generated {hg!r}: {where}")
        if e.how == "explicit":
            rec.count("explicit_records")
        if hg == "minimal failing example":
            rec.count("final_records")
        elif e.how != "explicit" and hg not in ("during reuse phase", "during generate phase", "during shrink phase", "during explain phase",
                                                "during target phase"):
            bad.append(f"how_generated {hg!r}: {where}")
        # arguments
        if e.body and names:
            for n in names:
                if n not in r["arguments"]:
                    bad.append(f"argument {n} missing: {where}")
                elif not agrees(e.args[n], r["arguments"][n]):
                    bad.append(f"argument {n} is {e.args[n]!r}, recorded as {r['arguments'][n]!r}: {where}")
            for lab, v in e.draws.items():
                if r["arguments"].get(lab) != v:
                    bad.append(f"interactive draw {lab!r} = {v!r} recorded as {r['arguments'].get(lab)!r}: {where}")
            extra = set(r["arguments"]) - set(names) - set(e.draws) - {"e", "data"}
            if extra and fate != "overrun":
                bad.append(f"arguments that were never drawn {extra}: {where}")
            rep = r["representation"]
            if not rep.startswith("t(") or any(f"{n}=" not in rep for n in names):
                bad.append(f"representation {rep!r}: {where}")
            for n in names:
                v = e.args[n]
                if type(v) in (int, bytes, bool) and n + "=" + repr(v) not in rep and abs(int(v) if type(v) is int else 0) < 10**9:
                    bad.append(f"representation has no {n}={v!r}: {where}")
        # features
        if e.body:
            f = dict(r["features"])
            for k, v in e.events.items():
                rec.count("events_checked")
                if k not in f or not agrees(v, f.pop(k)):
                    bad.append(f"event {k!r} with payload {v!r} recorded as {r['features'].get(k)!r}: {where}")
            for k, v in e.targets.items():
                if f.pop(k, None) != v:
                    bad.append(f"{k!r} = {v!r} recorded as {r['features'].get(k)!r}: {where}")
            if extra := {k for k in f if not k.startswith(("Retried draw", "Draw for recursive("))}:
                bad.append(f"features the execution did not produce {extra}: {where}")
            p = r["metadata"]["predicates"]
            tot = Counter()
            for loc, c in p.items():
                tot.update(c)
            if hg != "explicit example" and {k: v for k, v in tot.items() if v} != {k: v for k, v in e.preds.items() if v}:
                bad.append(f"predicates {p} but really {dict(e.preds)}: {where}")
        # coverage
        if e.body and r["coverage"] is not None:
            mine = set(r["coverage"].get(HERE, ()))
            rec.count("coverage_checked")
            if not e.lines <= mine:
                bad.append(f"lines {sorted(e.lines - mine)} ran but are not in coverage: {where}")
            ghost = (WATCHED & mine) - e.lines
            if ghost:
                bad.append(f"lines {sorted(ghost)} did not run but are in coverage: {where}")
        # timing
        if sum(v for v in r["timing"].values()) > e.wall + 0.05:
            bad.append(f"timing adds up to more than the {e.wall} s that passed: {where}")
        if e.body and hg != "explicit example" and fate in FATES and not {"execute:test"} <= set(r["timing"]):
            bad.append(f"timing keys {sorted(r['timing'])}: {where}")
        if e.body and e.how != "explicit":
            for n in names:
                if f"generate:{n}" not in r["timing"] and fate in FATES:
                    bad.append(f"no generate:{n} in timing: {where}")
        if e.how == "explicit" and any(k.startswith("generate:a") for k in r["timing"]):
            bad.append(f"explicit example with generation times: {where}")
    if len(starts) > 1 or len(props) > 1:
        bad.append(f"records of one run disagree about it: {starts} {props}")
    if stats is not None:
        bad += judge_stats(rec, watch, stats)
    for b in bad[:2]:
        rec.violation("record:" + b.split(":")[0].split(" ")[0], f"{what}: {b}")
    return not bad


def judge_stats(rec, watch, stats):
    bad = []
    rec.count("stats_runs")
    rec.observed()
    by = {}
    for e in watch.execs:
        if e.records and (e.records[0]["how_generated"] or "").startswith("during "):
            by.setdefault(e.records[0]["how_generated"].split()[1].replace("target", "generate"), []).append(e)
    for ph in ("reuse", "generate", "shrink"):
        cases = stats.get(f"{ph}-phase", {}).get("test-cases", [])
        es = by.get(ph, [])
        got = [c["status"] for c in cases]
        want = [("invalid", "overrun") if FATES.get(e.fate if e.body else "s", "gave_up") == "gave_up" else
                ("valid",) if e.fate == "passed" else ("interesting",) for e in es]
        if es and es[-1].fate in ("KeyboardInterrupt", "SkipTest", "Stop") and len(want) == len(got) + 1:
            want.pop(), es.pop()
        if len(got) != len(want) or not all(g in w for g, w in zip(got, want)):
            bad.append(f"statistics of the {ph} phase list {Counter(got)} but the executions were {Counter(w[-1] for w in want)}")
            continue
        for c, e in zip(cases, es):
            evs = sorted(x for x in c["events"] if not x.startswith(("invalid because", "Retried draw", "Draw for recursive(")))
            mine = sorted(k if v == "" else f"{k}: {v}" for k, v in e.events.items())
            if e.body and evs != mine:
                bad.append(f"statistics list events {evs} for a case with {mine}")
                break
            inv = [x for x in c["events"] if x.startswith("invalid because")]
            if e.body and bool(inv) != (e.fate in ("assume", "reject")):
                bad.append(f"statistics give {inv} for a case whose fate was {e.fate}")
                break
            if not 0 <= c["drawtime"] or not 0 <= c["runtime"]:
                bad.append(f"negative times {c}")
        text = describe_statistics(stats)
        if cases:
            n = Counter(w[-1] for w in want)
            line = f"{n['valid']} passing examples, {n['interesting']} failing examples, {n['overrun']} invalid examples"
            if line not in text:
                bad.append(f"description does not say {line!r}:\n{text}")
            if ph == "generate":
                allev = Counter(x for c in cases for x in set(c["events"]))
                for k, v in allev.items():
                    if f"      * {100 * v / len(cases):.2f}%, {k}" not in text.split("\n") and "\n" not in k:
                        bad.append(f"description lacks {100 * v / len(cases):.2f}%, {k}:\n{text}")
                        break
    best = {}
    for e in watch.execs:
        if e.fate == "passed" and e.how != "explicit":
            for k, v in e.targets.items():
                lab = k.removeprefix("target").removeprefix(":")
                best[lab] = max(best.get(lab, -1e99), v)
    got = stats.get("targets", {})
    if {k: v for k, v in got.items()} != best and not any(e.fate.startswith("HvFail") for e in watch.execs):
        bad.append(f"statistics say the best targets were {got}, really {best}")
    return bad


@contextlib.contextmanager
def coverage(on):
    """Coverage is slow; Hypothesis leaves it alone when another tool uses its slot."""
    if on:
        yield
        return
    sys.monitoring.use_tool_id(3, "hv")
    try:
        yield
    finally:
        sys.monitoring.free_tool_id(3)


def run_watched(t, watch, on=True, cover=True):
    out = []
    if on:
        TESTCASE_CALLBACKS.append(watch)
    try:
        with coverage(cover), collector.with_value(out.append):
            o = call(t)
    finally:
        if on:
            TESTCASE_CALLBACKS.remove(watch)
    return o, out


def decorate(rng, t, kw, sd, explicit=(), **S_kw):
    f = seed(sd)(given(**kw)(t))
    for ex in explicit:
        f = example(**ex)(f)
    return S(**S_kw)(f)


def rand_weights(rng):
    return dict(assume=rng.choice([0, 5, 20, 60]), reject=rng.choice([0, 5, 20]), fail=rng.choice([0, 0, 1, 5, 30]), interrupt=0,
                target=rng.random() < 0.3, data=rng.random() < 0.3)


def explicit_for(rng, names, w):
    out = []
    for _ in range(rng.choice([0, 0, 1, 3])):
        d = {n: rng.choice([rng.randrange(1000), "x", None, [1, 2], b"b"]) for n in names}
        if w.get("data"):
            break
        out.append(dict(e=None, **d))
    return out


PH = [Phase.explicit, Phase.reuse, Phase.generate, Phase.target, Phase.shrink]


def k_tests(rec):
    rng = rec.rng
    for _ in rec.loop(60, 9):
        strats = [rng.choice(["int", "text"])] + [rng.choice(list(STRATS)) for _ in range(rng.randint(0, 2))]
        w = rand_weights(rng)
        t, kw, watch, names = make(rng, strats, w)
        f = decorate(rng, t, kw, rng.randrange(2**32), explicit_for(rng, names, w), max_examples=rng.choice([1, 10, 40]),
                     phases=PH + [Phase.explain] * rng.randrange(2), report_multiple_bugs=rng.random() < 0.7)
        o, stats = run_watched(f, watch, cover=rng.random() < 0.15)
        engine = [s for s in stats if "stopped-because" in s]
        judge(rec, watch, f"test({', '.join(strats)}) with {w}", stats=engine[-1] if engine else None, names=names)
        # the run's verdict and its records must tell the same story
        failed = any(e.fate in ("HvFail", "HvFail2") for e in watch.execs)
        if not (failed == (o.exc is not None) or isinstance(o.exc, Unsatisfiable)):
            rec.violation("verdict", f"failed={failed} but the run ended with {o.exc!r}")
        if failed and engine and len([e for e in watch.execs if e.records and e.records[0]["how_generated"] == "minimal failing example"]) == 0 \
                and not any(e.how == "explicit" and e.fate.startswith("HvFail") for e in watch.execs):
            rec.violation("nofinal", f"no record of the final replay of {o.exc!r}")
        for r, at in watch.infos:
            if r["title"] == "Hypothesis Statistics" and at < len([e for e in watch.execs if e.how != "explicit"]) and \
                    any(e.records and e.records[0]["how_generated"].startswith("during") for e in watch.execs[at:]):
                rec.violation("info", "statistics were reported before the run was over")


def k_hostile(rec):
    rng = rec.rng
    for i in rec.loop(40, 9):
        strats = ["int", HOSTILE[i % len(HOSTILE)]] + [rng.choice(HOSTILE) for _ in range(rng.randint(0, 2))]
        w = dict(assume=10, reject=5, fail=rng.choice([0, 10]), interrupt=0, target=False, data=False)
        t, kw, watch, names = make(rng, strats, w)
        f = decorate(rng, t, kw, rng.randrange(2**32), max_examples=30, phases=PH)
        o, stats = run_watched(f, watch, cover=False)
        rec.count("hostile_values", sum(e.body for e in watch.execs))
        engine = [s for s in stats if "stopped-because" in s]
        judge(rec, watch, f"hostile({', '.join(strats)})", stats=engine[-1] if engine else None, names=names)
        bad = [x for x in leaves(o.exc) if not isinstance(x, (HvFail, HvFail2, Unsatisfiable))]
        if bad:
            rec.violation("hostile:outcome", f"{strats}: with observability the run raised {bad[0]!r}")


def leaves(e):
    return [] if e is None else [x for s in e.exceptions for x in leaves(s)] if isinstance(e, BaseExceptionGroup) else [e]


def k_interrupts(rec):
    rng = rec.rng
    for _ in rec.loop(60, 9):
        strats = [rng.choice(["int", "small", "text"]) for _ in range(rng.randint(1, 2))]
        w = dict(assume=10, reject=5, fail=rng.choice([0, 3]), interrupt=rng.choice([2, 5, 20]), target=False, data=False)
        t, kw, watch, names = make(rng, strats, w)
        f = decorate(rng, t, kw, rng.randrange(2**32), explicit_for(rng, names, w), max_examples=100, phases=PH)
        TESTCASE_CALLBACKS.append(watch)
        try:
            try:
                f()
            except BaseException as e:
                if isinstance(e, (SystemExit, GeneratorExit)):
                    raise
        finally:
            TESTCASE_CALLBACKS.remove(watch)
        judge(rec, watch, f"interrupted({', '.join(strats)}) with {w}", names=names)


def sig(watch):
    from hypothesis.vendor.pretty import pretty
    return [(e.how, e.fate, "strategy" if not e.body else {k: pretty(v).split(" at 0x")[0] for k, v in e.args.items() if k != "data"},
             list(e.draws.items())) for e in watch.execs]


def k_onoff(rec):
    rng = rec.rng
    for _ in rec.loop(30, 9):
        strats = ["int"] + [rng.choice([s for s in STRATS if s not in ("gen", "dcgen", "odd", "badjson")]) for _ in range(rng.randint(0, 2))]
        w = rand_weights(rng)
        st8, sd = rng.getstate(), rng.randrange(2**32)
        got, cover = [], rng.random() < 0.2
        phases = PH + [Phase.explain] * rng.randrange(2)
        n = rng.choice([10, 20, 50])
        for mode in ("off", "on"):
            rng.setstate(st8)
            t, kw, watch, names = make(rng, strats, w)
            ex = explicit_for(rng, names, w)
            f = decorate(rng, t, kw, sd, ex, max_examples=n, phases=phases)
            if mode == "off" and rng.random() < 0.5:
                with coverage(cover):
                    o = call(f)   # not even statistics
            else:
                o, _s = run_watched(f, watch, on=mode == "on", cover=cover)
            got.append((sig(watch), [(type(x).__name__, str(x)) for x in leaves(o.exc)], o.out,
                        [getattr(x, "__notes__", None) for x in leaves(o.exc)]))
        rec.count("onoff_pairs")
        rec.observed(("onoff", tuple(strats), sd))
        a, b = got
        explain = Phase.explain in phases
        if [x for x in a[0]] != [x for x in b[0]]:
            i = next((i for i, (x, y) in enumerate(zip(a[0], b[0])) if x != y), min(len(a[0]), len(b[0])))
            rec.violation("onoff:inputs", f"{strats} {w}: execution {i} differs once observability is on: "
                          f"{a[0][i:i + 1]} / {b[0][i:i + 1]} ({len(a[0])} / {len(b[0])} executions)")
        if a[1] != b[1] or (not explain and (a[2], a[3]) != (b[2], b[3])):
            rec.violation("onoff:outcome", f"{strats} {w}: observability off: {a[1:]}\non: {b[1:]}")


def k_stateful(rec):
    rng = rec.rng
    for _ in rec.loop(30, 9):
        watch = Watch("m")
        pf, salt = rng.choice([0, 0, 10, 3]), rng.randrange(10**9)

        class M(RuleBasedStateMachine):
            def __init__(self):
                super().__init__()
                self.e = watch.start()
                self.e.body, self.e.fate, self.e.args, self.n, self.e.steps = True, "passed", {}, 0, []

            @precondition(lambda self: self.n % 3 != 2)
            @rule(x=st.integers(0, 100))
            def a(self, x):
                self.n += 1
                self.e.steps.append(x)
                if pf and stable_hash((salt, x)) % 100 < pf and self.n > 2:
                    self.e.fate = "HvFail"
                    raise HvFail(x)

            @rule(y=st.text(max_size=3))
            def b(self, y):
                self.n += 1
                if stable_hash((salt, y, "r")) % 100 < 3:
                    self.e.fate = "reject"
                    self.e.preds["unsatisfied"] += 1
                    reject()

            def teardown(self):
                self.e.ended = True
        TESTCASE_CALLBACKS.append(watch)
        out = []
        try:
            with collector.with_value(out.append):
                M._hypothesis_internal_use_settings = None
                o = call(run_state_machine_as_test, M, settings=S(max_examples=30, stateful_step_count=rng.choice([3, 10]), phases=PH))
        finally:
            TESTCASE_CALLBACKS.remove(watch)
        bad = list(watch.errors)
        for i, e in enumerate(watch.execs):
            rec.count("records")
            if len(e.records) != 1:
                bad.append(f"execution {i} of a machine delivered {len(e.records)} records")
                continue
            r = e.records[0]
            rec.observed(("stateful", e.fate, r["how_generated"]))
            want = FATES.get(e.fate, "gave_up")
            rec.count(want + "_records")
            # choosing the next rule or its arguments may have been what ended the case
            if r["status"] != want and not (e.fate == "passed" and r["status"] == "gave_up" and (
                    r["status_reason"] in ("", "exceeded size of current best example") or "Aborted test" in r["status_reason"])):
                bad.append(f"machine execution {i} with fate {e.fate} recorded as {r['status']}: {str(r)[:800]}")
            if want == "failed" and not r["status_reason"].startswith("HvFail at "):
                bad.append(f"reason {r['status_reason']!r}")
            rep = r["representation"]
            if "state = M()" not in rep or (want == "failed" and "state.teardown()" not in rep):
                bad.append(f"representation of a machine run: {rep!r}")
            said = [int(x) for x in re.findall(r"state\.a\(x=(-?\d+)\)", rep)]
            if said != e.steps:
                bad.append(f"representation lists the steps {said} but they were {e.steps}: {rep!r}")
        for b in bad[:2]:
            rec.violation("stateful:" + b[:20], b)


# lines of body() that enter themselves in e.lines: the log decides which of them belong in coverage
WATCHED = {n for n, line in enumerate(inspect.getsource(sys.modules[__name__]).split("\n"), 1) if line.endswith("# watched")}


def k_phases(rec):
    """Runs which find different failures in different phases: the report says how many new ones each phase found."""
    rng = rec.rng
    for _ in rec.loop(40, 9):
        n, db = rng.randint(1, 4), InMemoryExampleDatabase()
        log, lo = [], []

        def body(a, b, **extra):
            # smaller values fail differently, so that shrinking one failure meets others
            for k, x in enumerate(lo):
                if b >= x and a > 3:
                    log.append(k)
                    raise (HvFail if k % 2 else HvFail2)(str(k)) if k < 2 else [OSError, KeyError][k % 2](k)

        kw = dict(a=st.integers(0, 99), b=st.integers(0, 10**6))
        for _ in range(rng.randint(2, 3)):
            # what failed minimally last time may fail otherwise (or pass) now, while larger failures persist
            lo[:] = sorted((int(10 ** rng.uniform(1, 6)) for _ in range(n)), reverse=True)
            log.clear()
            extra = {f"x{j}": st.booleans() for j in range(rng.choice([0, 0, 1, 2]))}  # stored choices need not fit exactly
            f = decorate(rng, body, kw | extra, rng.randrange(2**32), max_examples=rng.choice([10, 60, 200]), phases=PH, database=db,
                         report_multiple_bugs=rng.random() < 0.9)
            stats = []
            with coverage(False), collector.with_value(stats.append):
                call(f)
            stats = [s for s in stats if "stopped-because" in s]
            if not stats:
                continue
            text, i, seen, lines = describe_statistics(stats[0]), 0, set(), []
            rec.observed((n, len(stats[0]), len(set(log))))
            for ph in ("reuse", "generate", "shrink"):
                cases = stats[0].get(f"{ph}-phase", {}).get("test-cases", [])
                m = sum(c["status"] == "interesting" for c in cases)
                new = {k for k in log[i:i + m]} - seen
                if new:
                    lines.append(f"    - Found {len(new)} {'more ' * bool(seen)}distinct error{'s' * (len(new) > 1)} in this phase")
                    rec.count("phase_findings")
                    rec.count("later_findings", bool(seen))
                if cases:
                    line = f"  - during {ph} phase"
                    if text.count(line) != 1:
                        rec.violation("phase:missing", f"{line!r} is not in the description:\n{text}")
                i, seen = i + m, seen | new
            if i + len(seen) < len(log) and i > len(log):
                rec.violation("phase:cases", f"{i} failing cases in the statistics, {len(log)} failures in the test")
            got = [x for x in text.split("\n") if x.startswith("    - Found ")]
            if got != lines:
                rec.violation("phase:found", f"the phases found {lines}, the description says {got}:\n{text}")
