"""Parent process of every check:  python3 -m hv.run C01 [--tier T] [--seed N] [--replay FILE]

Loads checks/<id>.py (stdlib-only at import time is NOT required: it is imported in a
child), asks it for its units, runs each unit in its own worker process (fresh
interpreter, scratch working directory), merges what the monitors observed, applies
known_findings.json, writes evidence/<id>.json and prints the verdict.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("HV_REPO", "/repo"))
PY = "/opt/venv/bin/python"
SRC = REPO / "hypothesis-python" / "src"


def worker_env(scratch, extra=None):
    env = {
        k: v
        for k, v in os.environ.items()
        if k in ("PATH", "LANG", "LC_ALL", "VERIF_SEED", "VERIF_TIER", "HV_REPO", "HOME")
    }
    env.update(
        PYTHONPATH=f"{SRC}:{VERIF}",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        PYTHONUNBUFFERED="1",
        TMPDIR=str(scratch),
        HV_SCRATCH=str(scratch),
        HYPOTHESIS_STORAGE_DIRECTORY=str(Path(scratch) / ".hypothesis"),
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
    )
    env.update(extra or {})
    return env


def load_units(cid, tier, seed):
    scratch = tempfile.mkdtemp(prefix=f"hv-{cid}-units-")
    try:
        out = subprocess.run(
            [PY, "-m", "hv.worker", cid, "--list", tier, str(seed)],
            cwd=scratch, env=worker_env(scratch), capture_output=True, text=True,
            timeout=300,
        )
        if out.returncode != 0:
            return None, out.stdout[-3000:] + out.stderr[-6000:]
        return json.loads(out.stdout.strip().splitlines()[-1]), ""
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run_units(cid, units, tier, seed, jobs):
    """Run the units, at most `jobs` at a time.  Yields (unit, result-or-None, log)."""
    root = Path(tempfile.mkdtemp(prefix=f"hv-{cid}-"))
    pending = list(enumerate(units))
    running = []
    try:
        while pending or running:
            while pending and len(running) < jobs:
                i, unit = pending.pop(0)
                scratch = root / f"u{i}"
                scratch.mkdir()
                spec = scratch / "unit.json"
                res = scratch / "result.json"
                spec.write_text(json.dumps(dict(unit=unit, tier=tier, seed=seed)))
                log = open(scratch / "log", "wb")
                proc = subprocess.Popen(
                    [PY, "-m", "hv.worker", cid, "--unit", str(spec), str(res)],
                    cwd=scratch, env=worker_env(scratch, unit.get("env")),
                    stdout=log, stderr=subprocess.STDOUT, start_new_session=True,
                )
                running.append((proc, unit, scratch, res, log, time.monotonic()))
            time.sleep(0.02)
            still = []
            for item in running:
                proc, unit, scratch, res, log, t0 = item
                limit = unit.get("timeout", 240)
                if proc.poll() is None and time.monotonic() - t0 < limit:
                    still.append(item)
                    continue
                timed_out = proc.poll() is None
                # end whatever the unit left running (its own session only)
                try:
                    os.killpg(proc.pid, 9)
                except (ProcessLookupError, PermissionError):
                    pass
                proc.wait()
                log.close()
                text = (scratch / "log").read_bytes().decode("utf-8", "replace")
                result = None
                if res.exists():
                    try:
                        result = json.loads(res.read_text())
                    except ValueError:
                        result = None
                if result is None:
                    text += f"\n[unit ended rc={proc.returncode} timed_out={timed_out}]"
                yield unit, result, text, time.monotonic() - t0
                shutil.rmtree(scratch, ignore_errors=True)
            running = still
    finally:
        for proc, *_ in running:
            try:
                os.killpg(proc.pid, 9)
            except (ProcessLookupError, PermissionError):
                pass
        shutil.rmtree(root, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("HV_JOBS", "8")))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="substring filter on unit names (development aid)")
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    cid, tier, seed = args.cid, args.tier, args.seed
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.monotonic()

    if args.replay:
        spec = json.loads(Path(args.replay).read_text())
        tier, seed = spec["tier"], spec["seed"]
        units, info = [spec["unit"]], {}
    else:
        listing, err = load_units(cid, tier, seed)
        if listing is None:
            print(err)
            print(f"INCONCLUSIVE property={cid}: could not list units")
            return 2
        units, info = listing["units"], listing["info"]
        if args.only:
            units = [u for u in units if args.only in u["name"]]

    known = []
    kf = VERIF / "known_findings.json"
    if kf.exists():
        known = [
            k for k in json.loads(kf.read_text())["known"] if k["property"] == cid
        ]

    evaluations = 0
    distinct = 0
    counters = {}
    samples = []
    violations = []
    inconclusive = []
    per_unit = []
    for unit, result, log, dt in run_units(cid, units, tier, seed, args.jobs):
        if args.v:
            print(f"  {unit['name']}: {dt:.1f}s", (result or {}).get("evaluations"),
                  (result or {}).get("distinct"), flush=True)
        if result is None:
            inconclusive.append(f"{unit['name']}: worker gave no result: {log[-1500:]}")
            continue
        per_unit.append((unit["name"], round(dt, 1), result["evaluations"], result["distinct"]))
        evaluations += result["evaluations"]
        distinct += result["distinct"]
        for k, v in result["counters"].items():
            counters[k] = counters.get(k, 0) + v
        samples.extend(result["samples"][:2])
        for v in result["violations"]:
            violations.append((unit, v))
        inconclusive.extend(f"{unit['name']}: {m}" for m in result["inconclusive"])

    # observation floors: a monitor that saw (almost) nothing decides nothing
    if not args.replay and not args.only:
        for k, floor in info.get("floors", {}).items():
            if counters.get("loops_cut_short"):  # a slow machine, not a blind monitor
                floor = (floor + 9) // 10
            if counters.get(k, 0) < floor:
                inconclusive.append(f"counter {k}={counters.get(k, 0)} below floor {floor}")
        if evaluations == 0 or distinct == 0:
            inconclusive.append("nothing was observed")

    new, suppressed = [], {}
    for unit, v in violations:
        match = next((k for k in known if k["sig"] == v["sig"]), None)
        if match:
            suppressed.setdefault(match["sig"], match)
        else:
            new.append((unit, v))

    wall = time.monotonic() - t0
    if not args.replay and not args.only:
        (VERIF / "evidence").mkdir(exist_ok=True)
        seen_s, uniq = set(), []
        for s in samples:
            k = json.dumps(s, sort_keys=True)
            if k not in seen_s:
                seen_s.add(k)
                uniq.append(s)
        ev = dict(
            property=cid, tier=tier, seed=seed, level=info.get("level", "exploration"),
            coverage=dict(
                evaluations=evaluations, distinct_nontrivial=distinct,
                rule=info.get("rule", ""), samples=uniq[:20],
                monitor_counters=dict(sorted(counters.items())),
                units=len(units), slowest_units=sorted(per_unit, key=lambda x: -x[1])[:5],
            ),
            assumptions=info.get("assumptions", []),
            wall_s=round(wall, 2), violations=len(new),
        )
        (VERIF / "evidence" / f"{cid}.json").write_text(json.dumps(ev, indent=1))

    for sig, k in suppressed.items():
        print(f"KNOWN-FINDING: property={cid} {k['what']}")
    print(
        f"{cid} tier={tier} seed={seed}: {len(units)} units, {evaluations} evaluations, "
        f"{distinct} distinct, {len(new)} violations, {len(inconclusive)} inconclusive, "
        f"{wall:.1f}s"
    )
    rdir = VERIF / "evidence" / "replays"
    shown = {}
    for n, (unit, v) in enumerate(new):
        if shown.get(v["sig"], 0) >= 1 or len(shown) >= 8:
            continue
        shown[v["sig"]] = shown.get(v["sig"], 0) + 1
        rdir.mkdir(parents=True, exist_ok=True)
        path = rdir / f"{cid}-{n}.json"
        path.write_text(
            json.dumps(dict(property=cid, unit=unit, tier=tier, seed=seed, violation=v), indent=1)
        )
        print(f"  [{unit['name']}] {v['sig']}: {v['msg'][:1500]}")
        print(f"VIOLATION property={cid} replay={path}")
    for m in inconclusive[:5]:
        print(f"INCONCLUSIVE property={cid}: {m[:2000]}")
    if new:
        return 1
    return 2 if inconclusive else 0


if __name__ == "__main__":
    sys.exit(main())
