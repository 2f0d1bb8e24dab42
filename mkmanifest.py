#!/usr/bin/env python3
"""Rewrites MANIFEST.json from properties.jsonl and the checks that exist."""
import ast, json
from pathlib import Path
V = Path(__file__).resolve().parent
NA = {"C34": "runtime monitoring can decide it (generate modules, run what is written for them), but a monitor which is quiet on the current tree was not finished: too many shapes fail today (nested classes, type variables; see DESIGN.md) to tell apart what is promised from what is best effort"}
checks, na = [], []
for line in (V / "properties.jsonl").read_text().splitlines():
    pid = json.loads(line)["id"]
    f = V / "checks" / f"{pid.lower()}.py"
    if f.exists():
        info = None
        for node in ast.parse(f.read_text()).body:
            if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") == "INFO":
                info = node.value
        d = {k.value: v for k, v in zip(info.keys, info.values)} if isinstance(info, ast.Dict) else \
            {k.arg: k.value for k in info.keywords}
        get = lambda k, default: ast.literal_eval(d[k]) if k in d else default
        checks.append(dict(
            property=pid, quick_cmd=f"./check {pid} quick", thorough_cmd=f"./check {pid} thorough",
            technique=get("technique", "runtime monitoring: online oracle over executions of the real engine"),
            level=get("level", "exploration"),
            level_note=get("level_note", get("rule", "")),
        ))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, "no monitor built yet")))
(V / "MANIFEST.json").write_text(json.dumps(dict(
    version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na), indent=1) + "\n")
print(len(checks), "checks,", len(na), "not claimed")
