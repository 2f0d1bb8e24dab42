#!/usr/bin/env python3
"""Rewrites DESIGN.md from design_template.md and what the checks say of themselves."""
import ast, json
from pathlib import Path
V = Path(__file__).resolve().parent
man = json.loads((V / "MANIFEST.json").read_text())
NOTES = json.loads((V / "design_notes.json").read_text())
claimed = {c["property"]: c for c in man["checks"]}
na = {c["property"]: c["reason"] for c in man["not_applicable"]}
out = []
for line in (V / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)
    i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    if i not in claimed:
        out.append(f"Not claimed: {na.get(i)}\n")
        continue
    info = kinds = None
    for node in ast.parse((V / "checks" / f"{i.lower()}.py").read_text()).body:
        if isinstance(node, ast.Assign):
            n = getattr(node.targets[0], "id", "")
            if n == "INFO":
                info = {k.arg: k.value for k in node.value.keywords}
            elif n == "KINDS":
                kinds = ast.literal_eval(node.value)
    floors = ast.literal_eval(info["floors"])
    out.append(f"* Decided by {claimed[i]['technique']}.")
    out.append(f"* Counted: {claimed[i]['level_note']}")
    if i in NOTES:
        out.append(f"* How: {NOTES[i]}")
    out.append(f"* Workloads ({len(kinds)} units in quick, each about 9 s on one of 8 cores): {', '.join(kinds)}. "
               f"Inconclusive below: {', '.join(f'{k} {v}' for k, v in floors.items())}.")
    out.append(f"* Beyond the tests: {p['why_tests_cant']}\n")
known = json.loads((V / "known_findings.json").read_text())
caught = json.loads((V / "caught.json").read_text()) if (V / "caught.json").exists() else {}
rows = ["| id | property | needs | caught |", "|---|---|---|---|"]
for d in sorted([*(V / "seeded").glob("*/meta.json"), *(V / "planted_more").glob("*/meta.json")], key=lambda p: p.parent.name):
    m = json.loads(d.read_text())
    rows.append(f"| {d.parent.name} | {m['property']} | {m['needs']} | {caught.get(d.parent.name, '?')} |")
t = (V / "design_template.md").read_text()
t = t.replace("@PROPERTIES@", "\n".join(out).rstrip())
t = t.replace("@FIXED@", "\n".join("* " + f.removeprefix("fixed: ") for f in known["fixed"]))
t = t.replace("@KNOWN@", "\n".join(f"* {k['property']} `{k['sig']}`: {k['what']}" for k in known["known"]) or "None.")
t = t.replace("@CAUGHT@", "\n".join(rows))
(V / "DESIGN.md").write_text(t)
