"""Writes MANIFEST.json from the list of properties and the table below."""

import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(ROOT, "tools", "techniques.json")))
props = [json.loads(line) for line in open(os.path.join(ROOT, "properties.jsonl"))]
registered = set()
for f in os.listdir(os.path.join(ROOT, "vmon", "checks")):
    if f.endswith(".py"):
        src = open(os.path.join(ROOT, "vmon", "checks", f)).read()
        for m in re.finditer(r"@unit\(([^@]*?)\)\n", src):
            registered |= set(re.findall(r'"(C\d\d)"', m.group(1)))
checks, missing = [], []
for p in props:
    if p["id"] in registered:
        technique, note = NOTES[p["id"]]
        checks.append(
            {
                "property": p["id"],
                "quick_cmd": f"./check {p['id']}",
                "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": technique,
                "level": "exploration",
                "level_note": note,
            }
        )
    else:
        missing.append(
            {"property": p["id"], "reason": "machinery not yet built (work in progress)"}
        )
manifest = {
    "version": 1,
    "setup_cmd": "MPLBACKEND=Agg /opt/venv/bin/python -B tools/selftest.py",
    "checks": checks,
    "not_applicable": missing,
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", "missing:", [m["property"] for m in missing])
