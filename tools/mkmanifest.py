#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and the existing checks."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (root / "properties.jsonl").read_text().splitlines()]
TECH = {}
exec((root / "tools" / "techniques.py").read_text())
checks, na = [], []
for p in props:
    i = p["id"]
    if (root / "checks" / f"{i}.py").exists():
        checks.append(dict(
            property=i, quick_cmd=f"bash check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough bash check.sh {i}",
            technique=TECH[i][0], level="exploration", level_note=TECH[i][1]))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="Property-based testing with Hypothesis; see DESIGN.md. No hooks in the code under test.")
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", len(na), "not claimed")
