#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from pbt/props.py."""
import json
import sys
from pathlib import Path

root = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(root))
sys.dont_write_bytecode = True
from pbt.props import NOT_APPLICABLE, PROPS  # noqa: E402

with (root / "properties.jsonl").open("w") as fp:
    for p in PROPS:
        q = {k: v for k, v in p.items() if k not in ("technique", "note")}
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        fp.write(json.dumps(q) + "\n")

checks, na = [], []
for p in PROPS:
    if p["id"] in NOT_APPLICABLE:
        na.append({"property": p["id"], "reason": NOT_APPLICABLE[p["id"]]})
    elif not (root / "pbt" / "checks" / f"{p['id'].lower()}.py").exists():
        na.append({"property": p["id"], "reason": "check not built yet"})
    else:
        checks.append(
            {
                "property": p["id"],
                "quick_cmd": f"./check {p['id']} --tier quick",
                "thorough_cmd": f"./check {p['id']} --tier thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": "property-based testing: " + p["technique"],
                "level": "exploration",
                "level_note": p["note"],
            }
        )
manifest = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks import /repo/src directly (pure Python, rebuilt by importing) with fresh bytecode and numba caches; no hooks in /repo are needed.",
}
(root / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not claimed")
