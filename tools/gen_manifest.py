#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, pathlib, sys
root = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(root))
from checks import CHECKS
props = [json.loads(l) for l in (root / "properties.jsonl").read_text().splitlines() if l.strip()]
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        na.append(dict(property=p["id"], reason=NOT_APPLICABLE.get(p["id"], "check not built yet") if "NOT_APPLICABLE" in globals() else "check not built yet"))
        continue
    checks.append(dict(
        property=p["id"],
        quick_cmd=f"python3 run.py {p['id']}",
        thorough_cmd=f"VERIF_TIER=thorough python3 run.py {p['id']}",
        evidence_file=f"evidence/{p['id']}.json",
        technique=c["technique"], level=c["level"],
        level_note=c.get("note") or (
            "Observes real executions of the library built from /repo: a violation is reported only with a replayable case. "
            "Silence means no violation in the cases counted in the evidence file (" + c["rule"] + "). "
            "Trusts the compiler, the sanitizer runtimes and the oracle described in DESIGN.md.")))
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=na,
         notes="No hooks are needed: every monitor works on public headers, on the recording of calls, or through compiler instrumentation. "
               "known_findings.jsonl lists findings and repairs; DESIGN.md explains oracles and bounds.")
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed", len(na), "not")
