#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (only checks whose harness exists are claimed)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCHED = "stateless model checking: all schedules up to a preemption bound"
SEQ = "bounded exhaustive enumeration against a reference model"
FAULT = "exhaustive enumeration of faults and histories on the real code"
exec(open(os.path.join(ROOT, "tools", "checks.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in CHECKS and os.path.isdir(os.path.join(ROOT, "mc", "h", i.lower())):
        tech, note = CHECKS[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none in /repo (instrumentation is applied to copies through go build -overlay)",
               "enable": "check.sh builds with -overlay and the instrumenter in mc/cmd/instr", "source_commits": []},
     "notes": "Every check drives the real code of /repo's working tree, instrumented through a build overlay; see DESIGN.md."}
open(os.path.join(ROOT, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
