#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and checks/specs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/checks")
import specs
checks, na = [], []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)["id"]
    if p in specs.SPECS:
        s = specs.SPECS[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": s.get("technique", "stateless model checking of the real code: exhaustive enumeration of a bounded space of executions against an exact oracle"),
                       "level": s["level"], "level_note": s["explanation"].strip() + " Nothing is claimed beyond those bounds. " + " ".join("Assumes: " + a for a in s["assumptions"])})
    else:
        na.append({"property": p, "reason": "no check yet"})
json.dump({"version": 1, "setup_cmd": "python3 check.py --list", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the harnesses compile its sources as they are (capacity and mode through the defines that problem_settings.h provides for that). One dispatcher (check.py), harnesses under harness/, spaces under checks/specs.py, design in DESIGN.md, findings in known_findings.txt."},
          open(V + "/MANIFEST.json", "w"), indent=1)
