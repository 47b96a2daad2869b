#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and checks.py."""
import json
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open("properties.jsonl")]
m = {"version": 1,
     "setup_cmd": "python3 setup_check.py",
     "checks": [{"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"],
                 "thorough_cmd": "python3 run.py %s thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": "bounded symbolic execution of the C sources (CBMC) decided by SAT/SMT solvers; counterexamples replayed natively",
                 "level": "other",
                 "level_note": CHECKS[p["id"]].get("note") or ("Every value of the symbolic inputs within the bounds listed in the evidence file; outside: " + (CHECKS[p["id"]].get("outside") or "nothing named"))}
                for p in props if p["id"] in CHECKS],
     "not_applicable": [{"property": p["id"], "reason": NOT_APPLICABLE.get(p["id"], "check not built yet")} for p in props if p["id"] not in CHECKS],
     "notes": "No hooks in /repo: the checks compile /repo's sources unchanged. /repo carries only 'fix:' commits (KNOWN_FINDINGS.txt)."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
