#!/usr/bin/env python3
"""Writes MANIFEST.json from the plan and the property list."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import plan
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
PENDING = "the specification of this part is not finished yet"
NOTE = ("TLC checks the TLA+ specification exhaustively within the constants of its configurations; the code is bound to it by "
        "replaying the enumerated behaviours in the real code and by validating recorded histories of the real code against it. ")
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [], "not_applicable": [],
     "notes": "TLA+ specification checked with TLC, bound to the implementation by replay and trace validation. No hooks in /repo: "
              "only the public interface is observed. See DESIGN.md."}
for i in ids:
    if i in plan.PLAN:
        P = plan.PLAN[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i,
                            "technique": P.get("technique", "TLA+ specification (TLC) + replay of its behaviours + trace validation"),
                            "level": P["level"], "level_note": NOTE + P.get("note", "")})
    else:
        m["not_applicable"].append({"property": i, "reason": PENDING})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
