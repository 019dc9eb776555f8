#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(V, "lib"))
import driver, checks
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = getattr(checks, "NOTES", {})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": p, "quick_cmd": "./check %s" % p, "thorough_cmd": "VERIF_TIER=thorough ./check %s" % p,
                 "evidence_file": "evidence/%s.json" % p,
                 "technique": NOTE.get(p, ("TLA+ specification; TLC model checking and trace validation of the real code", ""))[0],
                 "level": driver.LEVELS[p],
                 "level_note": NOTE.get(p, ("", ""))[1] or "Exhaustive on the TLA+ model in small constants; every transition printed by TLC is replayed in the real library and every recorded execution is validated step by step by TLC. Trusts TLC, the harness projection and the message codec of lib/bz.py. Bounded scenarios, no proof for all inputs."}
                for p in props if p in driver.CHECKS],
     "not_applicable": [{"property": p, "reason": "no check built yet"} for p in props if p not in driver.CHECKS],
     "notes": "No hooks in /repo: the harness uses the public C API only. Repairs of genuine defects are the fix: commits listed in known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
