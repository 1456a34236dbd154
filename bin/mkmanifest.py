#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
import types
chk = types.ModuleType("check"); chk.SEED = 1; chk.THOROUGH = False
chk.ToolError = chk.Violation = Exception
sys.modules["check"] = chk
import plans
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
T = json.load(open(os.path.join(HERE, "bin", "levels.json")))
checks = []
for p in props:
    if p in plans.PLANS:
        t = T[p]
        checks.append({"property": p, "quick_cmd": f"python3 bin/check.py {p}",
                       "thorough_cmd": f"python3 bin/check.py {p} --thorough",
                       "evidence_file": f"evidence/{p}.json", "technique": t["technique"],
                       "level": "model_checking", "level_note": t["note"]})
na = [{"property": p, "reason": T.get(p, {}).get("na", "check not built yet")} for p in props if p not in plans.PLANS]
m = {"version": 1, "setup_cmd": "python3 bin/setup.py",
     "hooks": {"guard": "none needed: the public interface and derivre::raw suffice", "enable": "nothing to enable", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
