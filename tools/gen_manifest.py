#!/usr/bin/env python3
"""Writes MANIFEST.json from the modules in props/ (one per claimed property)."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json"))) if os.path.exists(os.path.join(V, "tools", "not_applicable.json")) else {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "props", i + ".py")):
        m = importlib.import_module("props." + i)
        checks.append({"property": i,
                       "quick_cmd": "python3 check.py %s quick" % i,
                       "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": getattr(m, "TECHNIQUE", "TLA+ specification checked with TLC; behaviours generated from it replayed into the real code"),
                       "level": getattr(m, "LEVEL", "model_checking"),
                       "level_note": m.NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
man = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
       "notes": "TLA+ (TLC). No hooks in /repo: the harness is compiled into the module through go's -overlay. "
                "known_findings.jsonl lists defects found (fixed and known)."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print("claimed", len(checks), "not claimed", len(na))
