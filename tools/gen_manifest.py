#!/usr/bin/env python3
"""Writes MANIFEST.json from the suites that exist and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import importlib.util
spec = importlib.util.spec_from_file_location("check", os.path.join(V, "check.py"))
check = importlib.util.module_from_spec(spec)
spec.loader.exec_module(check)
props = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
have = check.suites()
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "hooks": {"guard": "SRTC_VERIFY", "enable": "the harness compiles /repo/src with -DSRTC_VERIFY (checklib/core.py)", "source_commits": ["4d7a6f5"]}, "checks": [], "not_applicable": []}
for p in props:
    if p in have:
        m["checks"].append({"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
                            "technique": "TLA+ specification: TLC exhaustive model + trace validation of the real code (" + ", ".join(s.trace_module for s in have[p] if s.trace_module) + ")",
                            "level": "model_checking", "level_note": NOTES.get(p, "bounded model, generated histories replayed on the real code, traces validated by TLC")})
    else:
        m["not_applicable"].append({"property": p, "reason": NOTES.get(p, "no check has been built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
