#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks there are."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import importlib
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if os.path.exists(os.path.join(V, "vf/props/%s.py" % i.lower())):
        m = importlib.import_module("vf.props.%s" % i.lower())
        checks.append({
            "property": i,
            "quick_cmd": "./check %s --tier quick" % i,
            "thorough_cmd": "./check %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": getattr(m, "TECHNIQUE", "runtime monitoring: random hostile workloads against the real shell, offline oracle (reference model) over recorded events and outputs"),
            "level": "exploration",
            "level_note": getattr(m, "LEVEL_NOTE", "Holds on every execution observed: randomly generated workloads, with injected delays and short reads, judged against an independent model. Says nothing about executions not generated. Trusts the kernel, the model and the monitors in vf/.")})
    else:
        na.append({"property": i, "reason": "No check has been built yet."})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none: no hooks were added to /repo", "enable": "The monitors replace functions of the os module before pieshell is imported (vf/monitors.py)", "source_commits": []},
     "notes": "See DESIGN.md. Every check is ./check ID [--tier quick|thorough] [--seed N] [--replay FILE]."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
