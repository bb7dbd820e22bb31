#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of built checks."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
SEQ = "exhaustive enumeration of operation sequences and inputs on the implementation, against a reference model"
FAULT = "stateless model checking of the implementation with exhaustive fault and crash-point injection"
SCHED = "stateless model checking of the implementation: all schedules up to a preemption bound, with race detection"
DAEMON = "stateless model checking of the whole daemon on a virtual LAN: all schedules, datagram faults and inputs within bounds"
NOTE = "Every execution within the stated bounds is run on an instrumented copy of the current tree; assumes the in-memory shims of os, net and sync behave like the real packages."
T = {}
for i in ["C01", "C02", "C03", "C04", "C05"]: T[i] = SEQ
T["C23"] = FAULT
for i in ["C07", "C11", "C20"]: T[i] = SEQ
for i in ["C08", "C09"]: T[i] = FAULT
T["C10"] = SCHED
for i in ["C06", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C21", "C22", "C24"]: T[i] = DAEMON
built = os.environ.get("BUILT", "").split() or sorted(T)
extra = {}
exec(open(root + "/tools/techniques.py").read()) if os.path.exists(root + "/tools/techniques.py") else None
checks = [dict(property=i, quick_cmd=f"./run.sh {i} quick", thorough_cmd=f"./run.sh {i} thorough", technique=T[i], level="model_checking", level_note=extra.get(i, NOTE)) for i in props if i in T]
na = [dict(property=i, reason="check under construction") for i in props if i not in T]
m = dict(version=1, setup_cmd="./run.sh setup", checks=checks, not_applicable=na,
    notes="No hooks in /repo: checks instrument a scratch copy of the current tree (mc/cmd/instr). Known findings and repaired defects are in known_findings.json.")
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
