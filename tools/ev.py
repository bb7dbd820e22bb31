#!/usr/bin/env python3
"""ev.py ID...: summarises evidence files."""
import json,sys
for i in sys.argv[1:]:
    e=json.load(open(f"/verif/evidence/{i}.json"))
    print(i,e["tier"],"%.1fs"%e["wall_s"],"exhaustive",e["coverage"].get("exhaustive"),"violations",e.get("violations"))
    for s in e["coverage"]["scenarios"]:
        print("   %-24s exec %8d points %8d outcomes %5d longest %4d %6.1fs exh=%s"%(s["name"],s["executions"],s["decision_states"],s["distinct_outcomes"],s["longest_choice_sequence"],s["seconds"],s["exhaustive"]))
