#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md: the scenarios (from the last evidence of every check) and the
planted bugs (from seeded/, with what tools/seedcheck.sh last reported in tools/seed_results.txt)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}

def bounds(b):
    names = dict(preemptions="preemptions", switches="other successors", faults="faults", early_timers="early timers")
    out = [f"{b[k]} {n}" for k, n in names.items() if b[k]]
    if not out: return "inputs only"
    return ", ".join(o.replace("-1 ", "any ") for o in out) + (f", {b['total']} in all" if b["total"] >= 0 else "")

def scenarios():
    out = []
    for i, p in props.items():
        f = f"{V}/evidence/{i}.json"
        if not os.path.exists(f): continue
        d = json.load(open(f))
        out.append(f"\n**{i}** ({d['tier']}, {d['coverage']['traces_validated_against_impl']} executions)\n")
        for s in d["coverage"]["scenarios"]:
            cases = s.get("cases") or {}
            extra = "; " + ", ".join(f"{v} {k}" for k, v in sorted(cases.items())) if cases else ""
            out.append(f"- *{s['name']}*: {s['what']} [{bounds(s['bounds'])}; {s['executions']} executions{extra}]")
    return "\n".join(out)

def seeds():
    res = {}
    if os.path.exists(V + "/tools/seed_results.txt"):
        for l in open(V + "/tools/seed_results.txt"):
            m = re.match(r"(\S+) \((\S+)\): rc=(\d+).*?replays/\S+?-(\S+)\.json", l)
            if m: res[m[1]] = m[4].replace("_", " ")
    out = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
    for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
        n = f.split("/")[-2]; d = json.load(open(f))
        out.append(f"| {n} | {d['property']} | {d['needs']} | {d['property']} \"{res[n]}\" |" if n in res else f"| {n} | {d['property']} | {d['needs']} | not recorded |")
    return "\n".join(out)

p = V + "/DESIGN.md"
s = open(p).read()
for name, text in (("scenarios", scenarios()), ("seeds", seeds())):
    s = re.sub(rf"(<!-- {name} -->\n).*?(<!-- end {name} -->)", lambda m: m[1] + text + "\n" + m[2], s, flags=re.S)
open(p, "w").write(s)
