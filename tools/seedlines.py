#!/usr/bin/env python3
"""For every planted bug: how many of the lines it removes are the original repository's."""
import os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = sys.argv[1] if len(sys.argv) > 1 else subprocess.run("git -C /repo rev-list --max-parents=0 HEAD", shell=True, capture_output=True, text=True).stdout.split()[0]
for s in sorted(os.listdir(V + "/seeded")):
    d = open(f"{V}/seeded/{s}/patch.diff").read()
    f, n, mine, orig = None, 0, 0, 0
    for l in d.split("\n"):
        if l.startswith("--- a/"): f = l[6:]
        m = re.match(r"@@ -(\d+)", l)
        if m: n = int(m[1]); continue
        if f is None or l.startswith(("---", "+++")): continue
        if l.startswith("-"):
            b = subprocess.run(["git", "-C", "/repo", "blame", "-l", "-L", f"{n},{n}", "HEAD", "--", f], capture_output=True, text=True).stdout
            if b.startswith("^") or b.startswith(BASE): orig += 1
            else: mine += 1
            n += 1
        elif l.startswith(" "): n += 1
    print(f"{s:28} removes {orig} original and {mine} own lines")
