#!/usr/bin/env python3
"""run.py MUTANTS.json OUT.jsonl PREFIX...: tries mutants of files with the given prefixes against tests and checks."""
import json, sys, os, subprocess, shutil, threading, queue
muts = [m for m in json.load(open(sys.argv[1])) if any(m["file"].startswith(p) for p in sys.argv[3:])]
OUT = sys.argv[2]
done = set()
if os.path.exists(OUT):
    done = {json.loads(l)["id"] for l in open(OUT)}
step = int(os.environ.get("STEP", "1"))
BUD = os.environ.get("BUD", "15s")
N = int(os.environ.get("N", "7"))
D = "C22 C17 C06 C12 C16 C15 C21 C14 C13 C24 C18 C19"
G = {"seq": "C01 C02 C03 C04 C05 C23".split(), "cat": "C07 C11 C20 C08 C09 C10".split()}
def group(p):
    for g in G:
        if p in G[g]: return g
    return "daemon"
def props(f):
    if f.startswith("catalogue"): return "C07 C11 C20 C08 C09 C10 C21 C22 C24".split()
    if f.startswith("common/bitset"): return "C01 C02 C03".split()
    if f.startswith("common"): return "C23 C11 C12".split()
    if "messages" in f: return ("C04 C05 C06 C16 C17 C14").split()
    if f.startswith("cli"): return "C22 C17 C20 C15".split()
    if "pload" in f or "sender" in f: return "C12 C06 C18 C19 C24 C14".split()
    if "Discover" in f: return "C16 C15 C06 C22 C24".split()
    if "List" in f: return "C17 C22 C06 C24".split()
    if "Download" in f or "recv" in f: return "C14 C13 C21 C22 C06 C19 C24".split()
    return D.split()
env = {**os.environ, "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=mod", "GOWORK": "off", "GOMAXPROCS": "4"}
def sh(c, cwd, t=600):
    p = subprocess.Popen(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return 99, "timeout"
lock = threading.Lock()
q = queue.Queue()
for i, m in enumerate(muts):
    m["id"] = f'{m["file"]}:{m["line"]}:{m["off"]}:{m["what"]}'
    if i % step == 0 and m["id"] not in done and "Print" not in m["what"]: q.put(m)
print(q.qsize(), "to do")
def work(w):
    base = f"/tmp/mut/w{w}"
    os.makedirs(base, exist_ok=True)
    if not os.path.exists(base + "/instr"):
        print(sh(f"go build -o {base}/instr ./cmd/instr", "/verif/mc"))
    sh(f"mkdir -p {base}/v; rm -rf {base}/mc; cp -a /verif/mc {base}/mc", "/")
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        r = one(m, base)
        with lock:
            open(OUT, "a").write(json.dumps({**m, "result": r}) + "\n")
def one(m, base):
    repo = base + "/repo"
    shutil.rmtree(repo, ignore_errors=True)
    sh(f"mkdir {repo} && git -C /repo archive HEAD | tar x -C {repo}", "/")
    p = f'{repo}/{m["file"]}'
    s = open(p, "rb").read()
    s = s[:m["off"]] + m["new"].encode() + s[m["end"]:]
    open(p, "wb").write(s)
    rc, o = sh("go vet ./... ", repo, 60) if False else sh("go build -o /dev/null . && go build ./...", repo, 60)
    if rc: return "build"
    rc, o = sh("timeout 60 go test -count=1 ./...", repo, 90)
    if rc: return "tests"
    rc, o = sh(f"rm -rf {base}/src && {base}/instr {repo} {base}/src {base}/mc/shim", base)
    if rc: return "instr " + o[-300:]
    mod = open(base + "/mc/go.mod").read()
    open(base + "/mc.mod", "w").write(mod + f"\nrequire github.com/flu-network/client v0.0.0\nreplace github.com/flu-network/client => {base}/src\n")
    open(base + "/mc.sum", "w").write("")
    open(base + "/src/go.mod", "a").write(f"\nrequire verif/mc v0.0.0\nreplace verif/mc => {base}/mc\n")
    built = set()
    res = []
    for pr in props(m["file"]):
        g = group(pr)
        if g not in built:
            rc, o = sh(f"go build -modfile={base}/mc.mod -o {base}/check.{g} ./checks/{g}", base + "/mc")
            if rc: return "checkbuild " + o[-300:]
            built.add(g)
        rc, o = sh(f"{base}/check.{g} -verif {base}/v -prop {pr} -tier quick -workers 1 -budget {BUD} -noevidence", base, 100)
        if rc == 1 and "VIOLATION" in o: return "killed " + pr
        if rc == 99: return "timeout " + pr
        if rc: return f"rc{rc} {pr} {o[-300:]}"
    return "SURVIVED"
ts = [threading.Thread(target=work, args=(i,)) for i in range(N)]
[t.start() for t in ts]; [t.join() for t in ts]
