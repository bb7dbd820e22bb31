#!/usr/bin/env python3
"""mkseed.py ID PROP PKG RUNFLAGS 'needs' 'breaks': turns the diff of the worktree /tmp/seed/repo and
/tmp/seed/demo_test.go into /verif/seeded/ID, after confirming that it builds, passes the stable tests, and
that the demo passes on the clean tree and fails with the patch."""
import sys, os, subprocess, json, shutil
ID, PROP, PKG, FLAGS, NEEDS, BREAKS = sys.argv[1:7]
W = "/tmp/seed/repo"
def sh(c, cwd=W, env=None):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, env={**os.environ, **(env or {})})
d = f"/verif/seeded/{ID}"
os.makedirs(d, exist_ok=True)
diff = sh("git diff").stdout
assert diff.strip(), "no diff"
open(f"{d}/patch.diff", "w").write(diff)
shutil.copy("/tmp/seed/demo_test.go", f"{d}/demo_test.go")
open(f"{d}/demo.sh", "w").write(f"""#!/bin/bash
# Runs demo_test.go (beside this script) as a test of package ./{PKG} of the tree in the working directory.
set -e
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
export GOCACHE=$(go env GOCACHE) GOPATH=$(go env GOPATH) DEMO_SCRATCH=$scratch HOME=$scratch
printf '{{"Replace":{{"%s":"%s"}}}}' "$PWD/{PKG}/zz_demo_test.go" "$here/demo_test.go" > "$scratch/overlay.json"
timeout 250 go test {FLAGS} -count=1 -vet=off -overlay "$scratch/overlay.json" -run 'TestDemo' ./{PKG}
""")
if os.path.exists(f"/tmp/seeds/{ID}.sh"):
    shutil.copy(f"/tmp/seeds/{ID}.sh", f"{d}/demo.sh")
os.chmod(f"{d}/demo.sh", 0o755)
json.dump({"property": PROP, "needs": NEEDS, "what_it_breaks": BREAKS}, open(f"{d}/meta.json", "w"), indent=1)
# confirm
r = sh(f"bash {d}/demo.sh"); assert r.returncode != 0, "demo passes with patch:\n" + r.stdout + r.stderr
print("with patch:", (r.stdout + r.stderr)[-600:])
r = sh("go build ./... && go vet ./... ; go test -count=1 ./..."); assert r.returncode == 0, "tests: " + r.stdout + r.stderr
sh("git stash")
try:
    r = sh(f"bash {d}/demo.sh"); assert r.returncode == 0, "demo fails on clean tree:\n" + r.stdout + r.stderr
finally:
    sh("git stash drop")
print("seed", ID, "ok; worktree clean:", sh("git status --short").stdout)
