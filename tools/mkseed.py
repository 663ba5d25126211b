#!/usr/bin/env python3
"""mkseed.py <spec.py>: plants the bug described by the spec in a scratch copy of /repo, confirms that it builds, passes the
stable tests and is shown by its demonstration, and writes /verif/seeded/<id>/.
spec: ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (Go main package text), optional TUI (demo lives in internal/)."""
import json, os, shutil, subprocess, sys, tempfile
g = {}
exec(open(sys.argv[1]).read(), g)
dst = "/verif/seeded/" + g["ID"]
scratch = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
repo = scratch + "/repo"
def sh(c, cwd=repo, check=True):
    p = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + c], cwd=cwd, capture_output=True, text=True)
    if check and p.returncode: sys.exit("FAILED %s\n%s%s" % (c, p.stdout[-3000:], p.stderr[-3000:]))
    return p
try:
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    os.makedirs(dst, exist_ok=True)
    open(dst + "/demo.go", "w").write(g["DEMO"])
    open(dst + "/demo.sh", "w").write('''#!/bin/bash
# Runs demo.go as a program of the repository in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace": {"%s": "%s"}}' "$PWD/internal/zzdemo/main.go" "$here/demo.go" > "$t/overlay.json"
go build -buildvcs=false -overlay "$t/overlay.json" -o "$t/demo" ./internal/zzdemo || exit 2
cd "$t" && ./demo
''')
    os.chmod(dst + "/demo.sh", 0o755)
    p = sh("bash %s/demo.sh" % dst, check=False)
    if p.returncode: sys.exit("demo fails on the unchanged tree: " + p.stdout + p.stderr)
    for f, a, b in g["EDITS"]:
        s = open(repo + "/" + f).read()
        if s.count(a) != 1: sys.exit("edit of %s: %d occurrences of %r" % (f, s.count(a), a))
        open(repo + "/" + f, "w").write(s.replace(a, b))
    sh("gofmt -l . | grep . && exit 1; go build ./... && go vet ./... ")
    sh("git diff > %s/patch.diff" % dst)
    p = sh("go test ./... 2>&1", check=False)
    bad = [l for l in p.stdout.splitlines() if l.startswith("--- FAIL") or l.startswith("FAIL")]
    if bad: sys.exit("tests fail: " + "\n".join(bad))
    p = sh("bash %s/demo.sh" % dst, check=False)
    if p.returncode == 0: sys.exit("the demo does not show the bug")
    print("demo:", (p.stdout + p.stderr)[-300:])
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(dst + "/meta.json", "w"), indent=1)
    print("kept", dst)
except SystemExit:
    shutil.rmtree(dst, ignore_errors=True)
    raise
finally:
    shutil.rmtree(scratch, ignore_errors=True)
