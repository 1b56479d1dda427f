#!/usr/bin/env python3
"""plant.py FILE.py: FILE.py defines bugs = [dict(id, prop, edits=[(file, old, new)…], needs, breaks, demo=<go main>)].
Each is confirmed in a scratch copy (builds, stable tests pass, demo passes without and fails with it) and stored in seeded/."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOFLAGS="-mod=vendor", GOPROXY="off", GOTOOLCHAIN="local")
DEMO = '''#!/bin/bash
# run with cwd = the repository
D=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local
T=$(mktemp -d)
printf '{"Replace":{"%s/zzdemo/main.go":"%s/demo.go"}}' "$PWD" "$D" > "$T/o.json"
go build -overlay "$T/o.json" -o "$T/demo" ./zzdemo && (cd "$T" && timeout 120 ./demo)
rc=$?
rm -rf "$T"
exit $rc
'''
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
def run(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
for b in ns["bugs"]:
    if only and b["id"] not in only:
        continue
    d = V + "/seeded/" + b["id"]
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.go", "w").write(b["demo"])
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    t = tempfile.mkdtemp(prefix="plant")
    try:
        w = t + "/repo"
        shutil.copytree("/repo", w, symlinks=True)
        r = run(["bash", d + "/demo.sh"], w)
        if r.returncode != 0:
            print(b["id"], "REJECTED: demo fails on the unchanged tree:", r.stdout[-800:]); continue
        for f, o, n in b["edits"]:
            s = open(w + "/" + f).read()
            if s.count(o) != 1:
                print(b["id"], "REJECTED: %d matches in %s for %r" % (s.count(o), f, o)); break
            open(w + "/" + f, "w").write(s.replace(o, n))
        else:
            r = run(["go", "build", "./..."], w)
            if r.returncode != 0:
                print(b["id"], "REJECTED: build:", r.stdout[-600:]); continue
            r = run(["go", "test", "-json", "./..."], w)
            ok = set()
            for l in r.stdout.splitlines():
                try:
                    e = json.loads(l)
                except ValueError:
                    continue
                if e.get("Action") == "pass" and e.get("Test"):
                    ok.add(e["Package"] + "/" + e["Test"])
            if stable - ok:
                print(b["id"], "REJECTED: tests fail:", sorted(stable - ok)); continue
            r = run(["bash", d + "/demo.sh"], w)
            if r.returncode == 0:
                print(b["id"], "REJECTED: demo passes with the change"); continue
            p = run(["git", "diff"], w)
            open(d + "/patch.diff", "w").write(p.stdout)
            print(b["id"], "ok: demo says", r.stdout.strip()[-200:])
    finally:
        shutil.rmtree(t)
