#!/usr/bin/env python3
"""mkseed.py FILE... : builds seeded/<id> from a description (python file defining ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO, PKG)
and confirms it in a scratch copy: builds, passes the stable tests, demo passes without and fails with the change."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable") or json.load(open("/opt/vp/BASELINE.json")).get("passed") or [])
for f in sys.argv[1:]:
    ns = {}
    src = open(f).read()
    exec(src, ns)
    ID = ns["ID"]
    w = tempfile.mkdtemp(prefix="seed_")
    r = os.path.join(w, "repo")
    sh("cp -a /repo %s && cd repo && git checkout -q -- . && git clean -qfd" % r, w)
    ok = True
    d = os.path.join(w, "s"); os.makedirs(d)
    pkg = ns.get("PKG", ".")
    open(os.path.join(d, "demo_test.go"), "w").write(ns["DEMO"])
    open(os.path.join(d, "demo.sh"), "w").write('''#!/bin/bash
# exit 0: the property holds on this tree
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
p=$(cd %s && pwd)
printf '{"Replace": {"%%s/zz_seed_demo_test.go": "%%s/demo_test.go"}}' "$p" "$d" > "$t/o.json"
export PATH=/usr/local/bin:/usr/bin:/bin:$PATH HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=0
( ulimit -v 16000000; timeout 200 go test -overlay "$t/o.json" -vet=off -count=1 -timeout 120s -run 'TestSeedDemo' ./%s )
''' % (pkg, pkg))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    p = sh("bash %s/demo.sh" % d, r)
    if p.returncode != 0:
        print(ID, "DEMO FAILS ON CLEAN TREE\n", p.stdout[-1500:]); ok = False
    for fn, old, new in ns["EDITS"]:
        path = os.path.join(r, fn)
        t = open(path).read()
        if t.count(old) != 1:
            print(ID, "edit matches %d times: %r" % (t.count(old), old)); ok = False; continue
        open(path, "w").write(t.replace(old, new))
    if ok:
        p = sh("gofmt -l . | head; go build ./... && go test -count=1 ./... 2>&1 | tail -30", r)
        if "FAIL" in p.stdout or "ok" not in p.stdout:
            print(ID, "TESTS FAIL WITH THE CHANGE\n", p.stdout[-2500:]); ok = False
        p = sh("bash %s/demo.sh" % d, r)
        if p.returncode == 0:
            print(ID, "DEMO PASSES WITH THE CHANGE\n", p.stdout[-800:]); ok = False
    if ok:
        diff = sh("git diff", r).stdout
        o = os.path.join(V, "seeded", ID)
        shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
        for n in ("demo.sh", "demo_test.go"):
            shutil.copy(os.path.join(d, n), o)
        open(os.path.join(o, "patch.diff"), "w").write(diff)
        json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(o, "meta.json"), "w"), indent=1)
        print(ID, "kept")
    shutil.rmtree(w)
