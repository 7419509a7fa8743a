#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the specs in /verif/seedspecs/*.py and confirms each.
usage: seedtool.py [id ...]   (no id: those not yet in seeded/)   ALL=1: reconfirm everything
A spec calls seed(id, prop, needs, breaks, edits=[(file, old, new)], pkg=".", test="go source")."""
import sys, os, glob, json, shutil, subprocess, tempfile
here = os.path.dirname(os.path.abspath(__file__))
S = {}
def seed(id, prop, needs, breaks, edits, test, pkg=".", run="TestDemo", pre=""):
    assert id not in S, id
    S[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, test=test, pkg=pkg, run=run)
for f in sorted(glob.glob(here + "/seedspecs/*.py")): exec(open(f).read())
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
DEMO = '''#!/bin/bash
# fails when the planted change is present
set -u
export HOME="${HOME:-/root}" GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
printf '{"Replace":{"%%s/%s":"%%s/demo_test.go"}}' "$PWD" "$d" > "$t/overlay.json"
TMPDIR="$t" go test -vet=off -count=1 -timeout 250s -overlay "$t/overlay.json" -run '^%s$' ./%s
rc=$?
rm -rf -- "$t"
exit $rc
'''
def sh(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=ENV, **k)
BASE = json.load(open("/opt/vp/BASELINE.json"))
def failing(out):
    st = {}
    for l in out.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Test") and e["Action"] in ("pass", "fail", "skip"): st[e["Package"] + "/" + e["Test"]] = e["Action"]
    bad = [k for k, v in st.items() if v == "fail" and not k.endswith("scpsync/TestSend")]
    if len(st) < 34: bad.append("only %d tests ran" % len(st))
    return bad
ids = sys.argv[1:] or [i for i in S if os.environ.get("ALL") or not os.path.exists(here + "/seeded/" + i + "/patch.diff")]
for i in ids:
    s = S[i]; w = tempfile.mkdtemp(prefix="sd_", dir="/tmp"); r = w + "/repo"
    try:
        shutil.copytree("/repo", r, symlinks=True)
        for (f, old, new) in s["edits"]:
            t = open(r + "/" + f).read()
            if t.count(old) != 1: print(i, "MATCHES", t.count(old), repr(old)); raise SystemExit(3)
            open(r + "/" + f, "w").write(t.replace(old, new))
        sh("chmod -R go-w scpsync", r)
        patch = sh("git diff", r).stdout
        out = w + "/out"; os.makedirs(out)
        open(out + "/patch.diff", "w").write(patch)
        open(out + "/demo_test.go", "w").write(s["test"].lstrip())
        p = "zz_demo_test.go" if s["pkg"] == "." else s["pkg"] + "/zz_demo_test.go"
        open(out + "/demo.sh", "w").write(DEMO % (p, s["run"], s["pkg"] if s["pkg"] != "." else ""))
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        b = sh("go build ./... ", r)
        if b.returncode: print(i, "BUILD", b.stderr[:500]); continue
        d = sh("bash %s/demo.sh" % out, r)
        if d.returncode == 0: print(i, "DEMO PASSES WITH BUG"); continue
        dm = d.stdout[-300:] if "FAIL" in d.stdout else d.stdout + d.stderr
        t = sh("umask 022; go test -json -vet=off -count=1 -p 1 ./... 2>&1", r)
        bad = failing(t.stdout)
        if bad: print(i, "TESTS FAIL", bad); continue
        env = dict(ENV, BPCHECK_REPO=r, BPCHECK_EVIDENCE=w + "/ev")
        c = subprocess.run([here + "/bin/bpcheck", s["prop"]], env=env, capture_output=True, text=True)
        caught = c.returncode == 1 and "VIOLATION property=%s " % s["prop"] in c.stdout
        sh("git checkout -- .", r)
        d2 = sh("bash %s/demo.sh" % out, r)
        if d2.returncode: print(i, "DEMO FAILS ON CLEAN", d2.stdout[-600:], d2.stderr[-300:]); continue
        dst = here + "/seeded/" + i
        shutil.rmtree(dst, ignore_errors=True); shutil.copytree(out, dst)
        print(i, s["prop"], "KEPT", "caught" if caught else "MISSED rc=%d" % c.returncode)
        if os.environ.get("V"): print(dm); print(c.stdout[:800])
    finally:
        shutil.rmtree(w, ignore_errors=True)
