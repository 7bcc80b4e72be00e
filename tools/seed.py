#!/usr/bin/env python3
"""Turns bug definitions (tools/seeds/*.py, lists named BUGS) into seeded/<id>/.
Every bug is confirmed in a scratch copy: it builds, the stable tests pass, the
demonstration passes without it and fails with it.
usage: seed.py make [ID...] | seed.py run [ID...] (runs the property's quick check with the bug applied)"""
import concurrent.futures as cf, glob, importlib.util, json, os, shutil, subprocess, sys, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")

DEMO = """#!/bin/bash
# run with cwd at the repository; exit 0 if the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
tmp=$(mktemp -d)
trap 'rm -r "$tmp"' EXIT
echo "{\\"Replace\\": {\\"$PWD/@PKG@/zz_demo_test.go\\": \\"$here/demo_test.go\\"}}" > "$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 120s @FLAGS@ -run '^TestZZDemo$' ./@PKG@
"""

def bugs():
    out = []
    for f in sorted(glob.glob(os.path.join(V, "tools/seeds/*.py"))):
        s = importlib.util.spec_from_file_location("seeds", f)
        m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
        out += m.BUGS
    ids = [b["id"] for b in out]
    assert len(ids) == len(set(ids)), "duplicate id"
    return out

def sh(cmd, cwd, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, shell=True, env=ENV, text=True, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout

def stable(cwd):
    want = json.load(open("/opt/vp/BASELINE.json"))
    rc, out = sh("go test -json -vet=off -count=1 -timeout 10m ./... 2>/dev/null", cwd)
    passed = set()
    for l in out.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Action") == "pass" and e.get("Test"):
            passed.add(e["Package"] + "::" + e["Test"]); passed.add(e["Test"]); passed.add(e["Package"] + "/" + e["Test"])
    names = want.get("stable") or want.get("tests") or want.get("passed") or want.get("passing") or want
    miss = [n for n in names if n not in passed and n.split("::")[-1] not in passed]
    return miss

def make(b):
    scratch = "/tmp/seedscratch"
    shutil.rmtree(scratch, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", scratch], check=True)
    try:
        d = os.path.join(V, "seeded", b["id"])
        tmpd = "/tmp/seeddemo"; shutil.rmtree(tmpd, ignore_errors=True); os.makedirs(tmpd)
        pkg = b.get("pkg", ".")
        open(tmpd + "/demo.sh", "w").write(b["sh"] if "sh" in b else DEMO.replace("@PKG@", pkg).replace("@FLAGS@", b.get("flags", "")))
        if "demo" in b: open(tmpd + "/demo_test.go", "w").write(b["demo"].lstrip())
        rc, out = sh("bash %s/demo.sh" % tmpd, scratch)
        if rc != 0: return "demo fails on the unchanged tree:\n" + out[-1500:]
        for f, old, new in b["edits"]:
            p = os.path.join(scratch, f); s = open(p).read()
            if s.count(old) != 1: return "%s: %d matches of %r" % (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        rc, out = sh("gofmt -l $(git diff --name-only)", scratch)
        rc, out = sh("go build ./...", scratch)
        if rc: return "build: " + out[-1500:]
        miss = stable(scratch)
        if miss: return "stable tests fail: %s" % miss
        rc, out = sh("bash %s/demo.sh" % tmpd, scratch)
        if rc == 0: return "demo passes with the change"
        if "build failed" in out or "setup failed" in out: return "demo does not build: " + out[-1500:]
        _, diff = sh("git diff", scratch)
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        for f in os.listdir(tmpd): shutil.copy(os.path.join(tmpd, f), d)
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        return None
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def scratch():
    """a copy of /repo and of the machinery which checks that copy: several can run at a time, and /repo stays as it is"""
    d = "/tmp/seedrun-%d-%d" % (os.getpid(), threading.get_ident())
    if not os.path.exists(d):
        os.makedirs(d)
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        shutil.copytree(V, d + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "states", "__pycache__"))
        for f in ("check.py", "harness/go.mod"):
            p = d + "/verif/" + f
            s = open(p).read().replace('REPO = "/repo"', 'REPO = "%s/repo"' % d).replace("=> /repo", "=> %s/repo" % d)
            open(p, "w").write(s)
    return d

def run(i, prop=None, tier="quick"):
    c = scratch()
    d = os.path.join(V, "seeded", i)
    prop = prop or json.load(open(d + "/meta.json"))["property"]
    rc, out = sh("git apply %s/patch.diff" % d, c + "/repo")
    if rc: return "apply: " + out
    t = time.time()
    try:
        rc, out = sh("VERIF_SEED=%s VERIF_TIER=%s python3 check.py %s" % (os.environ.get("VERIF_SEED", "1"), tier, prop), c + "/verif", 3600)
    finally:
        subprocess.run(["git", "-C", c + "/repo", "checkout", "--", "."], check=True)
    vio = [l for l in out.splitlines() if l.startswith("VIOLATION")]
    ok = rc == 1 and any("property=%s " % prop in l + " " for l in vio)
    return "%s rc=%d %.0fs %s" % ("CAUGHT" if ok else "MISSED", rc, time.time() - t, vio[:1] or out[-300:])

if __name__ == "__main__":
    what, ids = sys.argv[1], sys.argv[2:]
    if what == "make":
        for b in bugs():
            if (ids and b["id"] in ids) or (not ids and not os.path.exists(os.path.join(V, "seeded", b["id"], "patch.diff"))):
                print(b["id"], make(b) or "ok", flush=True)
    elif what == "run":
        try:
            with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
                def one(i): print(i, run(i), flush=True)
                list(ex.map(one, ids or sorted(os.listdir(os.path.join(V, "seeded")))))
        finally:
            for d in glob.glob("/tmp/seedrun-%d-*" % os.getpid()): shutil.rmtree(d, ignore_errors=True)
