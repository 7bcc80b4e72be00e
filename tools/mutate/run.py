#!/usr/bin/env python3
"""Mutation study of the checks (not part of any check).
run.py survive OUT.json : which mutants build and pass the stable tests
run.py kill IN.json OUT.json [JOBS] : which of those are reported, and by which property's quick check"""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, threading
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(HERE))
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
MUT = "/tmp/mutate"
# the properties to try, by file, in this order
WHERE = {
 "cmd/jargon/main.go": "C22 C21",
 "filters/ascii/filter.go": "C17 C24 C18",
 "filters/contractions/filter.go": "C14 C07 C24 C12",
 "filters/contractions/generate/main.go": "C28",
 "filters/mapper/filter.go": "C17 C07 C12",
 "filters/nba/filter.go": "C26",
 "filters/nba/generate/main.go": "C30",
 "filters/norm/filter.go": "C17 C24",
 "filters/sigil/filter.go": "C15 C07 C24 C12 C11",
 "filters/stackoverflow/filter.go": "C26",
 "filters/stackoverflow/generate/main.go": "C29",
 "filters/stemmer/filter.go": "C17 C24",
 "filters/stopwords/filter.go": "C16 C07 C12",
 "filters/synonyms/filter.go": "C09 C10 C07 C13 C25 C24 C12 C26 C11",
 "filters/synonyms/trie/trie.go": "C27 C09 C25",
 "filters/twitter/filter.go": "C15",
 "punct.go": "C03",
 "token.go": "C03 C12 C24",
 "tokenizer.go": "C02 C01 C07 C11",
 "tokenizer_html.go": "C04 C05 C07 C11",
 "tokenqueue/queue.go": "C19",
 "tokenstream.go": "C06 C08 C07 C20 C12",
 "web/main.go": "C23",
}
def sh(cmd, cwd, timeout=300):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, env=ENV, text=True, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, ""

local = threading.local()
made = []
def copy(verif):
    if not hasattr(local, "d"):
        local.d = "/tmp/mut-%d" % threading.get_ident()
        os.makedirs(local.d)
        made.append(local.d)
        subprocess.run(["cp", "-a", "/repo", local.d + "/repo"], check=True)
        if verif:
            shutil.copytree(V, local.d + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "states", "__pycache__"))
            for f in ("check.py", "harness/go.mod"):
                p = local.d + "/verif/" + f
                s = open(p).read().replace('REPO = "/repo"', 'REPO = "%s/repo"' % local.d).replace("=> /repo", "=> %s/repo" % local.d)
                open(p, "w").write(s)
    return local.d

def survive(f, n, what):
    d = copy(False)
    p = os.path.join(d, "repo", f)
    orig = open(os.path.join("/repo", f)).read()
    rc, src = sh("%s /repo/%s %d" % (MUT, f, n), d)
    if rc: return None
    try:
        open(p, "w").write(src)
        rc, out = sh("go build ./...", d + "/repo")
        if rc: return None
        rc, out = sh("timeout 60 go test -vet=off -count=1 ./...", d + "/repo", 120)
        if rc: return None
        return {"file": f, "n": n, "what": what}
    finally:
        open(p, "w").write(orig)

def kill(m):
    d = copy(True)
    p = os.path.join(d, "repo", m["file"])
    orig = open(os.path.join("/repo", m["file"])).read()
    rc, src = sh("%s /repo/%s %d" % (MUT, m["file"], m["n"]), d)
    out = dict(m)
    out["res"] = {}
    try:
        open(p, "w").write(src)
        for pid in WHERE[m["file"]].split():
            rc, text = sh("VERIF_TIER=quick VERIF_SEED=1 timeout 890 python3 check.py " + pid, d + "/verif", 900)
            out["res"][pid] = rc
            if rc == 1: out["killed"] = pid; break
            if rc != 0: out["err"] = text[-600:]
        return out
    finally:
        open(p, "w").write(orig)

def main():
    sh("go build -o %s ." % MUT, HERE)
    try:
        if sys.argv[1] == "survive":
            jobs = []
            for f in WHERE:
                _, out = sh("%s /repo/%s" % (MUT, f), "/tmp")
                for l in out.splitlines():
                    n, line, what = l.split(" ", 2)
                    jobs.append((f, int(n), line + ": " + what))
            with cf.ThreadPoolExecutor(6) as ex:
                res = [r for r in ex.map(lambda j: survive(*j), jobs) if r]
            json.dump(res, open(sys.argv[2], "w"), indent=1)
            print(len(jobs), "mutants,", len(res), "survive the tests")
        else:
            ms = json.load(open(sys.argv[2]))
            done = []
            if os.path.exists(sys.argv[3]): done = json.load(open(sys.argv[3]))
            have = {(m["file"], m["n"]) for m in done}
            lock = threading.Lock()
            def one(m):
                r = kill(m)
                with lock:
                    done.append(r)
                    json.dump(done, open(sys.argv[3], "w"), indent=1)
                    print(r.get("killed", "-"), r["file"], r["what"], r["res"], flush=True)
            with cf.ThreadPoolExecutor(int(sys.argv[4]) if len(sys.argv) > 4 else 3) as ex:
                list(ex.map(one, [m for m in ms if (m["file"], m["n"]) not in have]))
    finally:
        for d in made: shutil.rmtree(d, ignore_errors=True)
main()
