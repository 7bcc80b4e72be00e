#!/usr/bin/env python3
"""check.py PROPERTY: decide one property of clipperhouse/jargon, as it is in /repo now.

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
Exit 2: the check itself failed (nothing is said about the property).
VERIF_TIER=quick|thorough, VERIF_SEED=n.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
SPEC = os.path.join(HERE, "spec")
DATA = os.path.join(SPEC, "data")
EVID = os.path.join(HERE, "evidence")

class Broken(Exception):
    """The check could not do its work"""

# deviations that may be due to a loaded machine
TIMING = ("cannot connect", "no answer", "cut off", "does not come", "memory grows")

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.work = tempfile.mkdtemp(prefix="vp-%s-" % pid)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.steps = 0
        self.samples, self.legs, self.found, self.assume = [], [], [], []
        self.n = 0
        self.env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off", GONOSUMDB="*")
        self.env.pop("JAVA_TOOL_OPTIONS", None)
        self.built = {}
        self.overlay = None  # files of /repo to be replaced when building the harness

    @property
    def thorough(self): return self.tier == "thorough"
    def q(self, quick, thorough): return thorough if self.thorough else quick

    def path(self, name):
        self.n += 1
        return os.path.join(self.work, "%03d-%s" % (self.n, name))

    # -- building --------------------------------------------------------
    def gobuild(self, key, pkgdir, pkg=".", race=False, overlay=None):
        if key in self.built: return self.built[key]
        out = os.path.join(self.work, "bin-" + key)
        more = []
        if overlay:
            ov = self.path("overlay.json")
            json.dump({"Replace": overlay}, open(ov, "w"))
            more = ["-overlay", ov]
        cmd = ["go", "build"] + more + (["-race"] if race else []) + ["-o", out, pkg]
        env = dict(self.env)
        p = subprocess.run(cmd, cwd=pkgdir, env=env, capture_output=True, text=True, timeout=600)
        if p.returncode != 0:
            raise Broken("build of %s failed:\n%s" % (pkgdir, p.stderr[-3000:]))
        self.built[key] = out
        return out

    def harness_dir(self):
        # a copy, so that go may touch go.mod and go.sum
        d = os.path.join(self.work, "harness")
        if not os.path.isdir(d):
            shutil.copytree(os.path.join(HERE, "harness"), d)
        return d

    def vh(self, race=False):
        if self.overlay: return self.gobuild("vh-overlay", self.harness_dir(), overlay=self.overlay)
        return self.gobuild("vh-race" if race else "vh", self.harness_dir(), race=race)

    def repo_copy(self):
        """A copy of /repo's tree for building its commands (go may rewrite go.mod there)"""
        d = os.path.join(self.work, "repo")
        if not os.path.isdir(d):
            shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git"), symlinks=True)
        return d

    def cli(self): return self.gobuild("jargon", self.repo_copy(), "./cmd/jargon")
    def web(self, race=False): return self.gobuild("web-race" if race else "web", self.repo_copy(), "./web", race=race)

    def generator(self, name): return self.gobuild("gen-" + name, self.repo_copy(), "./filters/%s/generate" % name)

    # -- running the harness ----------------------------------------------
    def run_vh(self, cmd, *args, race=False, limit=120, timeout=800, env=None):
        """Returns the parsed output file.  A hang of the code under test is reported as a Failure by the caller through self.hang."""
        out = self.path(cmd + ".json")
        hang = out + ".hang"
        argv = [self.vh(race), cmd, "-out", out, "-hang", hang, "-data", DATA, "-limit", str(limit), "-tier", self.tier] + [str(a) for a in args]
        if "-seed" not in argv: argv += ["-seed", str(self.seed)]
        e = dict(self.env)
        if race: e["GORACE"] = "exitcode=66 halt_on_error=0"
        if env: e.update(env)
        p = subprocess.run(argv, cwd=self.work, env=e, capture_output=True, text=True, errors="replace", timeout=timeout)
        self.last_stderr = p.stderr
        self.last_rc = p.returncode
        if p.returncode == 3 and os.path.exists(hang):
            # the same again, to be sure
            os.remove(hang)
            p2 = subprocess.run(argv, cwd=self.work, env=e, capture_output=True, text=True, errors="replace", timeout=timeout)
            if p2.returncode == 3 and os.path.exists(hang):
                h = json.load(open(hang))
                return {"hang": h, "cases": 0, "steps": 0, "failures": [{"prop": "", "why": "the code does not come back (hangs, or allocates without end)", "case": h, "want": None, "got": None}], "samples": []}, out
            p = p2
        if race and p.returncode == 66 and os.path.exists(out):
            pass
        elif p.returncode == 2 and re.search(r"(?m)^(panic|fatal error):", p.stderr) and "github.com/clipperhouse/jargon" in p.stderr:
            # the code under test brought the process down
            return {"hang": {}, "cases": 0, "steps": 0, "failures": [{"prop": "", "why": "the code crashes", "case": p.stderr[:1500], "want": None, "got": None}], "samples": []}, out
        elif p.returncode != 0:
            raise Broken("harness %s exits with %d: %s" % (cmd, p.returncode, p.stderr[-3000:]))
        return json.load(open(out)), out

    # -- TLC ---------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, constants=None, workers=8, timeout=800, heap="6g", sim=None):
        """Runs TLC to completion; returns the lines it printed.  sim=(number, depth): random behaviours instead of all."""
        base = cfg or module + ".cfg"
        cfgp = os.path.join(SPEC, base)
        if constants:
            text = open(cfgp).read()
            for k, v in constants.items():
                text, c = re.subn(r"(?m)^(\s*)%s\s*=.*$" % re.escape(k), lambda m: "%s%s = %s" % (m.group(1), k, v), text)
                if not c: raise Broken("no constant %s in %s" % (k, base))
            cfgp = self.path(base)
            open(cfgp, "w").write(text)
        e = dict(self.env, JAVA_TOOL_OPTIONS="-Xss512m -Xmx%s -XX:+UseParallelGC" % heap)
        if env: e.update({k: str(v) for k, v in env.items()})
        md = self.path("md")
        outp = self.path(module + ".out")
        with open(outp, "w") as o:
            more = ["-simulate", "num=%d" % sim[0], "-depth", str(sim[1]), "-seed", str(self.seed)] if sim else []
            p = subprocess.run(["tlc"] + more + ["-noGenerateSpecTE", "-workers", str(1 if sim else workers), "-metadir", md, "-config", cfgp, os.path.join(SPEC, module + ".tla")],
                               cwd=self.work, env=e, stdout=o, stderr=subprocess.STDOUT, timeout=timeout)
        shutil.rmtree(md, ignore_errors=True)
        rows, st = [], None
        tail = []
        with open(outp, errors="replace") as f:
            for line in f:
                if line.startswith('"{') or line.startswith('"[') or line.startswith("<<\""):
                    rows.append(line.rstrip("\n"))
                    continue
                tail.append(line)
                m = re.match(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", line)
                if m: st = tuple(map(int, m.groups()))
                m = re.match(r"The number of states generated: (\d+)", line)
                if m and sim: st = (int(m.group(1)), int(m.group(1)), 0)
        text = "".join(tail)
        if p.returncode != 0 or (not sim and "No error has been found" not in text) or "Error:" in text or st is None or st[2] != 0:
            raise Broken("TLC on %s: exit %d\n%s" % (module, p.returncode, text[-4000:]))
        self.transitions += st[0]
        self.states += st[1] if not sim else 0
        self.legs.append({"tlc": module, "config": base, "constants": constants or {}, "generated": st[0], **({"random_behaviours": sim[0], "depth": sim[1]} if sim else {"distinct": st[1]})})
        os.remove(outp)
        return rows

    def emitted(self, rows):
        """JSON lines printed by a generator, to a file"""
        out = self.path("lines")
        n = 0
        with open(out, "w") as f:
            for r in sorted(rows): # TLC's workers print in any order
                if r.startswith('"{') or r.startswith('"['):
                    f.write(json.loads(r) + "\n")
                    n += 1
        if n == 0: raise Broken("the generator emitted nothing")
        return out, n

    def verdicts(self, rows, total):
        """OK and REJ lines of a trace specification"""
        ok, rej = set(), {}
        for r in rows:
            m = re.match(r'<<"(OK|REJ)", (\d+), (-?\d+), (-?\d+), "([^"]*)">>', r)
            if not m: continue
            k = int(m.group(2))
            if m.group(1) == "OK": ok.add(k)
            else: rej[k] = (int(m.group(3)), int(m.group(4)), m.group(5))
        if len(ok) + len(rej) != total or (ok & set(rej)):
            raise Broken("trace validation incomplete: %d accepted, %d rejected, of %d" % (len(ok), len(rej), total))
        return ok, rej

    # -- results -----------------------------------------------------------
    def report(self, rep, leg, note=None):
        self.traces += rep["cases"]
        self.steps += rep["steps"]
        self.legs.append({"replay": leg, "cases": rep["cases"], "steps": rep["steps"], **({"note": note} if note else {})})
        for s in (rep.get("samples") or [])[:2]:
            if len(self.samples) < 8: self.samples.append({"leg": leg, "case": s})
        bad = [f for f in (rep.get("failures") or []) if not f["prop"] or self.pid in f["prop"].split()]
        return [dict(f, leg=leg) for f in bad]

    def suite(self, f, *a, **k):
        """Run a suite; what it finds must be found again"""
        bad = f(self, *a, **k)
        for i in range(3):
            if not bad: return
            again = f(self, *a, **k)
            if again: self.found += again; return
            # what a loaded machine may cause has to be seen again; a wrong result is wrong even if it was seen once
            bad = [x for x in bad if not any(w in x["why"] for w in TIMING)] or bad
        if all(any(w in x["why"] for w in TIMING) for x in bad):
            raise Broken("a deviation did not reproduce: %s" % json.dumps(bad[0], default=str)[:2000])
        self.found += [dict(x, why=x["why"] + " (seen in one of four runs)") for x in bad]

def finish(ctx, level, exhaustive=None, error=None):
    os.makedirs(EVID, exist_ok=True)
    cov = {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.traces,
           "implementation_steps": ctx.steps, "samples": ctx.samples, "legs": ctx.legs}
    if not ctx.samples: cov["samples"] = [{"leg": l} for l in ctx.legs[:3]]
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
          "assumptions": ctx.assume, "wall_s": round(time.time() - ctx.t0, 2), "violations": len(ctx.found)}
    if error: ev["coverage"]["error"] = error[-2000:]
    tmp = os.path.join(EVID, ctx.pid + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1, ensure_ascii=False, default=str)
    os.replace(tmp, os.path.join(EVID, ctx.pid + ".json"))

def main():
    if len(sys.argv) < 2: print(__doc__); return 2
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.path.insert(0, HERE)
    if pid == "setup":
        ctx = Ctx(pid, tier, seed)
        try:
            ctx.vh(); ctx.vh(race=True); ctx.cli(); ctx.web(race=True); ctx.web()
            for g in ("contractions", "stackoverflow", "nba"): ctx.generator(g)
            ctx.tlc("Queue", constants={"MaxOps": 2})
        finally:
            shutil.rmtree(ctx.work, ignore_errors=True)
        print("ready")
        return 0
    import suites
    if pid not in suites.CHECKS:
        print("unknown property", pid); return 2
    ctx = Ctx(pid, tier, seed)
    try:
        try:
            suites.CHECKS[pid](ctx)
        except (Broken, subprocess.TimeoutExpired) as e:
            if not ctx.found:
                finish(ctx, "model_checking", error=str(e))
                print("ERROR: %s" % e, file=sys.stderr)
                return 2
            print("note: %s" % str(e)[:500], file=sys.stderr)
        finish(ctx, "model_checking")
        if ctx.found:
            d = os.path.join(EVID, "replay")
            os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, "%s.json" % pid)
            json.dump({"property": pid, "tier": tier, "seed": seed, "rerun": "VERIF_SEED=%d VERIF_TIER=%s python3 /verif/check.py %s" % (seed, tier, pid),
                       "failures": ctx.found[:20]}, open(rp, "w"), indent=1, ensure_ascii=False, default=str)
            for f in ctx.found[:5]:
                print("  %s: %s: case=%s want=%s got=%s" % (f.get("leg"), f["why"], json.dumps(f["case"], ensure_ascii=False, default=str)[:400], str(f.get("want"))[:300], str(f.get("got"))[:300]))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            return 1
        print("OK property=%s tier=%s seed=%d states=%d transitions=%d traces=%d wall=%.1fs" % (pid, tier, seed, ctx.states, ctx.transitions, ctx.traces, time.time() - ctx.t0))
        return 0
    finally:
        if not os.environ.get("VERIF_KEEP"): shutil.rmtree(ctx.work, ignore_errors=True)

if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
