"""Which models, generators and trace validations decide which property."""
import json, os, re
from check import Broken, SPEC, REPO

WB = ["AL","HL","NU","KA","ML","MB","MN","SQ","DQ","EX","WS","CR","LF","NL","XT","FO","ZW","RI","EP","AP","OT"]
def tset(xs): return "{" + ",".join('"%s"' % x for x in xs) + "}"

# ---- tokenizer ---------------------------------------------------------------

def model_scanner(c):
    c.tlc("MCScanner", constants={"MaxLen": c.q(4, 5), "Alphabet": tset(["AL","NU","MB","WS","XT","HL","DQ","RI","LF"])})

def texts(c, maxlen, per, alphabet=WB):
    """Every text over the classes up to maxlen, from the specification, replayed in all reader modes"""
    rows = c.tlc("GenWordBreak", constants={"Alphabet": tset(alphabet), "MaxLen": maxlen})
    lines, n = c.emitted(rows)
    rep, _ = c.run_vh("tokreplay", "-in", lines, "-n", per)
    return c.report(rep, "texts over word-break classes up to length %d (%d), every reader mode" % (maxlen, n))

def longtexts(c):
    """Texts of the specification, composed to texts of megabytes"""
    lines, n = c.emitted(c.tlc("GenWordBreak", constants={"Alphabet": tset(WB), "MaxLen": 3}))
    rep, _ = c.run_vh("scaletext", "-in", lines)
    return c.report(rep, "texts up to %s, composed of %d small ones, every reader mode" % (c.q("2 MB", "40 MB"), n))

def longdocs(c):
    lines, n = c.emitted(c.tlc("Html", constants={"MaxLen": 3, "Pre": 0}))
    rep, _ = c.run_vh("scaletext", "-in", lines, "-mode", "html")
    return c.report(rep, "documents up to %s, composed of %d small ones, every reader mode" % (c.q("2 MB", "40 MB"), n))

def longdistinct(c, n):
    d, path = c.run_vh("distinct", "-n", n)
    if "hang" in d: return c.report(d, "distinct")
    ok, rej = c.verdicts(c.tlc("TraceDistinct", env={"VIN": path}), len(d["cases"]))
    fails = [{"prop": "C08", "why": "Distinct on a long stream (%s) after %d tokens in, %d out" % (why, i, o), "case": d["notes"][k-1], "want": None, "got": None} for k, (i, o, why) in sorted(rej.items())] + d["failures"]
    return c.report({"cases": len(d["cases"]), "steps": sum(len(x["in"]) for x in d["cases"]) + d["many"], "failures": fails, "samples": d["notes"]}, "Distinct on long streams, against TraceDistinct, and on %d values" % d["many"])

SCAN = {"cut": "C02", "text": "C01", "lag": "C11"}
def scans(c, n, slack):
    """Recorded runs of the tokenizer on random text, read by read"""
    d, path = c.run_vh("scanrecord", "-n", n, "-k", slack)
    if "hang" in d: return c.report(d, "scanrecord")
    rows = c.tlc("TraceScan", env={"VIN": path})
    ok, rej = c.verdicts(rows, len(d["cases"]))
    fails = []
    for k, (pos, e, why) in sorted(rej.items()):
        case = d["cases"][k-1]
        prop = SCAN.get(why) or ("C07" if case["flt"] else "C01")
        fails.append({"prop": prop, "why": "tokenizer run rejected by Scanner (%s) after %d characters, event %d" % (why, pos, e),
                      "case": d["notes"][k-1], "want": None, "got": case["fin"]})
    steps = sum(len(x["ev"]) for x in d["cases"])
    return c.report({"cases": len(d["cases"]), "steps": steps, "failures": fails, "samples": d["notes"][:3]}, "recorded tokenizer runs against Scanner")

def flags(c, maxlen, made, n):
    """Histories of token construction"""
    rows = c.tlc("Flags", constants={"MaxLen": maxlen, "MaxMade": made})
    lines, k = c.emitted(rows)
    rep, _ = c.run_vh("flags", "-in", lines, "-n", n)
    return c.report(rep, "histories of %d constructions, values up to %d characters (%d)" % (made, maxlen, k))

def flagscan(c):
    """The flags of every Unicode character, alone and in company"""
    d, path = c.run_vh("flagscan")
    if "hang" in d: return c.report(d, "flagscan")
    ok, rej = c.verdicts(c.tlc("TraceFlags", env={"VIN": path}), len(d["obs"]))
    fails = [{"prop": "C03", "why": "wrong flags (1 punctuation, 2 space, 9 not the value or lemma flag) for U+%04X in template %s" % (cp, d["templates"][j-1]),
              "case": d["obs"][k-1], "want": None, "got": d["obs"][k-1]["res"][j-1]} for k, (cp, j, why) in sorted(rej.items())]
    return c.report({"cases": 1112064, "steps": 1112064 * len(d["templates"]), "failures": fails, "samples": d["obs"][:2]}, "every code point in %d templates" % len(d["templates"]))

HTML_CORE = ["w","s","p","o","c","m","sc","xs","st","xt","ti","xi","cut"]
def html(c, maxlen, per, lexemes=None, sim=None, mode=""):
    """Every document over the lexemes up to maxlen (or random longer ones)"""
    k = {"MaxLen": maxlen, "Pre": maxlen if sim else 0}
    if lexemes: k["Lexemes"] = tset(lexemes)
    rows = c.tlc("Html", constants=k, sim=sim and (sim, maxlen + 1))
    lines, n = c.emitted(rows)
    rep, _ = c.run_vh("html", "-in", lines, "-n", per, "-mode", mode)
    return c.report(rep, "%s documents of %s%d lexemes (%d), several readers" % ("random" if sim else "all", "" if sim else "up to ", maxlen, n))

# ---- streams and queues --------------------------------------------------------

def stream(c, ops, toks, sim=None):
    """Histories of calls on a stream"""
    rows = c.tlc("Stream", constants={"MaxOps": ops, "MaxTok": toks, "Pre": ops if sim else 1}, sim=sim and (sim, ops + 1))
    lines, n = c.emitted(rows)
    rep, _ = c.run_vh("stream", "-in", lines, "-n", c.q(2, 1))
    return c.report(rep, "%s histories of %d calls on up to %d tokens (%d), on each kind of stream" % ("random" if sim else "all", ops, toks, n))

def queue(c, ops, queues=2, drop=2, sim=None):
    rows = c.tlc("Queue", constants={"MaxOps": ops, "Queues": "{%s}" % ",".join(map(str, range(1, queues + 1))), "MaxDrop": drop, "Pre": ops if sim else 1}, sim=sim and (sim, ops + 1))
    lines, n = c.emitted(rows)
    rep, _ = c.run_vh("queue", "-in", lines)
    return c.report(rep, "%s histories of %d operations on %d queues (%d)" % ("random" if sim else "all", ops, queues, n))

def trie(c, tries, adds, key, query, n, sim=None, cased=False):
    """Histories of adding to and searching in tries"""
    rows = c.tlc("Trie", constants={"Tries": "{%s}" % ",".join(map(str, range(1, tries + 1))), "MaxAdds": adds, "MaxKey": key, "MaxQuery": query, "Pre": adds, "Cased": "TRUE" if cased else "FALSE"}, sim=sim and (sim, adds + 1))
    lines, k = c.emitted(rows)
    rep, _ = c.run_vh("trie", "-in", lines, "-n", n, "-k", query, "-mode", "cased" if cased else "")
    return c.report(rep, "%s histories of %d additions to %d tries%s (%d), then every search of up to %d tokens" % ("random" if sim else "all", adds, tries, ", an ignored letter" if cased else "", k, query))

# ---- filters -----------------------------------------------------------------

def gen(c, name, big=0, stepped=False):
    """Every input of a scenario, from the specification, replayed against the real filters"""
    _, scen = c.run_vh("scen", "-mode", name, "-k", big)
    rows = c.tlc("Gen", cfg="Gen.cfg" if stepped else "GenBig.cfg", env={"VIN": scen})
    lines, n = c.emitted(rows)
    rep, _ = c.run_vh("genreplay", "-in", lines, "-in2", scen)
    return c.report(rep, "scenario %s: %d behaviours of Pipeline/Rules" % (name, n))

def stage(c, mode, n, lag=-1, prop=""):
    """Recorded runs of real filters against Rules"""
    d, path = c.run_vh("stage", "-mode", mode, "-n", n, "-k", lag)
    if "hang" in d: return c.report(d, "stage " + mode)
    ok, rej = c.verdicts(c.tlc("TraceStage", env={"VIN": path}), len(d["cases"]))
    fails = []
    for k, (i, o, why) in sorted(rej.items()):
        p = {"lag": "C11", "lemma": prop + " C24", "flags": prop + " C03"}.get(why, prop)
        if not prop and why == "lemma": p = "C24"
        fails.append({"prop": p, "why": "run of a filter rejected by Rules (%s) after %d tokens in, %d out" % (why, i, o), "case": d["notes"][k-1], "want": None, "got": d["notes"][k-1]["output"]})
    for x in d["scale"]:
        if not rej: fails.append({"prop": prop, "why": "a long stream does not give what its pieces give", "case": x, "want": x["want_there"], "got": x["got_there"]})
    steps = sum(len(x["in"]) for x in d["cases"]) + d["scaled"]
    return c.report({"cases": len(d["cases"]), "steps": steps, "failures": fails, "samples": d["notes"][:3]}, "recorded runs of filters (%s) against Rules, and their composition to long streams (%d tokens)" % (mode, d["scaled"]))

def lemma(c, mode, n):
    """The same records, looking at the lemma flag only"""
    d, path = c.run_vh("stage", "-mode", mode, "-n", n, "-k", -1)
    if "hang" in d: return []
    fails = []
    ok, rej = c.verdicts(c.tlc("TraceLemma", env={"VIN": path}), len(d["cases"]))
    for k, (i, o, why) in sorted(rej.items()):
        fails.append({"prop": "C24", "why": "token %d out: %s" % (o + 1, why), "case": d["notes"][k-1], "want": None, "got": d["notes"][k-1]["output"]})
    if mode != "vocab":
        ok, rej = c.verdicts(c.tlc("TraceStage", env={"VIN": path}), len(d["cases"]))
        for k, (i, o, why) in sorted(rej.items()):
            if why == "lemma": fails.append({"prop": "C24", "why": "wrong lemma flag after %d tokens in, %d out" % (i, o), "case": d["notes"][k-1], "want": None, "got": d["notes"][k-1]["output"]})
    steps = sum(len(x["in"]) for x in d["cases"])
    return c.report({"cases": len(d["cases"]), "steps": steps, "failures": fails, "samples": d["notes"][:3]}, "lemma flags in recorded runs (%s)" % mode)

def keep(c, mode, n):
    """The same records, read as spans and untouched tokens"""
    d, path = c.run_vh("stage", "-mode", mode, "-n", n, "-k", -1)
    if "hang" in d: return c.report(d, "keep " + mode)
    ok = set()
    for r in c.tlc("TraceKeep", env={"VIN": path}):
        m = re.match(r'<<"OK", (\d+),', r)
        if m: ok.add(int(m.group(1)))
    fails = [{"prop": "C10", "why": "output cannot be read as the input with spans replaced", "case": d["notes"][k-1], "want": None, "got": d["notes"][k-1]["output"]}
             for k in range(1, len(d["cases"]) + 1) if k not in ok]
    steps = sum(len(x["in"]) for x in d["cases"])
    return c.report({"cases": len(d["cases"]), "steps": steps, "failures": fails, "samples": d["notes"][:3]}, "recorded runs of synonyms filters (%s) against TraceKeep" % mode)

def fault(c, n):
    rep, _ = c.run_vh("fault", "-n", n)
    return c.report(rep, "failing readers, through pipelines and consuming methods")

def lag(c, n):
    rep, _ = c.run_vh("lag", "-n", n, timeout=850)
    return c.report(rep, "endless readers and tokens, memory")

def model_shared(c):
    for f in ("TRUE", "FALSE"): c.tlc("Shared", cfg="MCShared.cfg", constants={"Fail": f})

def schedules(c, cmd, n, pulls, what):
    rows = c.tlc("Shared", cfg="Shared.cfg", constants={"Pulls": pulls})
    lines, k = c.emitted(rows)
    rep, _ = c.run_vh(cmd, "-in", lines, "-n", n)
    return c.report(rep, "%s (%d schedules of Shared)" % (what, k))

def race(c, n):
    rep, _ = c.run_vh("race", "-n", n, race=True)
    if "DATA RACE" in c.last_stderr:
        i = c.last_stderr.index("WARNING: DATA RACE")
        rep["failures"] = (rep.get("failures") or []) + [{"prop": "C12", "why": "data race", "case": c.last_stderr[i:i+1500], "want": None, "got": None}]
    return c.report(rep, "goroutines at the same time, race detector on")

def fold(c, n):
    d, path = c.run_vh("fold", "-n", n)
    if "hang" in d: return c.report(d, "fold")
    nc = len(d["cases"])
    ok, rej = c.verdicts(c.tlc("TraceFold", env={"VIN": path}), nc + len(d["moved"]) + 1)
    fails = []
    for k, (a, _, why) in sorted(rej.items()):
        if k <= nc: x = d["cases"][k-1]; case, got = "".join(chr(i) if i < 0x110000 else "?" for i in x["in"]), ["".join(chr(i) if i < 0x110000 else "?" for i in x["out"]), x["ch"]]
        else: case, got = "U+%04X" % a, why
        fails.append({"prop": "C18", "why": "folding: " + why, "case": case, "want": None, "got": got})
    return c.report({"cases": 1112064 + nc, "steps": 1112064 + nc, "failures": fails, "samples": d["cases"][:3]}, "every code point and %d strings, against the Lucene table" % nc)

def compose(c, ops, per, **k):
    rows = c.tlc("Compose", constants={"MaxOps": ops, **{a: b for a, b in k.items() if a != "sim"}}, sim=k.get("sim") and (k["sim"], ops + 1))
    lines, n = c.emitted(rows)
    rep, _ = c.run_vh("compose", "-in", lines, "-n", per)
    return c.report(rep, "%s ways of building pipelines in %d steps (%d)" % ("random" if k.get("sim") else "all", ops, n))

def select(c, sim=None, **k):
    rows = c.tlc("Select", constants=k, sim=sim and (sim, k["MaxOps"] + k["MaxTok"] + 1))
    lines, n = c.emitted(rows)
    rep, _ = c.run_vh("select", "-in", lines)
    return c.report(rep, "%shistories of making and reading selections of Select (%d)" % ("random " if sim else "", n))

def lagout(c):
    rep, _ = c.run_vh("lagcli", "-bin", c.cli())
    return c.report(rep, "WriteTo, and the command, on endless input")

def dicts(c, n):
    rep, _ = c.run_vh("dict", "-n", n)
    return c.report(rep, "random dictionaries, as lists, as items and in other orders")

# ---- commands ----------------------------------------------------------------

def cli(c, kind, opts, part, sizes=False, sim=None, least=0):
    rows = c.tlc("Cli", constants={"Kind": '"%s"' % kind, "MinOpts": least, "MaxOpts": opts}, sim=sim and (sim, 2 * opts + 20))
    lines, n = c.emitted(rows)
    rep, _ = c.run_vh("cli", "-in", lines, "-n", part, "-bin", c.cli(), *(["-mode", "sizes"] if sizes else []), limit=250)
    return c.report(rep, "%scommand lines (%s) of Cli: %d, one in %d run" % ("random long " if sim else "", kind, n, part))

def web(c, wide, part, race):
    rows = c.tlc("Web", constants={"Slots": "{1}" if wide else "{1,2}", "Wide": "TRUE" if wide else "FALSE"})
    lines, n = c.emitted(rows)
    rep, _ = c.run_vh("web", "-in", lines, "-n", part, "-bin", c.web(race=race), limit=250)
    return c.report(rep, "%s of Web: %d, one in %d run%s" % ("requests" if wide else "interleavings of two requests", n, part, ", race detector on" if race else ""))

# ---- generators of vocabularies -------------------------------------------------

def gencon(c, n):
    kept = c.path("generated.go")
    d, path = c.run_vh("gencon", "-n", n, "-bin", c.generator("contractions"), "-in2", kept, limit=250)
    fails = d["failures"]
    if d.get("tables"):
        ok, rej = c.verdicts(c.tlc("GenCon", env={"VIN": path}), len(d["tables"]))
        fails += [{"prop": "C28", "why": "generated table: " + why, "case": d["notes"][k-1], "want": None, "got": None} for k, (_, _, why) in sorted(rej.items())]
    out = c.report({"cases": n, "steps": n, "failures": fails, "samples": d.get("notes")}, "runs of the generator of contractions against GenCon")
    c.regenerated = kept if os.path.exists(kept) else None
    return out

def regenerated(c, n):
    """The filter with the table as generated"""
    if not c.regenerated: return []
    c.overlay = {os.path.join(REPO, "filters/contractions/generated.go"): c.regenerated}
    try: return [dict(f, prop="C28") for f in stage(c, "con", n, prop="C28")]
    except Broken as e:
        if "build of" in str(e): return [{"prop": "C28", "why": "the generated table does not compile", "case": str(e)[-1000:], "want": None, "got": None, "leg": "build"}]
        raise
    finally: c.overlay = None

def compiles(c, name, kept):
    """A generated vocabulary is Go that the filter can be built with"""
    if not os.path.exists(kept): return []
    try: c.gobuild("with-" + os.path.basename(kept), c.repo_copy(), "./filters/" + name, overlay={os.path.join(c.repo_copy(), "filters", name, "generated.go"): kept})
    except Broken as e: return [{"prop": c.pid, "why": "the generated vocabulary does not compile", "case": str(e)[-1000:], "want": None, "got": None, "leg": "build"}]
    return []

def gentags(c, part, sim=None, **k):
    rows = c.tlc("GenTags", constants=k, sim=sim and (sim, k["MaxPages"] + 2))
    lines, n = c.emitted(rows)
    kept = c.path("generated.go")
    rep, _ = c.run_vh("gentags", "-in", lines, "-n", part, "-bin", c.generator("stackoverflow"), "-in2", kept, limit=250)
    return c.report(rep, "%sconversations with the tag service (%d, one in %d) of GenTags" % ("random " if sim else "", n, part)) + compiles(c, "stackoverflow", kept)

def gennames(c, rows, part):
    lines, n = c.emitted(c.tlc("GenNames", constants={"MaxRows": rows}))
    kept = c.path("generated.go")
    rep, _ = c.run_vh("gennames", "-in", lines, "-n", part, "-bin", c.generator("nba"), "-in2", kept, limit=250)
    return c.report(rep, "pages of rosters (%d, one in %d) of GenNames" % (n, part)) + compiles(c, "nba", kept)

# ---- properties --------------------------------------------------------------

def c01(c):
    model_scanner(c)
    c.suite(texts, c.q(3, 4), 1)
    c.suite(longtexts)
    c.suite(scans, c.q(1500, 12000), -1)
def c02(c):
    model_scanner(c)
    c.suite(texts, 4, c.q(1, 3))
    c.suite(longtexts)
    c.suite(scans, c.q(1500, 12000), -1)
def c03(c):
    c.suite(flags, c.q(4, 5), 1, c.q(4, 10))
    c.suite(flags, 1, 3, c.q(4, 20))
    c.suite(flagscan)
    c.suite(texts, 3, 1)
def c04(c):
    c.suite(html, 3, c.q(4, 20))
    c.suite(html, 4, 1, HTML_CORE)
    c.suite(html, 24, 1, None, c.q(3000, 40000))
    c.suite(longdocs)
c05 = c04
def c06(c):
    c.suite(stream, c.q(4, 5), 3)
    c.suite(stream, 9, 12, c.q(4000, 60000))
def c19(c):
    c.suite(queue, c.q(4, 5))
    c.suite(queue, 60, 3, 4, c.q(60, 1500))

def c07(c):
    c.suite(gen, "fault", c.q(0, 1), stepped=True)
    c.suite(stage, "fault", c.q(40, 400), prop="C07")
    c.suite(fault, c.q(3000, 60000))
    c.suite(stream, c.q(3, 4), 3)
    c.suite(scans, c.q(800, 6000), -1)
def c08(c):
    c.suite(gen, "select", c.q(0, 1))
    c.suite(stage, "select", c.q(60, 800), prop="C08")
    c.suite(longdistinct, c.q(20000, 150000))
    c.suite(select, MaxOps=c.q(5, 6), Classes="{1,2,3,4}")
    c.suite(select, sim=c.q(4000, 100000), MaxOps=16, MinTok=5, MaxTok=9, MaxSel=4, Classes="{1,2,3,4,5,6}")
def c09(c):
    c.suite(gen, "synstep", c.q(0, 1), stepped=True)
    c.suite(gen, "syn", c.q(0, 1))
    c.suite(stage, "syn", c.q(250, 3000), prop="C09")
    c.suite(stage, "stack", c.q(600, 6000), prop="C09")
    c.suite(stage, "nba", c.q(300, 3000), prop="C09")
def c10(c):
    c.suite(keep, "syn", c.q(400, 4000))
    c.suite(keep, "stack", c.q(400, 4000))
    c.suite(keep, "nba", c.q(300, 3000))
    c.suite(keep, "longsyn", c.q(14, 100))
def c11(c):
    c.suite(lag, c.q(20000, 200000))
    c.suite(stage, "lag", c.q(14, 40), 4, prop="-")
    c.suite(lagout)
    c.suite(scans, c.q(800, 6000), 16)
def c12(c):
    model_shared(c)
    c.suite(schedules, "shared", c.q(3, 1), c.q(4, 6), "one filter, alternating streams")
    c.suite(race, c.q(3, 40))
def c13(c):
    model_shared(c)
    c.suite(schedules, "baddict", 1, c.q(4, 6), "streams of a filter whose dictionary cannot be loaded")
def c14(c):
    c.suite(gen, "con", c.q(0, 1))
    c.suite(stage, "con", c.q(400, 8000), prop="C14")
def c15(c):
    c.suite(gen, "sig", c.q(0, 1))
    c.suite(stage, "sig", c.q(1500, 30000), prop="C15")
def c16(c):
    c.suite(gen, "stop", c.q(0, 1))
    c.suite(stage, "stop", c.q(150, 3000), prop="C16")
def c17(c):
    c.suite(gen, "map", c.q(0, 1))
    c.suite(stage, "map", c.q(60, 800), prop="C17")
def c20(c):
    c.suite(gen, "pipes", c.q(0, 1), stepped=True)
    c.suite(compose, 3, c.q(4, 30))
    c.suite(compose, 7, 1, sim=c.q(1500, 30000), MaxArgs=3, MaxLen=12, Filters="{1,2,3,4}", Pre=4)
    c.suite(compose, 2, c.q(20, 100), MaxArgs=0, MaxLen=60, Filters="{1,2,3}", Long="{5,8,9,12,16,17,24}")
def c21(c):
    c.suite(cli, "order", c.q(3, 4), c.q(2, 3))
    for least in (4, 6, 9): c.suite(cli, "order", 14, 1, sim=c.q(500, 4000), least=least)
    c.suite(cli, "forms", c.q(2, 3), c.q(1, 4), True)
    c.suite(cli, "forms", 9, 1, sim=c.q(200, 3000), least=3)
    c.suite(cli, "env", 0, c.q(12, 2))
def c22(c):
    c.suite(cli, "env", 0, c.q(3, 1))
def c23(c):
    c.suite(web, True, 1, True)
    c.suite(web, False, c.q(12, 1), False)
def c24(c):
    c.suite(texts, 3, 1, ["AL", "NU", "MB", "WS", "LF", "OT", "XT"])
    c.suite(html, 3, 1)
    c.suite(lemma, c.q("map:40,con:200,sig:500,syn:60,stop:30,select:20,nba:150", "map:300,con:2000,sig:6000,syn:800,stop:300,select:200,nba:1000"), 1)
def c25(c):
    c.suite(gen, "dict", c.q(0, 1))
    c.suite(dicts, c.q(3000, 60000))
def c26(c):
    c.suite(stage, "vocab", c.q(1, 8), prop="C26")
def c27(c):
    c.suite(trie, 1, 2, 2, c.q(2, 3), 2)
    c.suite(trie, 2, 14, 3, 3, 3, sim=c.q(150, 4000))
    c.suite(trie, 1, 1, 2, 3, 4, cased=True)
    c.suite(trie, 2, 10, 3, 3, 3, sim=c.q(60, 2000), cased=True)
def c28(c):
    c.suite(gencon, c.q(4, 20))
    c.suite(regenerated, c.q(150, 3000))
def c29(c):
    c.suite(gentags, c.q(2, 1))
    if c.thorough: c.suite(gentags, 8, MaxPages=2, MaxItems=2, Kinds='{"ok", "junk"}', Waits="{0}")
    c.suite(gentags, 1, MaxPages=2, MaxItems=0, Kinds='{"ok"}', Waits=c.q("{1}", "{1, 10}"))
    c.suite(gentags, 1, MaxPages=5, MaxItems=3, Kinds='{"ok", "error"}', Waits="{0}", Early="FALSE", Pre=3, sim=c.q(150, 2000))
    c.suite(gentags, 1, MaxPages=24, MaxItems=1, Kinds='{"ok"}', Waits="{0}", Early="FALSE", Pre=20, sim=c.q(24, 300))
def c30(c):
    c.suite(gennames, c.q(2, 3), 1)
    c.suite(gennames, 3, c.q(5, 1))
def c18(c): c.suite(fold, c.q(1500, 20000))

CHECKS = {k.upper(): v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "c" and k[1:].isdigit()}
