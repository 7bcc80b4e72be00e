#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md, between its markers."""
import glob, json, os
FIRST = {  # missed at first -> what was added
 "c14-lemma-in": "contractions also as lemma tokens", "c16-fold": "characters with unusual case (ſ, K, ß, ς, İ)",
 "c20-lazy": "the slice given to Filter is changed after the call", "c21-html-name": "more file names", "c21-bom": "odd beginnings and ends of the input",
 "c21-fifo": "-file may be a fifo", "c22-socket": "standard input may be a socket", "c23-limit": "bodies of 3 to 4 MB", "c09-nine": "synonyms of up to 30 words",
 "c03-long": "long values composed of runs (Flags!Compositional)", "c08-hash": "values that collide under common hashes",
 "c27-ignore-case": "ignored letters that have an upper case", "c28-swallow": "(the check broke down on it)", "c29-hyphen-first": "synonyms of three words",
 "e04-reuse": "tokens are kept and looked at again at the end", "e07-sigil-once": "sources that fail once", "e08-seen-field": "Select: selections on one stream, read in any order",
 "e11-writeto": "WriteTo and the command on endless input", "e16-maxlen": "words whose lower case is longer", "e17-quickspan": "long tokens", "e18-chunk": "(the check broke down on it)",
 "e21-limit": "inputs of 4 to 9 MB", "e22-dash": "file names such as -", "e27-bmp": "characters that agree in their lower bits", "f01-nul": "control characters", "f01-idle": "readers that return nothing for a while", "f01-growing": "GenWordBreak!Stretch: tokens of any length", "f04-attr": "tags with made-up names and attributes",
 "f06-pool": "long streams; results of ToSlice are kept and looked at again", "f11-grow": "memory, filter by filter", "f16-guard": "Gen!Tokenwise: long runs of tokens", "f17-last-only": "long lists of functions",
 "f19-many": "Queue!Scaled: many tokens for one", "f19-shrink": "Queue!Scaled", "f20-eager": "Compose: the base stream is read first (skip)", "f20-many": "Compose: long lists of filters", "f21-lang-case": "long random command lines",
 "f23-cache": "requests that are nearly the same, one after another", "f24-unlemma": "sigils that are lemmas", "f26-dash": "ignored characters within a token", "f26-slash": "ignored characters within a token",
 "g06-write-big": "streams of long values", "g08-distinct-64k": "long streams of distinct values, twice over (TraceDistinct!FirstOfEach)", "g11-html-comment": "endless streams of markup, read byte by byte, with memory",
 "g21-lines-html": "long pieces of markup in the command's inputs", "g21-long-line": "long pieces of markup in the command's inputs", "g25-many": "lists of many items", "g25-seven": "items of many words",
 "g27-depth": "Trie!Stretched: keys of up to hundreds of tokens", "g27-same-length": "more canonicals of one length", "g28-keep": "a file of the same size there before",
 "h01-toolong": "texts with tokens longer than the tokenizer takes", "h04-last": "documents cut off after control characters", "h06-count-words": "current token and error are looked at twice, once or not at all", "h06-slice-cap": "streams of up to 70 000 tokens",
 "h11-lemma-run": "endless streams with lemma tokens", "h12-adaptive": "a filter that was used for long", "h12-error-shared": "streams whose own source fails, next to others", "h14-adaptive": "worn filters: one input many times, then the others",
 "h15-long-tag": "names of up to 1025 characters", "h16-hash": "words with equal hashes as stop words", "h16-many": "stop lists of up to 1500 words", "h17-digit": "words with digits, underscores, other scripts",
 "h20-none": "Compose!Either: reads from the original and from Filter()", "h21-zero-size": "a file that says it is empty (/proc)", "h23-escaped": "paths with escapes", "h23-health": "paths below the health check",
 "h27-many-nodes": "Trie!Separate: 90 000 keys", "h29-dup": "tags with many synonyms", "h29-html": "names with special characters", "h29-lower": "names with upper-case letters",
 "e29-status": "a tag that has the name of a moderators' synonym",
 "e29-quota": "answers with no quota left",
 "c30-fold-last": "names of which one part only folds", "c30-seen": "players that look alike in ASCII",
}
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob("/verif/seeded/*/meta.json")):
    d, n = json.load(open(m)), os.path.basename(os.path.dirname(m))
    need = d["needs"].replace("|", "\\|").replace("\n", " ")
    got = d.get("caught_by") or d["property"]
    rows.append("| %s | %s | %s | %s%s |" % (n, d["property"], need, got, "; missed at first: " + FIRST[n] if n in FIRST else ""))
p = "/verif/DESIGN.md"
s = open(p).read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
print(len(rows) - 2)
