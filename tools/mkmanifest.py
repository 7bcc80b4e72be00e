#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
N = {
"C01": ("MCScanner, GenWordBreak, Scanner/TraceScan", "TLC checks the buffered scanner against the word-break rules for every text of up to 4 classes and every division into reads; all texts over 21 word-break classes up to length 3 (thorough: 4) and recorded runs on random text (read by read, buffer boundaries, invalid UTF-8) are tokenized by the real code and compared."),
"C02": ("MCScanner, GenWordBreak, Scanner/TraceScan", "As C01 with texts up to length 4 (200k), each in several reader modes, some laid across the 4096-byte buffer boundary. Trusts data/wordbreak.json (Unicode properties) and excludes ill-formed UTF-8 sequences."),
"C03": ("Flags, TraceFlags", "Every history of constructions over abstract character kinds, replayed; every Unicode code point in several templates validated by TLC. Trusts Go's unicode tables for what is punctuation and white space."),
"C04": ("Html", "Every document over 20 kinds of lexemes up to 3 (core: 4) and random ones of 24, with several concretizations and readers, against the piece structure of the specification."),
"C05": ("Html", "As C04; the text pieces are compared with plain tokenization of the same piece."),
"C06": ("Stream", "Every history of 4 (5) calls on streams of up to 3 tokens, on every kind of stream, and random histories of 9."),
"C07": ("Pipeline/Gen, TraceStage, Scanner", "The pipeline model is checked stage by stage with a failing source and replayed; recorded failing runs are validated; failing readers are put under every filter and every consuming method (fault position random, kinds enumerated)."),
"C08": ("Rules/Gen, TraceStage", "Every input of up to 4 (5) tokens over a small alphabet through every selection and some chains of them; recorded runs on random and long streams validated against Rules."),
"C09": ("Pipeline, Rules/Gen, TraceStage", "Every input up to 5 (6) tokens for fixed dictionaries; random dictionaries and the shipped ones on random text, recorded and validated against Rules. Ambiguous dictionaries are excluded."),
"C10": ("TraceKeep", "Recorded runs of random and shipped dictionaries are validated against a specification that knows no dictionary: spans replaced by one lemma, all else untouched."),
"C11": ("Scanner/TraceScan, TraceStage, Pipeline!Bounded", "How far each filter and tokenizer has read when it hands out a token is recorded and bounded by the specification; endless readers and token sources and a memory ceiling for each filter."),
"C12": ("Shared", "TLC checks loading and use by three goroutines step by step (safety and liveness); every schedule of two streams is replayed on one filter and compared with the streams alone in a process of their own; goroutines at once under the race detector."),
"C13": ("Shared", "Every schedule of two streams of a filter whose dictionary cannot be loaded, then every consuming method, then goroutines at once."),
"C14": ("Rules/Gen, TraceStage", "Every listed contraction in every way of writing it, near misses, and random text, recorded and validated; every sequence of up to 3 (4) tokens over a small alphabet."),
"C15": ("Rules/Gen, TraceStage", "Every sequence of up to 6 (7) tokens around sigils, every character up to U+0250 and samples beyond in four positions of a name, every length up to 40, random text."),
"C16": ("Rules/Gen, TraceStage", "Every input up to 4 (5) tokens for fixed word lists; random word lists in both configurations on random text."),
"C17": ("Rules/Gen, TraceStage", "Every input up to 3 (4) tokens through supplied and custom mappings; random text through all of them. Trusts golang.org/x/text/unicode/norm and snowball for the values."),
"C18": ("TraceFold", "Every Unicode code point, and all patterns of 5 characters by kind and long random strings, validated by TLC against the Lucene table (data/lucene_fold.json, from Lucene's ASCIIFoldingFilter)."),
"C19": ("Queue", "Every history of 4 (5) operations on two queues and random histories of 60 on three, replayed."),
"C20": ("Pipeline/Gen, Compose", "TLC checks that streaming stage by stage equals rewriting the whole input for every pair of filters; every way of building a pipeline in 3 steps and random ones up to 12 filters are replayed against the filters one after another."),
"C21": ("Cli", "Every sequence of up to 3 (4) filter flags with every output mode, and every way of writing two options, enumerated by TLC; one in two is run as a black box and compared with the library."),
"C22": ("Cli", "Every combination of standard input, -file, -out, standard output, content and options of the specification (20400; -version included); one in three is run as a black box (thorough: all)."),
"C23": ("Web", "Every single request over 18 paths, 6 methods and 9 kinds of body, and interleavings of two requests (half-sent bodies) on the running service; responses are taken apart and unescaped. The service runs under the race detector in one leg."),
"C24": ("TraceLemma, TraceStage, Rules", "Recorded runs of every filter validated against a rule-independent specification of the lemma flag and against Rules; tokenizers never flag."),
"C25": ("Rules/Gen", "Every list over 5 characters up to length 4 (5) as a dictionary, and pairs of lists, on every input of up to 3 tokens; random dictionaries as lists, as separate items and in other orders and spellings."),
"C26": ("Rules/TraceStage", "Every listed term of both vocabularies in running text, in a random spelling per round (1 round; thorough: 8), recorded and validated against Rules with the vocabulary in data/."),
"C27": ("Trie", "Every history of two additions of up to two tokens, in all configurations, and random ones of 14 additions to two tries, then every search of up to 2 (3) tokens, replayed with several scripts; TLC checks that walking finds the longest key."),
"C28": ("GenCon, Rules/TraceStage", "The real generator is run several times in a scratch folder; its table is validated by TLC against the list, and the filter is built with it and its runs validated against Rules."),
"C29": ("GenTags", "Every conversation of up to two pages of one tag and random ones of up to 20 pages with a stand-in for the tag service (reached through HTTP_PROXY on the loopback network); pages asked for, waits, exit status and dictionary are compared."),
"C30": ("GenNames", "Every page of up to two rows (one in five with three; thorough: all) with every answer, from a stand-in for the site (reached through a proxy, with a certificate of its own)."),
}
checks = []
for l in open("/verif/properties.jsonl"):
    pid = json.loads(l)["id"]
    spec, note = N[pid]
    checks.append({"property": pid, "quick_cmd": "VERIF_TIER=quick python3 check.py %s" % pid, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": "TLA+ specification (%s) checked with TLC, bound to the code by trace replay and trace validation" % spec,
                   "level": "model_checking", "level_note": note + " Bounded and sampled, not a proof."})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": [],
     "notes": "TLA+ with TLC. No hooks in /repo: everything is observed through the public API, the command and the service. See DESIGN.md."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open("/verif/MANIFEST.json", "a").write("\n")
