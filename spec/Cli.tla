-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* C21 and C22: the jargon command, from the command line to its exit.     *)
(*                                                                         *)
(*   opts  the command line: a sequence of [n |-> option, f |-> how it is  *)
(*         written]: one or two dashes, "eq" (-x=true), "off" (-x=false)   *)
(*   env   what it meets: stdin, the -file argument, the -out argument,    *)
(*         standard output, and what the input holds                       *)
(*   ph    how far it has come;  at: the option being looked at            *)
(*   r     what it has decided: chain of filters, lang, html, lines,       *)
(*         count, src, to, exit, err                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Kind,      \* which part of the space: "order", "forms" or "env"
          MinOpts, MaxOpts

FilterNames == {"stack", "contractions", "ascii", "stem", "lemmas", "distinct"}
ModeNames == {"html", "lines", "count"}
Langs == {"english", "french", "norwegian", "russian", "spanish", "swedish"}
Bad == {"bogus", "badvalue", "noarg"}        \* unknown option, unknown value, value missing
O(n, f) == [n |-> n, f |-> f]

OptSet == IF Kind = "order" THEN {O(n, "one") : n \in FilterNames}
          ELSE IF Kind = "forms" THEN {O(n, f) : n \in {"stack", "ascii", "stem", "lemmas", "count", "html"}, f \in {"one", "two", "eq", "off"}}
                                      \cup {O("lang", l) : l \in {"french", "russian"}}
          ELSE {}
Given == { <<>>, <<O("stack", "one")>>, <<O("count", "one")>>, <<O("lines", "one"), O("stack", "two")>>, <<O("bogus", "one")>>, <<O("stack", "one"), O("badvalue", "one")>>,
           <<O("noarg", "one")>>, <<O("stem", "one"), O("lang", "klingon")>>, <<O("lang", "klingon")>>, <<O("stack", "one"), O("lemmas", "one")>>, <<O("html", "one"), O("stem", "one"), O("lang", "swedish")>>,
           <<O("version", "one")>>, <<O("stack", "one"), O("version", "two")>> }
Plain == [stdin |-> "pipe", file |-> "none", out |-> "none", stdout |-> "pipe", text |-> "text"]
Envs == IF Kind = "env" THEN [stdin : {"null", "pipe", "redirect", "socket", "dir"}, file : {"none", "ok", "fifo", "missing", "dir"},
                              out : {"none", "new", "old", "nodir", "isdir", "full"}, stdout : {"pipe", "file", "full"}, text : {"text", "empty", "toolong", "big"}]
        ELSE {Plain}

VARIABLES opts, env, ph, at, r
vars == <<opts, env, ph, at, r>>
Names == {opts[i].n : i \in DOMAIN opts}
R0 == [chain |-> <<>>, stem |-> FALSE, lang |-> "english", html |-> FALSE, lines |-> FALSE, count |-> FALSE, src |-> "", to |-> "", exit |-> 0, err |-> FALSE]

Init == /\ env \in Envs /\ opts \in (IF Kind = "env" THEN Given ELSE {<<>>})
        /\ "version" \in Names => env.stdout # "full" /\ env.text = "text"
        /\ ph = "build" /\ at = 1 /\ r = R0
Put(o) == opts' = Append(opts, o) /\ UNCHANGED <<env, ph, at, r>>
Build == /\ ph = "build"
         /\ \/ /\ Len(SelectSeq(opts, LAMBDA o : o.n \in FilterNames \/ Kind = "forms")) < MaxOpts
               /\ Names \cap ModeNames = {} \/ Kind = "forms"
               /\ "lang" \notin Names \/ Kind = "forms"
               /\ \E o \in OptSet : /\ \A i \in DOMAIN opts : opts[i].n = o.n => (opts[i].f = "off") = (o.f = "off")
                                    /\ Put(o)
            \/ /\ Kind = "order" /\ Len(opts) >= MinOpts /\ "stem" \in Names /\ Names \cap ModeNames = {} /\ "lang" \notin Names
               /\ \E l \in {"french", "russian"} : Put(O("lang", l))
            \/ /\ Kind = "order" /\ Len(opts) >= MinOpts /\ Names \cap ModeNames = {}
               /\ \E S \in SUBSET ModeNames \ {{}} : opts' = opts \o SetToSeq({O(m, "one") : m \in S}) /\ UNCHANGED <<env, ph, at, r>>
Start == ph = "build" /\ Len(opts) >= MinOpts /\ ph' = "parse" /\ UNCHANGED <<opts, env, at, r>>

Fail(code) == r' = [r EXCEPT !.exit = code, !.err = TRUE] /\ ph' = "done" /\ UNCHANGED <<opts, env, at>>
Go(s, p) == r' = s /\ ph' = p /\ UNCHANGED <<opts, env, at>>

\* flags, one by one
Parse == /\ ph = "parse"
         /\ IF at > Len(opts) THEN IF "version" \in Names THEN Go([r EXCEPT !.src = "version"], "done") ELSE Go(r, "input")
            ELSE LET o == opts[at]
                     on == o.f # "off"
                 IN IF o.n \in Bad THEN Fail(2)
                    ELSE /\ at' = at + 1 /\ UNCHANGED <<opts, env, ph>>
                         /\ r' = IF o.n = "version" THEN r
                                 ELSE IF o.n = "lang" THEN [r EXCEPT !.lang = o.f]
                                 ELSE IF o.n = "html" THEN [r EXCEPT !.html = on]
                                 ELSE IF o.n = "lines" THEN [r EXCEPT !.lines = on]
                                 ELSE IF o.n = "count" THEN [r EXCEPT !.count = on]
                                 ELSE IF on THEN [r EXCEPT !.chain = Append(@, o.n), !.stem = @ \/ o.n = "stem"]
                                 ELSE r
Piped == env.stdin # "null"
Input == /\ ph = "input"
         /\ IF env.file = "missing" THEN Fail(1)
            ELSE IF env.file = "none" /\ ~Piped THEN Go([r EXCEPT !.src = "none", !.err = TRUE], "done")     \* usage
            ELSE IF env.file # "none" /\ Piped THEN Fail(1)
            ELSE Go([r EXCEPT !.src = IF Piped THEN "stdin" ELSE "file"], "filters")
Filters == /\ ph = "filters" /\ IF r.stem /\ r.lang \notin Langs THEN Fail(1) ELSE Go(r, "output")
Output == /\ ph = "output"
          /\ IF env.out \in {"nodir", "isdir"} THEN Fail(1)
             ELSE Go([r EXCEPT !.to = IF env.out = "none" THEN "stdout" ELSE "out"], "read")
Unreadable == (r.src = "file" /\ env.file = "dir") \/ (r.src = "stdin" /\ env.stdin = "dir")
Read == ph = "read" /\ IF Unreadable \/ env.text = "toolong" THEN Fail(1) ELSE Go(r, "write")
\* a full device fails if there is anything to write
Full == (r.to = "out" /\ env.out = "full") \/ (r.to = "stdout" /\ env.stdout = "full")
Write == ph = "write" /\ Go(IF Full THEN [r EXCEPT !.exit = -1] ELSE r, "done")
Run == Parse \/ Input \/ Filters \/ Output \/ Read \/ Write
Next == Build \/ Start \/ Run
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* C21: the filters in the order of the flags, and the last word on everything else
IsFilter(o) == o.n \in FilterNames /\ o.f # "off"
Chain == LET s == SelectSeq(opts, IsFilter) IN [i \in DOMAIN s |-> s[i].n]
InOrder == ph = "done" /\ r.exit # 2 => r.chain = Chain
\* C22: what makes it fail, all at once
On(n) == \E i \in DOMAIN opts : opts[i].n = n /\ opts[i].f # "off"
LastLang == IF "lang" \in Names THEN opts[CHOOSE i \in DOMAIN opts : opts[i].n = "lang" /\ \A j \in DOMAIN opts : opts[j].n = "lang" => j <= i].f ELSE "english"
Shows == "version" \in Names
Hopeless == \/ Names \cap Bad # {}
            \/ env.file = "missing" /\ ~Shows
            \/ env.file # "none" /\ Piped /\ ~Shows
            \/ /\ ~Shows /\ (env.file # "none" \/ Piped)
               /\ \/ On("stem") /\ LastLang \notin Langs
                  \/ env.out \in {"nodir", "isdir"}
                  \/ env.file = "dir" \/ env.stdin = "dir" \/ env.text = "toolong"
Reported == ph = "done" => /\ Hopeless <=> r.exit > 0
                           /\ r.exit > 0 => r.err
                           /\ r.exit = 0 /\ r.src \notin {"none", "version"} => r.to # ""
                           /\ r.src \in {"none", "version"} => r.to = ""
\* An output file is touched only if there is input and all options are right
Careful == ph = "done" /\ r.to # "" => Names \cap Bad = {} /\ r.src \in {"stdin", "file"} /\ ~(On("stem") /\ LastLang \notin Langs)
Out == ph = "done" => PrintT(ToJson([o |-> opts, e |-> env, r |-> r]))
=============================================================================
