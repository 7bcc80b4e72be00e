------------------------------ MODULE Rules ------------------------------
(***************************************************************************)
(* The meaning of each token filter, as a rewriting rule.                  *)
(*                                                                         *)
(* A filter f reads its input from left to right.  At each point,          *)
(* Rule(f, m, w, eof) says what happens at the head of w, the upcoming     *)
(* input (eof: w is all that is left), when m is what the filter remembers *)
(* of the past: `take' tokens of w are consumed, the tokens `give' are     *)
(* put out, and `mem' is remembered.                                       *)
(*                                                                         *)
(* Decided(f, m, w) says whether w is long enough to apply the rule before *)
(* the end of the input is known: the lookahead a streaming filter needs.  *)
(***************************************************************************)
EXTENDS Text

Res(take, give, mem) == [take |-> take, give |-> give, mem |-> mem]
Pass(w, mem) == Res(1, <<w[1]>>, mem)

NoMem == [seen |-> {}, word |-> FALSE, skip |-> FALSE]
InitMem == NoMem

---------------------------------------------------------------------------
(* Dictionaries of synonyms                                                *)

\* Leave out what the dictionary ignores
Norm(d, v) == SelectSeq(IF d.ic THEN LowerV(v) ELSE v, LAMBDA x : x \notin d.ign)

IsComma(t) == Len(t.c) = 1 /\ Cp(t.c[1]) = 44
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
SkipSpaces(ts) == LET W == {i \in DOMAIN ts : ~ts[i].s} IN
                  IF W = {} THEN <<>> ELSE SubSeq(ts, MinOf(W), Len(ts))

\* The items of a comma-separated list of synonyms (a sequence of tokens)
Items(ts) ==
  LET commas == {i \in DOMAIN ts : IsComma(ts[i])}
      until(a) == LET L == {b \in commas : b > a} IN IF L = {} THEN Len(ts) ELSE MinOf(L) - 1
  IN { SkipSpaces(SubSeq(ts, a + 1, until(a))) : a \in commas \cup {0} }

ValueOf(ts) == FlattenV([i \in DOMAIN ts |-> ts[i].c])
Words(ts) == Cardinality({i \in DOMAIN ts : IsWord(ts[i])})

\* Compile entries <<[syn |-> tokens, can |-> value], ...>> : pairs of normalized synonyms
\* and their canonicals (arranged by first character and length, to find them fast),
\* and the number of words of the longest synonym
Compile(ent, ic, ign) ==
  LET d0    == [ic |-> ic, ign |-> ign]
      its   == TLCEval([e \in DOMAIN ent |-> Items(ent[e].syn)])
      all   == TLCEval(UNION { { <<Norm(d0, ValueOf(it)), ent[e].can>> : it \in its[e] } : e \in DOMAIN ent })
      pairs == TLCEval({ q \in all : q[1] # <<>> })
      mws   == {1} \cup UNION { { Words(it) : it \in its[e] } : e \in DOMAIN ent }
  IN [ic |-> ic, ign |-> ign, mw |-> MaxOf(mws),
      map |-> [ c \in { q[1][1] : q \in pairs } |->
                  LET own == TLCEval({ q \in pairs : q[1][1] = c }) IN
                  [ n \in { Len(q[1]) : q \in own } |-> { q \in own : Len(q[1]) = n } ] ],
      amb |-> Cardinality(pairs) # Cardinality({ q[1] : q \in pairs }) ]

\* The pairs for a normalized text k: none, or one
Found(d, k) == IF k = <<>> \/ k[1] \notin DOMAIN d.map THEN {}
               ELSE LET m == d.map[k[1]] IN
                    IF Len(k) \notin DOMAIN m THEN {} ELSE { q \in m[Len(k)] : q[1] = k }

\* The run of words at the head of w: ends before punctuation, or with the mw-th word
RECURSIVE RunLen(_, _, _, _)
RunLen(w, mw, i, n) ==
  IF i > Len(w) \/ w[i].p THEN i - 1
  ELSE IF ~w[i].s /\ n + 1 >= mw THEN i
  ELSE RunLen(w, mw, i + 1, IF w[i].s THEN n ELSE n + 1)

\* The longest synonym in w[1..r] starting at 1; the shortest span of tokens spelling it
RECURSIVE Longest(_, _, _, _, _, _)
Longest(d, w, r, e, key, best) ==
  IF e > r THEN best
  ELSE LET k == key \o Norm(d, w[e].c) IN
       Longest(d, w, r, e + 1, k,
               IF Len(k) > Len(best.key) /\ Found(d, k) # {} THEN [key |-> k, e |-> e] ELSE best)

SynRule(d, m, w) ==
  IF ~IsWord(w[1]) THEN Pass(w, m)
  ELSE LET b == Longest(d, w, RunLen(w, d.mw, 1, 0), 1, <<>>, [key |-> <<>>, e |-> 0])
       IN IF b.e = 0 THEN Pass(w, m)
          ELSE LET can == (CHOOSE q \in Found(d, b.key) : TRUE)[2] IN
               Res(b.e, IF can = <<>> THEN <<>> ELSE <<Token(can, TRUE)>>, m)

\* Enough words, or punctuation, seen
SynDecided(d, w) == \/ ~IsWord(w[1])
                    \/ Words(w) >= d.mw
                    \/ \E i \in DOMAIN w : w[i].p

---------------------------------------------------------------------------
(* Contractions: tab is a sequence of [con |-> value, exp |-> value], in   *)
(* lower case with a straight apostrophe                                   *)

Straight(v, q) == [i \in DOMAIN v |-> IF Cp(v[i]) = 8217 THEN q ELSE v[i]]

RECURSIVE SplitBlank(_, _)
SplitBlank(v, cur) ==
  IF v = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
  ELSE IF Cp(v[1]) = 32 THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o <<<<v[1]>>>> \o SplitBlank(Tail(v), <<>>)
  ELSE SplitBlank(Tail(v), Append(cur, v[1]))
Lemmas(v) == LET ps == SplitBlank(v, <<>>) IN [i \in DOMAIN ps |-> Token(ps[i], TRUE)]

ConRule(f, m, w) ==
  LET v == Straight(w[1].c, f.quote)
      exact == {e \in DOMAIN f.tab : v \in {f.tab[e].con, TitleV(f.tab[e].con), UpperV(f.tab[e].con)}}
      any   == {e \in DOMAIN f.tab : LowerV(v) = f.tab[e].con}
  IN IF exact # {} THEN
       LET e == CHOOSE e \in exact : TRUE
           x == f.tab[e]
       IN Res(1, Lemmas(IF v = x.con THEN x.exp ELSE IF v = TitleV(x.con) THEN TitleV(x.exp) ELSE UpperV(x.exp)), m)
     ELSE IF any # {} THEN Res(1, Lemmas(f.tab[CHOOSE e \in any : TRUE].exp), m)
     ELSE Pass(w, m)

---------------------------------------------------------------------------
(* Sigils                                                                  *)

AsciiAlnum(x) == LET c == Cp(x) IN (48 <= c /\ c <= 57) \/ (65 <= c /\ c <= 90) \/ (97 <= c /\ c <= 122)
LegalHandle(v)  == Len(v) \in 1..15 /\ \A i \in DOMAIN v : AsciiAlnum(v[i]) \/ Cp(v[i]) = 95
LegalHashtag(v) == IF Len(v) = 1 THEN C[v[1]].le
                   ELSE \A i \in DOMAIN v : C[v[i]].le \/ C[v[i]].nu \/ Cp(v[i]) = 95
Legal(f, v) == CASE f.legal = "handle"  -> LegalHandle(v)
                 [] f.legal = "hashtag" -> LegalHashtag(v)
                 [] f.legal = "list"    -> \E i \in DOMAIN f.names : f.names[i] = v
                 [] f.legal = "any"     -> TRUE
                 [] f.legal = "none"    -> FALSE

\* m.word: the token put out last was a word.  m.skip: w[1] was rejected as a name.
SigRule(f, m, w) ==
  LET after(t) == [m EXCEPT !.word = IsWord(t), !.skip = FALSE] IN
  IF m.skip \/ m.word \/ w[1].c # f.sigil \/ Len(w) < 2 THEN Pass(w, after(w[1]))
  ELSE IF Legal(f, w[2].c)
       THEN LET t == Token(w[1].c \o w[2].c, TRUE) IN Res(2, <<t>>, after(t))
       ELSE Pass(w, [after(w[1]) EXCEPT !.skip = TRUE])

SigDecided(f, m, w) == m.skip \/ m.word \/ w[1].c # f.sigil \/ Len(w) >= 2

---------------------------------------------------------------------------
(* Selections, stop words                                                  *)

StopRule(f, m, w) ==
  LET k == IF f.ic THEN LowerV(w[1].c) ELSE w[1].c
      hit == \E i \in DOMAIN f.words : (IF f.ic THEN LowerV(f.words[i]) ELSE f.words[i]) = k
  IN IF hit THEN Res(1, <<>>, m) ELSE Pass(w, m)

Selected(f, m, t) ==
  CASE f.op = "words"  -> IsWord(t)
    [] f.op = "lemmas" -> t.l
    [] f.op = "where"  -> (CASE f.pred = "punct"  -> t.p
                             [] f.pred = "space"  -> t.s
                             [] f.pred = "even"   -> Len(t.c) % 2 = 0
                             [] f.pred = "true"   -> TRUE
                             [] f.pred = "false"  -> FALSE)
SelRule(f, m, w) == IF Selected(f, m, w[1]) THEN Pass(w, m) ELSE Res(1, <<>>, m)
DistinctRule(m, w) == IF w[1].c \in m.seen THEN Res(1, <<>>, m)
                      ELSE Pass(w, [m EXCEPT !.seen = @ \cup {w[1].c}])

---------------------------------------------------------------------------
(* Mapping, one to one.  A change makes a lemma; no change, no change.     *)

Rev(v) == [i \in DOMAIN v |-> v[Len(v) + 1 - i]]
Changed(t, v) == IF v = t.c THEN t ELSE Token(v, TRUE)
\* A table is a sequence of [a |-> value, b |-> value]
Lookup(tab, v) == LET hs == {i \in DOMAIN tab : tab[i].a = v} IN
                  IF hs = {} THEN v ELSE tab[CHOOSE i \in hs : TRUE].b
MapFn(f, name, t) ==
  CASE name = "id"    -> t
    [] name = "lower" -> Changed(t, LowerV(t.c))
    [] name = "upper" -> Changed(t, UpperV(t.c))
    [] name = "rev"   -> Changed(t, Rev(t.c))
    [] name = "twice" -> Token(t.c \o t.c, TRUE)
    [] name = "mark"  -> Token(t.c, TRUE)
    [] name = "fold"  -> Changed(t, FoldV(t.c))
    [] name = "norm"  -> Changed(t, Lookup(f.tab, t.c))
    [] name = "stem"  -> LET v == Lookup(f.tab, t.c) IN
                         IF ~IsWord(t) \/ v = <<>> THEN t ELSE Changed(t, v)
RECURSIVE MapAll(_, _, _)
MapAll(f, fns, t) == IF fns = <<>> THEN t ELSE MapAll(f, Tail(fns), MapFn(f, Head(fns), t))
MapRule(f, m, w) == Res(1, <<MapAll(f, f.fns, w[1])>>, m)

---------------------------------------------------------------------------

Rule(f, m, w, eof) ==
  CASE f.op = "syn"      -> SynRule(f.dict, m, w)
    [] f.op = "con"      -> ConRule(f, m, w)
    [] f.op = "sig"      -> SigRule(f, m, w)
    [] f.op = "stop"     -> StopRule(f, m, w)
    [] f.op = "distinct" -> DistinctRule(m, w)
    [] f.op = "map"      -> MapRule(f, m, w)
    [] OTHER             -> SelRule(f, m, w)

Decided(f, m, w) ==
  /\ w # <<>>
  /\ CASE f.op = "syn" -> SynDecided(f.dict, w)
       [] f.op = "sig" -> SigDecided(f, m, w)
       [] OTHER        -> TRUE

\* The filters there are
Filters == TLCEval([i \in DOMAIN Data.filters |->
          LET f == Data.filters[i] IN
          IF f.op = "syn" THEN [op |-> "syn", dict |-> Compile(f.ent, f.ic, SeqRange(f.ign))] ELSE f])

\* (kept in a register, to be computed once)
ASSUME TLCSet(7, Filters)
F == TLCGet(7)

\* The complete output of a filter for a complete input, and of a sequence of filters
RECURSIVE Output(_, _, _)
Output(f, m, w) == IF w = <<>> THEN <<>>
                   ELSE LET r == Rule(f, m, w, TRUE)
                        IN r.give \o Output(f, r.mem, SubSeq(w, r.take + 1, Len(w)))
RECURSIVE OutputAll(_, _)
OutputAll(fs, w) == IF fs = <<>> THEN w ELSE OutputAll(Tail(fs), Output(Head(fs), InitMem, w))
=============================================================================
