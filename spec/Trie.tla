-------------------------------- MODULE Trie --------------------------------
(***************************************************************************)
(* C27: the trie on its own.  Tries hold normalized keys and canonicals;   *)
(* adding a sequence of tokens adds its normalized text, and searching a   *)
(* sequence of tokens finds the longest key that its head spells, where a  *)
(* key ends at the end of a token.                                         *)
(*                                                                         *)
(* Characters: "a" "A" "b" "B" and "-", which some tries ignore; "+" is    *)
(* the upper case of "-", if that has one (Cased), and "-" otherwise.      *)
(* A canonical is a number; 0 is the empty string.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Tries, MaxAdds, MaxKey, MaxQuery, Pre, Cased

Values == << <<"a">>, <<"A">>, <<"a","b">>, <<"b">>, <<"-">>, <<"B","+","a">> >>
Cans == 0..2

VARIABLES cfg, map, hist
vars == <<cfg, map, hist>>
(* cfg[t]: [ic |-> ignores case, ig |-> ignores "-"];  map[t]: keys to canonicals *)

Lo(x) == IF x = "A" THEN "a" ELSE IF x = "B" THEN "b" ELSE IF x = "+" THEN "-" ELSE x
Char(x) == IF x = "+" /\ ~Cased THEN "-" ELSE x
Norm(c, v) == SelectSeq(IF c.ic THEN [i \in DOMAIN v |-> Lo(v[i])] ELSE [i \in DOMAIN v |-> Char(v[i])], LAMBDA x : ~(c.ig /\ x = "-"))
TokSeqs(n) == UNION {[1..k -> DOMAIN Values] : k \in 0..n}
Queries == TLCEval(TokSeqs(MaxQuery))
\* (computed once: what each sequence of tokens spells, in each configuration)
Texts == TLCEval([ic \in BOOLEAN |-> [ig \in BOOLEAN |->
   [q \in TokSeqs(IF MaxKey > MaxQuery THEN MaxKey ELSE MaxQuery) |-> Norm([ic |-> ic, ig |-> ig], FlattenSeq([i \in DOMAIN q |-> Values[q[i]]]))]]])
ASSUME TLCSet(5, Texts)
Text(c, q, n) == TLCGet(5)[c.ic][c.ig][SubSeq(q, 1, n)]

Init == /\ cfg \in [Tries -> [ic : BOOLEAN, ig : BOOLEAN]] /\ map = [t \in Tries |-> <<>>] /\ hist = <<>>

\* The same key again: the last one counts.  Nothing to match: nothing happens.
Add(t, q, can) == LET k == Text(cfg[t], q, Len(q)) IN
  /\ Len(hist) < MaxAdds
  /\ map' = IF k = <<>> THEN map ELSE [map EXCEPT ![t] = (k :> can) @@ @]
  /\ hist' = Append(hist, <<t, q, can>>) /\ UNCHANGED cfg
Next == \E t \in Tries, q \in TokSeqs(MaxKey), can \in Cans : Add(t, q, can)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
NotFound == [f |-> FALSE, c |-> 0, n |-> 0]
\* What a search finds: the longest key, spelled by as few tokens as possible
SearchIn(keys, t, q) ==
  LET ends == {n \in 1..Len(q) : Text(cfg[t], q, n) \in DOMAIN keys} IN
  IF ends = {} THEN NotFound
  ELSE LET n == CHOOSE n \in ends : \A m \in ends :
                  LET a == Len(Text(cfg[t], q, n))  b == Len(Text(cfg[t], q, m)) IN a > b \/ (a = b /\ n <= m)
       IN [f |-> TRUE, c |-> keys[Text(cfg[t], q, n)], n |-> n]
Search(t, q) == SearchIn(map[t], t, q)

\* The same, by walking along the tokens and giving up where no key goes on
IsPfx(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* Stretched: with K of each character for one, the same searches find the same things (keys and their beginnings
\* correspond), so the harness replays histories that way too; and so do searches with more of the tokens that say nothing.
Double(v) == FlattenSeq([i \in DOMAIN v |-> <<v[i], v[i]>>])
ASSUME \A c \in [ic : BOOLEAN, ig : BOOLEAN], p, q \in TokSeqs(2) :
   LET P == FlattenSeq([i \in DOMAIN p |-> Values[p[i]]])  Q == FlattenSeq([i \in DOMAIN q |-> Values[q[i]]]) IN
   /\ Norm(c, Double(P)) = Double(Norm(c, P))
   /\ IsPfx(Double(Norm(c, P)), Double(Norm(c, Q))) <=> IsPfx(Norm(c, P), Norm(c, Q))
   /\ c.ig => Norm(c, P \o <<"-", "-">> \o Q) = Norm(c, P \o <<"-">> \o Q)
\* Separate: keys that the query does not begin with do not matter, so that a trie of very many keys can be searched
\* for each as if it was alone (manyKeys in the harness)
Separate == \A t \in Tries, q \in TokSeqs(2) :
   LET mine == {k \in DOMAIN map[t] : IsPfx(k, Text(cfg[t], q, Len(q)))} IN
   Search(t, q) = SearchIn([k \in mine |-> map[t][k]], t, q)
RECURSIVE Walk(_, _, _, _, _)
Walk(t, q, i, at, best) ==
  IF i > Len(q) THEN best
  ELSE LET to == at \o Norm(cfg[t], Values[q[i]]) IN
       IF ~\E k \in DOMAIN map[t] : IsPfx(to, k) THEN best
       ELSE Walk(t, q, i + 1, to,
                 IF to \in DOMAIN map[t] /\ (~best.f \/ to # best.k) THEN [f |-> TRUE, c |-> map[t][to], n |-> i, k |-> to] ELSE best)
WalkIsSearch == \A t \in Tries, q \in Queries :
   LET w == Walk(t, q, 1, <<>>, [f |-> FALSE, c |-> 0, n |-> 0, k |-> <<>>])  s == Search(t, q) IN
   w.f = s.f /\ w.c = s.c /\ w.n = s.n
\* A search depends on what is in the trie, not on how it got there
AddedText(i) == Text(cfg[hist[i][1]], hist[i][2], Len(hist[i][2]))
LastWins == \A i \in DOMAIN hist :
   LET t == hist[i][1]  k == AddedText(i) IN
   (k # <<>> /\ \A j \in (i + 1)..Len(hist) : hist[j][1] # t \/ AddedText(j) # k) => map[t][k] = hist[i][3]
NoEmptyKey == \A t \in Tries : <<>> \notin DOMAIN map[t]
Bit(b) == IF b THEN 1 ELSE 0
Hits(t) == LET r == TLCEval([q \in Queries |-> Search(t, q)]) IN {<<q, r[q].c, r[q].n>> : q \in {q \in Queries : r[q].f}}
Out == Len(hist) >= Pre => PrintT(ToJson([c |-> [t \in DOMAIN cfg |-> <<Bit(cfg[t].ic), Bit(cfg[t].ig)>>], h |-> hist, f |-> [t \in DOMAIN cfg |-> SetToSeq(Hits(t))]]))
=============================================================================
