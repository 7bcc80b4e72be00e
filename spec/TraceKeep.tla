----------------------------- MODULE TraceKeep -----------------------------
(***************************************************************************)
(* C10, on recorded runs of synonyms filters (the same records as for      *)
(* TraceStage), whatever the dictionary: the output is the input, with     *)
(* spans of words replaced by one lemma each (or by none, if some          *)
(* canonical is empty).  A run is accepted if it can be read so.           *)
(***************************************************************************)
EXTENDS Text
T == TLCEval(Data.toks)
Cases == TLCEval(Data.cases)
Empties == TLCEval(Data.empties)       \* per filter: whether a canonical is empty

VARIABLES k, i, o, e
vars == <<k, i, o, e>>
(* i, o: positions in the input and output; e > 0: in a span, whose last token so far is e *)
Cs == Cases[k]
In(x) == T[Cs.in[x]]
Outp(x) == T[Cs.out[x]]
N == Len(Cs.in)

Init == k \in DOMAIN Cases /\ i = 0 /\ o = 0 /\ e = 0
\* unchanged
Keep == /\ e = 0 /\ i < N /\ o < Len(Cs.out) /\ TokEq(In(i + 1), Outp(o + 1))
        /\ i' = i + 1 /\ o' = o + 1 /\ UNCHANGED <<k, e>>
\* a span starts with a word, and goes on without punctuation
Open == /\ e = 0 /\ i < N /\ IsWord(In(i + 1)) /\ e' = i + 1 /\ UNCHANGED <<k, i, o>>
More == /\ e > 0 /\ e < N /\ ~In(e + 1).p /\ e' = e + 1 /\ UNCHANGED <<k, i, o>>
\* and ends with a word
Shut == /\ e > 0 /\ IsWord(In(e)) /\ i' = e /\ e' = 0 /\ UNCHANGED k
        /\ \/ o < Len(Cs.out) /\ Outp(o + 1).l /\ o' = o + 1
           \/ Empties[Cs.f] /\ o' = o
Done == e = 0 /\ o = Len(Cs.out) /\ (Cs.flt \/ i = N) /\ Cs.fin = (IF Cs.flt THEN "err" ELSE "eof")
Next == Keep \/ Open \/ More \/ Shut
Spec == Init /\ [][Next]_vars
Report == Done => PrintT(<<"OK", k, 0, 0, "">>)
=============================================================================
