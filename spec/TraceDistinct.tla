--------------------------- MODULE TraceDistinct ---------------------------
(***************************************************************************)
(* Distinct on long streams.  The values of a stream are numbered in the   *)
(* order in which they first occur, so a token is the first of its value   *)
(* exactly if its number is higher than all before it (and then by one).   *)
(* This is DistinctRule (Rules.tla) for numbered values: Agrees, checked   *)
(* on all short streams.                                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.VIN)
Cases == TLCEval(Data.cases)   \* [in |-> numbers, out |-> numbers, fin |-> STRING]

VARIABLES k, i, o, mx, ph
vars == <<k, i, o, mx, ph>>
Cs == Cases[k]
Init == k \in DOMAIN Cases /\ i = 0 /\ o = 0 /\ mx = 0 /\ ph = "run"
Verdict(v, why) == /\ ph' = v /\ PrintT(<<v, k, i, o, why>>) /\ UNCHANGED <<k, i, o, mx>>
First == Cs.in[i + 1] > mx
Step == /\ ph = "run" /\ i < Len(Cs.in) /\ Assert(Cs.in[i + 1] \in 1..(mx + 1), "not numbered in order")
        /\ IF First /\ o = Len(Cs.out) THEN Verdict("REJ", "ended")
           ELSE IF First /\ Cs.out[o + 1] # Cs.in[i + 1] THEN Verdict("REJ", "token")
           ELSE /\ i' = i + 1 /\ o' = (IF First THEN o + 1 ELSE o)
                /\ mx' = (IF First THEN mx + 1 ELSE mx)
                /\ UNCHANGED <<k, ph>>
Finish == /\ ph = "run" /\ i = Len(Cs.in)
          /\ IF o < Len(Cs.out) THEN Verdict("REJ", "extra")
             ELSE IF Cs.fin = "eof" THEN Verdict("OK", "") ELSE Verdict("REJ", "fin")
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

\* Numbering by first occurrence, and the selection by a set of values seen
Number(s) == LET fst(x) == CHOOSE j \in DOMAIN s : s[j] = x /\ \A h \in 1..(j - 1) : s[h] # x
                 fs == {j \in DOMAIN s : fst(s[j]) = j}
             IN [j \in DOMAIN s |-> LET f == fst(s[j]) IN 1 + Len(SelectSeq([h \in 1..(f - 1) |-> h], LAMBDA h : h \in fs))]
RECURSIVE BySet(_, _), ByMax(_, _)
BySet(s, seen) == IF s = <<>> THEN <<>> ELSE (IF s[1] \in seen THEN <<>> ELSE <<s[1]>>) \o BySet(Tail(s), seen \cup {s[1]})
ByMax(s, m) == IF s = <<>> THEN <<>> ELSE IF s[1] > m THEN <<s[1]>> \o ByMax(Tail(s), s[1]) ELSE ByMax(Tail(s), m)
Short == UNION {[1..n -> 1..4] : n \in 0..5}
ASSUME FirstOfEach == \A n \in 0..4, s \in Short : LET t == [h \in 1..n |-> h] \o SelectSeq(s, LAMBDA x : x <= n) IN ByMax(t, 0) = [h \in 1..n |-> h]
ASSUME Agrees == \A s \in Short : ByMax(Number(s), 0) = Number(BySet(s, {})) /\ ByMax(Number(s), 0) = BySet(Number(s), {})
=============================================================================
