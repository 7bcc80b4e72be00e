----------------------------- MODULE TraceFlags -----------------------------
(***************************************************************************)
(* Checks the flags observed for every Unicode character.  The observation *)
(* is a list of ranges of code points (lo..hi) with the same result; res   *)
(* gives, for each template, whether the token made from the template was  *)
(* punctuation and space.  A template is a text over kinds in which "x" is *)
(* the character in question.                                              *)
(* P and W are the ranges of punctuation and of white space of Unicode.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.VIN)
Obs == TLCEval(Data.obs)
Tpl == TLCEval(Data.templates)
P == TLCEval(Data.punct)
W == TLCEval(Data.white)
F == INSTANCE Flags WITH made <- <<>>, Kinds <- {}, MaxLen <- 0, MaxMade <- 0

In(R, c) == \E i \in DOMAIN R : R[i][1] <= c /\ c <= R[i][2]
Kind(c) == IF c = 9 THEN "tb" ELSE IF c = 10 THEN "lf" ELSE IF c = 13 THEN "cr"
           ELSE IF In(P, c) THEN "pu" ELSE IF In(W, c) THEN "sp" ELSE "ot"
\* the kinds change only at these points
Edges(R) == {R[i][1] : i \in DOMAIN R} \cup {R[i][2] + 1 : i \in DOMAIN R}
AllEdges == TLCEval(Edges(P) \cup Edges(W) \cup {0, 9, 10, 11, 13, 14})

VARIABLES k, ph
vars == <<k, ph>>
Init == k \in DOMAIN Obs /\ ph = "run"
Points(o) == {o.lo} \cup {c \in AllEdges : o.lo <= c /\ c <= o.hi}
Fill(t, c) == [i \in DOMAIN t |-> IF t[i] = "x" THEN Kind(c) ELSE t[i]]
Bad(o) == { <<c, j>> \in Points(o) \X DOMAIN Tpl :
             LET m == F!Made(Fill(Tpl[j], c), FALSE) IN
             o.res[j] # (IF m.p THEN 1 ELSE 0) + (IF m.s THEN 2 ELSE 0) }
Next == /\ ph = "run"
        /\ LET b == Bad(Obs[k]) IN
           IF b = {} THEN ph' = "OK" /\ PrintT(<<"OK", k, 0, 0, "">>)
           ELSE LET q == CHOOSE q \in b : TRUE IN ph' = "REJ" /\ PrintT(<<"REJ", k, q[1], q[2], "flags">>)
        /\ UNCHANGED k
Spec == Init /\ [][Next]_vars
=============================================================================
