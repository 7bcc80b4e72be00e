----------------------------- MODULE TraceLemma -----------------------------
(***************************************************************************)
(* C24, on recorded runs of any filter (the same records as for TraceStage)*)
(* and without knowing its rule: a token that comes out without the lemma  *)
(* flag is one that went in, without the flag, and in order; a token that  *)
(* came in with the flag never comes out without it.                       *)
(***************************************************************************)
EXTENDS Text
T == TLCEval(Data.toks)
Cases == TLCEval(Data.cases)
Maps == TLCEval(Data.maps)        \* per filter: whether it maps token by token

VARIABLES k, i, o, ph
vars == <<k, i, o, ph>>
Cs == Cases[k]
In(x) == T[Cs.in[x]]
Outp(x) == T[Cs.out[x]]
Verdict(v, why) == ph' = v /\ PrintT(<<v, k, i, o, why>>) /\ UNCHANGED <<k, i, o>>

Init == k \in DOMAIN Cases /\ i = 0 /\ o = 0 /\ ph = "run"
\* token by token
Pair == /\ Maps[Cs.f]
        /\ IF o = Len(Cs.out) \/ o = Len(Cs.in) THEN Verdict("OK", "")
           ELSE LET a == In(o + 1)
                    b == Outp(o + 1)
                IN IF b.c = a.c /\ b.l # a.l THEN Verdict("REJ", "flag of an unchanged token")
                   ELSE IF b.c # a.c /\ ~b.l THEN Verdict("REJ", "changed, and not a lemma")
                   ELSE o' = o + 1 /\ UNCHANGED <<k, i, ph>>
\* the next token out without the flag is found further on in the input
Find == /\ ~Maps[Cs.f]
        /\ IF o = Len(Cs.out) THEN Verdict("OK", "")
           ELSE IF Outp(o + 1).l THEN o' = o + 1 /\ UNCHANGED <<k, i, ph>>
           ELSE IF i = Len(Cs.in) THEN Verdict("REJ", "not a lemma, and not in the input")
           ELSE /\ i' = i + 1 /\ o' = (IF TokEq(In(i + 1), Outp(o + 1)) THEN o + 1 ELSE o) /\ UNCHANGED <<k, ph>>
Next == ph = "run" /\ (Pair \/ Find)
Spec == Init /\ [][Next]_vars
=============================================================================
