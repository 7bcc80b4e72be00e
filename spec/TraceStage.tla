---------------------------- MODULE TraceStage ----------------------------
(***************************************************************************)
(* Checks recorded runs of the real filters against Rules.  A case is one  *)
(* filter working on one stream: what it was given (in), what it handed    *)
(* out (out), how many tokens it had pulled when it handed out each (n),   *)
(* whether its source failed at the end (flt) and how it ended (fin).      *)
(* Every case is a behaviour of its own: each step applies the rule at     *)
(* position i and finds the tokens it gives at position o of the output.   *)
(***************************************************************************)
EXTENDS Rules

T == TLCEval(Data.toks)
Cases == TLCEval(Data.cases)
Lag == Data.lag          \* how much further than necessary a filter may have read; -1: don't care
Win == Data.win

VARIABLES k, i, o, m, ph
vars == <<k, i, o, m, ph>>
Cs == Cases[k]
N == Len(Cs.in)

Init == k \in DOMAIN Cases /\ i = 0 /\ o = 0 /\ m = InitMem /\ ph = "run"

Least(a, b) == IF a < b THEN a ELSE b
Window == LET n == IF F[Cs.f].op = "syn" THEN Win ELSE 2
              to == Least(i + n, N)
          IN [j \in 1..(to - i) |-> T[Cs.in[i + j]]]

Verdict(v, why) == /\ ph' = v /\ PrintT(<<v, k, i, o, why>>) /\ UNCHANGED <<k, i, o, m>>

\* C11: the input pulled when a token is handed out, beyond what the token was made from.
\* Blanks do not count: looking for the next word passes over them.
Ahead(n, from) == Cardinality({x \in (from + 1)..n : ~T[Cs.in[x]].s})
MayLag == IF F[Cs.f].op = "syn" THEN 2 * F[Cs.f].dict.mw + Lag ELSE Lag

\* what is wrong with a token
Why(a, b) == IF a.c # b.c THEN "token" ELSE IF a.l # b.l THEN "lemma" ELSE "flags"

Step == /\ ph = "run" /\ i < N
        /\ LET r == Rule(F[Cs.f], m, Window, TRUE)
               e == Len(r.give)
               av == Least(e, Len(Cs.out) - o)
           IN IF \E j \in 1..av : ~TokEq(T[Cs.out[o + j]], r.give[j])
              THEN Verdict("REJ", Why(T[Cs.out[o + (CHOOSE j \in 1..av : ~TokEq(T[Cs.out[o + j]], r.give[j]))]],
                                      r.give[CHOOSE j \in 1..av : ~TokEq(T[Cs.out[o + j]], r.give[j])]))
              ELSE IF Lag >= 0 /\ \E j \in 1..av : Ahead(Cs.n[o + j], i + r.take) > MayLag THEN Verdict("REJ", "lag")
              ELSE IF av < e THEN (IF Cs.fin = "err" /\ Cs.flt THEN Verdict("OK", "") ELSE Verdict("REJ", "ended"))
              ELSE i' = i + r.take /\ o' = o + e /\ m' = r.mem /\ UNCHANGED <<k, ph>>
Finish == /\ ph = "run" /\ i = N
          /\ IF o < Len(Cs.out) THEN Verdict("REJ", "extra")
             ELSE IF Cs.fin = (IF Cs.flt THEN "err" ELSE "eof") THEN Verdict("OK", "")
             ELSE Verdict("REJ", "fin")
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
