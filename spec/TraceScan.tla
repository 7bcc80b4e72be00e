----------------------------- MODULE TraceScan -----------------------------
(* Recorded runs of the real tokenizer against Scanner: reads, ends, tokens. *)
EXTENDS WordBreak, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.VIN)
Names == TLCEval(Data.names)
Cases == TLCEval([k \in DOMAIN Data.cases |->
           [t |-> [i \in DOMAIN Data.cases[k].cls |-> Names[Data.cases[k].cls[i]]],
            ev |-> Data.cases[k].ev, fin |-> Data.cases[k].fin, flt |-> Data.cases[k].flt]])
Slack == Data.slack    \* how far beyond a settled token a read may go; -1: don't care

VARIABLES k, e, rd, ended, pos, ph
vars == <<k, e, rd, ended, pos, ph>>
Cs == Cases[k]
Init == k \in DOMAIN Cases /\ e = 0 /\ rd = 0 /\ ended = FALSE /\ pos = 0 /\ ph = "run"
Verdict(v, why) == ph' = v /\ PrintT(<<v, k, pos, e, why>>) /\ UNCHANGED <<k, e, rd, ended, pos>>
Event == Cs.ev[e + 1]
\* The token to come, and the one after it, are settled by what was read long before
Idle == /\ Slack >= 0 /\ Settled(Cs.t, rd, pos + 1)
        /\ LET n == TokenEnd(Cs.t, rd, pos + 1) IN
           n + Slack < rd /\ Settled(Cs.t, rd - Slack, n + 1)
Attached == 1000000   \* the end was reported together with the last data
DoRead == /\ ph = "run" /\ e < Len(Cs.ev) /\ Event > 0 /\ Event # Attached
          /\ IF Idle THEN Verdict("REJ", "lag")
             ELSE rd' = rd + Event /\ e' = e + 1 /\ UNCHANGED <<k, ended, pos, ph>>
DoEnd  == /\ ph = "run" /\ e < Len(Cs.ev) /\ Event \in {0, Attached}
          /\ IF Event = 0 /\ Idle THEN Verdict("REJ", "lag")
             ELSE ended' = TRUE /\ rd' = Len(Cs.t) /\ e' = e + 1 /\ UNCHANGED <<k, pos, ph>>
DoTok  == /\ ph = "run" /\ e < Len(Cs.ev) /\ Event < 0
          /\ IF pos - Event > rd \/ pos - Event > Len(Cs.t) THEN Verdict("REJ", "text")
             ELSE IF pos - Event # TokenEnd(Cs.t, Len(Cs.t), pos + 1) THEN Verdict("REJ", "cut")
             ELSE pos' = pos - Event /\ e' = e + 1 /\ UNCHANGED <<k, rd, ended, ph>>
Finish == /\ ph = "run" /\ e = Len(Cs.ev)
          /\ IF Cs.fin # (IF Cs.flt THEN "err" ELSE "eof") THEN Verdict("REJ", "fin")
             ELSE IF ~Cs.flt /\ pos # Len(Cs.t) THEN Verdict("REJ", "text")
             ELSE Verdict("OK", "")
Next == DoRead \/ DoEnd \/ DoTok \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
