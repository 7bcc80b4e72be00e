------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* C06.  A stream hands out the tokens 1..n of its source and then ends,   *)
(* or fails (bad).  Calls:                                                 *)
(*   "next"  "scan"   retrieve one token                                   *)
(*   "slice" "string" "count"   take all that is left                      *)
(*   "write" write all that is left;  "w0" "w1" "w3": to a writer that     *)
(*           fails after that many bytes                                   *)
(* Each token value has Size bytes.  After a call, tok and err are the     *)
(* current token (0: none) and whether the current error is set; res is    *)
(* the result of the call.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxTok, MaxOps, Ops, Size, Fails, Pre

VARIABLES n, bad, pos, tok, err, given, hist
vars == <<n, bad, pos, tok, err, given, hist>>
(* pos: tokens retrieved; given: what was handed out, in order *)

Init == /\ n \in 0..MaxTok /\ bad \in Fails /\ pos = 0 /\ tok = 0 /\ err = FALSE /\ given = <<>> /\ hist = <<>>

Rest == [i \in 1..(n - pos) |-> pos + i]
Log(op, r, e, o) == hist' = Append(hist, [op |-> op, r |-> r, e |-> e, o |-> o, t |-> tok', x |-> err'])

Retrieve(op) ==
  /\ IF pos < n
     THEN pos' = pos + 1 /\ tok' = pos + 1 /\ err' = FALSE /\ given' = Append(given, pos + 1)
     ELSE UNCHANGED <<pos, given>> /\ tok' = 0 /\ err' = bad
  /\ Log(op, IF op = "scan" THEN (IF pos < n THEN 1 ELSE 0) ELSE tok', op = "next" /\ err', <<>>)

\* Everything that is left
TakeAll(op) ==
  /\ pos' = n /\ tok' = 0 /\ err' = bad /\ given' = given \o Rest
  /\ Log(op, IF op = "count" THEN n - pos ELSE IF op = "write" THEN Size * (n - pos) ELSE 0, bad, Rest)

Limit(op) == IF op = "w0" THEN 0 ELSE IF op = "w1" THEN 1 ELSE 3
\* The token whose writing fails, if the limit is reached
WriteSome(op) ==
  IF Size * (n - pos) <= Limit(op)
  THEN /\ pos' = n /\ tok' = 0 /\ err' = bad /\ given' = given \o Rest
       /\ Log(op, Size * (n - pos), bad, Rest)
  ELSE LET k == Limit(op) \div Size + 1 IN
       /\ pos' = pos + k /\ tok' = pos + k /\ err' = FALSE /\ given' = given \o SubSeq(Rest, 1, k)
       /\ Log(op, Limit(op), TRUE, SubSeq(Rest, 1, k))

Call(op) == /\ Len(hist) < MaxOps /\ UNCHANGED <<n, bad>>
            /\ CASE op \in {"next", "scan"} -> Retrieve(op)
                 [] op \in {"slice", "string", "count", "write"} -> TakeAll(op)
                 [] OTHER -> WriteSome(op)
\* (Scaled: a history with K retrievals for each retrieval, on K tokens for each token, is a history of the same kind;
\* the harness replays histories that way too, with results read accordingly.)
Next == \E op \in Ops : Call(op)
Spec == Init /\ [][Next]_vars

\* Each token exactly once, in order
Once == given = [i \in 1..pos |-> i] /\ pos <= n
\* The end (or the failure) is reported only when all was handed out, and then for good
EndOnlyAtEnd == (hist # <<>> /\ tok = 0) => pos = n
\* A failure is never taken for the end
NotMasked == (hist # <<>> /\ tok = 0) => err = bad
Bit(b) == IF b THEN 1 ELSE 0
Out == (Len(hist) >= Pre /\ (Len(hist) = MaxOps \/ Pre = 0)) => PrintT(ToJson([n |-> n, b |-> bad, h |-> [i \in DOMAIN hist |-> <<hist[i].op, hist[i].r, Bit(hist[i].e), hist[i].o, hist[i].t, Bit(hist[i].x)>>]]))
=============================================================================
