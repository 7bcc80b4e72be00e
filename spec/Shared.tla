------------------------------- MODULE Shared -------------------------------
(***************************************************************************)
(* C12, C13.  One filter is applied to several streams.  Its dictionary is *)
(* loaded by the first to need it, and loading may fail.  Streams run in   *)
(* processes of their own, whose steps interleave:                         *)
(*   make   the filter is applied to the stream                            *)
(*   enter / load / leave   loading, which only one process does           *)
(*   next   a token (or the end, or the load error) is handed out          *)
(* Stream s alone would yield 1, 2, ... and from ends[s] on the failure of *)
(* its own source (-1), which is nobody else's.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Streams, Pulls, Fail, Fine
(* Fine: loading takes several steps; otherwise it is atomic, and hist is emitted *)

VARIABLES dict, pc, got, err, hist, ends
vars == <<dict, pc, got, err, hist, ends>>
(* dict: "none" "busy" "part" "ready" "bad";  pc[s]: "new" "made" "in" "run" "done" *)

Init == /\ dict = "none" /\ pc = [s \in Streams |-> "new"] /\ got = [s \in Streams |-> <<>>]
        /\ err = [s \in Streams |-> FALSE] /\ hist = <<>>
        /\ ends \in (IF Fine THEN [Streams -> {1, Pulls}] ELSE {[s \in Streams |-> Pulls]})
Log(e, s) == hist' = IF Fine THEN <<>> ELSE Append(hist, <<e, s>>)

Make(s) == pc[s] = "new" /\ pc' = [pc EXCEPT ![s] = "made"] /\ UNCHANGED <<dict, got, err, ends>> /\ Log("make", s)

\* fine-grained loading: whoever comes first loads, the others wait
Enter(s) == Fine /\ pc[s] = "made" /\ dict = "none" /\ dict' = "busy" /\ pc' = [pc EXCEPT ![s] = "in"] /\ UNCHANGED <<got, err, hist, ends>>
Load(s)  == Fine /\ pc[s] = "in" /\ dict = "busy" /\ dict' = "part" /\ UNCHANGED <<pc, got, err, hist, ends>>
Leave(s) == Fine /\ pc[s] = "in" /\ dict = "part" /\ dict' = (IF Fail THEN "bad" ELSE "ready") /\ pc' = [pc EXCEPT ![s] = "run"] /\ UNCHANGED <<got, err, hist, ends>>
Pass(s)  == Fine /\ pc[s] = "made" /\ dict \in {"ready", "bad"} /\ pc' = [pc EXCEPT ![s] = "run"] /\ UNCHANGED <<dict, got, err, hist, ends>>

CanPull(s) == IF Fine THEN pc[s] = "run" ELSE pc[s] \in {"made", "run"}
Pull(s) == /\ CanPull(s) /\ Len(got[s]) < Pulls
           /\ dict' = IF Fine THEN dict ELSE (IF Fail THEN "bad" ELSE "ready")
           /\ pc' = [pc EXCEPT ![s] = "run"]
           /\ err' = [err EXCEPT ![s] = (dict' = "bad" \/ Len(got[s]) >= ends[s])]
           /\ got' = [got EXCEPT ![s] = Append(@, IF dict' # "ready" THEN 0 ELSE IF Len(@) < ends[s] THEN Len(@) + 1 ELSE -1)]
           /\ Log("next", s) /\ UNCHANGED ends
Next == \E s \in Streams : Make(s) \/ Enter(s) \/ Load(s) \/ Leave(s) \/ Pass(s) \/ Pull(s)
Spec == Init /\ [][Next]_vars /\ \A s \in Streams : WF_vars(Make(s) \/ Enter(s) \/ Load(s) \/ Leave(s) \/ Pass(s) \/ Pull(s))

\* C12: a stream yields what it would yield alone
Alone == ~Fail => \A s \in Streams : /\ got[s] = [i \in DOMAIN got[s] |-> IF i <= ends[s] THEN i ELSE -1]
                                      /\ err[s] <=> Len(got[s]) > ends[s]
\* C13: nothing but the error
Fails == Fail => \A s \in Streams : \A i \in DOMAIN got[s] : got[s][i] = 0 /\ err[s]
\* A dictionary that is being loaded is used by nobody
NoPartialUse == dict \in {"busy", "part"} => \A s \in Streams : pc[s] # "run"
OneLoader == \A s, t \in Streams : (pc[s] = "in" /\ pc[t] = "in") => s = t
\* Every stream gets through
GetsThrough == \A s \in Streams : <>(Len(got[s]) = Pulls)
Full == \A s \in Streams : Len(got[s]) = Pulls
Out == (~Fine /\ Full) => PrintT(ToJson(hist))
=============================================================================
