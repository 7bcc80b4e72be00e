------------------------------ MODULE GenNames ------------------------------
(***************************************************************************)
(* C30: the generator of the vocabulary of NBA players.  It reads a page   *)
(* of rosters, row by row, and writes a dictionary when it has read all.   *)
(*                                                                         *)
(* The page: rows in tables.  A row is                                     *)
(*   "player"  a name as "last, first" in the third column, linked         *)
(*   "other"   anything else: links elsewhere, other tables, no link       *)
(*   "mangled" a linked name in the third column without exactly one comma *)
(* answer: "ok", "status" (not 200) or "down".                             *)
(* A player is a number; odd ones have letters that fold to ASCII; 3 looks *)
(* like 1 in ASCII, and 4 is spelled like that.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxRows, Players

VARIABLES rows, answer, target, at, ph, dict
vars == <<rows, answer, target, at, ph, dict>>
(* dict: pairs of a spelling and a player; a spelling is <<player, "as is">> or <<player, "ascii">> *)

Row(k, p) == [k |-> k, p |-> p]
AllRows == {Row("player", p) : p \in Players} \cup {Row("other", p) : p \in Players \cap {1, 2}} \cup {Row("mangled", 0)}
Init == /\ \E n \in 0..MaxRows : rows \in [1..n -> AllRows]
        /\ answer \in {"ok", "status", "down"} /\ target \in {"none", "old", "isdir"}
        /\ at = 0 /\ ph = "ask" /\ dict = {}
Ask == /\ ph = "ask" /\ ph' = (IF answer = "ok" THEN "read" ELSE "failed") /\ UNCHANGED <<rows, answer, target, at, dict>>
Folds(p) == p % 2 = 1
Fold(p) == <<IF p = 3 THEN 1 ELSE p, "ascii">>
AsIs(p) == IF p = 4 THEN Fold(1) ELSE <<p, "as is">>
Read == /\ ph = "read" /\ at < Len(rows) /\ at' = at + 1
        /\ LET w == rows[at + 1] IN
           /\ ph' = IF w.k = "mangled" THEN "failed" ELSE ph
           /\ dict' = IF w.k # "player" THEN dict
                      ELSE dict \cup {<<AsIs(w.p), w.p>>} \cup (IF Folds(w.p) THEN {<<Fold(w.p), w.p>>} ELSE {})
        /\ UNCHANGED <<rows, answer, target>>
Write == /\ ph = "read" /\ at = Len(rows) /\ ph' = (IF target = "isdir" THEN "failed" ELSE "done") /\ UNCHANGED <<rows, answer, target, at, dict>>
Next == Ask \/ Read \/ Write
Spec == Init /\ [][Next]_vars

\* Everyone who is listed, and nobody else
Everyone == ph = "done" => {d[2] : d \in dict} = {rows[i].p : i \in {i \in DOMAIN rows : rows[i].k = "player"}}
Ascii == \A d \in dict : Folds(d[2]) => {AsIs(d[2]), Fold(d[2])} \subseteq {e[1] : e \in dict}
Failures == ph = "done" => answer = "ok" /\ target # "isdir" /\ \A i \in DOMAIN rows : rows[i].k # "mangled"
Out == ph \in {"done", "failed"} => PrintT(ToJson([r |-> rows, a |-> answer, t |-> target, d |-> dict, f |-> ph]))
=============================================================================
