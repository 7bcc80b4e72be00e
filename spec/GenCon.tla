------------------------------- MODULE GenCon -------------------------------
(***************************************************************************)
(* C28: the generator of the table of contractions.  For each listed       *)
(* contraction the table has every spelling: in lower case, capitalized,   *)
(* in upper case; with a straight and with a curly apostrophe; with the    *)
(* expansion in the same case.  And nothing else.                          *)
(*                                                                         *)
(*   Data.list     pairs <<contraction, expansion>>, lower case, straight  *)
(*   Data.tables   tables as generated: sequences of pairs                 *)
(*   Data.straight, Data.curly   the apostrophes (characters)              *)
(***************************************************************************)
EXTENDS Text
List == TLCEval(Data.list)
Curl(v) == [i \in DOMAIN v |-> IF v[i] = Data.straight THEN Data.curly ELSE v[i]]

VARIABLES k,      \* which table
          done,   \* how many of the listed contractions are entered
          want,   \* the table as it has to be so far: pairs
          ph
vars == <<k, done, want, ph>>
Init == k \in DOMAIN Data.tables /\ done = 0 /\ want = {} /\ ph = "run"

Spellings(e) == LET c == e[1]  x == e[2] IN
  UNION { { <<LowerV(v), LowerV(x)>>, <<TitleV(v), TitleV(x)>>, <<UpperV(v), UpperV(x)>> } : v \in {c, Curl(c)} }
Enter == /\ ph = "run" /\ done < Len(List)
         /\ want' = want \cup Spellings(List[done + 1]) /\ done' = done + 1 /\ UNCHANGED <<k, ph>>
Table == SeqRange(Data.tables[k])
Say(v, why) == ph' = v /\ PrintT(<<v, k, done, 0, why>>) /\ UNCHANGED <<k, done, want>>
Close == /\ ph = "run" /\ done = Len(List)
         /\ IF Table = want THEN Say("OK", "")
            ELSE IF \E p \in want : \A q \in Table : q[1] # p[1] THEN Say("REJ", "a spelling is missing")
            ELSE IF \E q \in Table : \A p \in want : q[1] # p[1] THEN Say("REJ", "a spelling too many")
            ELSE Say("REJ", "a wrong expansion")
Next == Enter \/ Close
Spec == Init /\ [][Next]_vars

\* No two contractions get in each other's way: the order of the list is irrelevant
Functional == \A p, q \in want : p[1] = q[1] => p[2] = q[2]
=============================================================================
