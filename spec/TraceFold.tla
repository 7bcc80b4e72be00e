----------------------------- MODULE TraceFold -----------------------------
(***************************************************************************)
(* C18, on what ascii.FoldString and the Fold filter were seen to do.      *)
(*   table   the Lucene table: pairs <<code point, code points>>           *)
(*   moved   every single character that was seen changed, or reported as  *)
(*           changed: <<code point, result, 1 if reported>>                *)
(*   cases   strings: [in, out, ch]; code points          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.VIN)
ASSUME TLCSet(7, [c \in {Data.table[i][1] : i \in DOMAIN Data.table} |->
                   (Data.table[CHOOSE i \in DOMAIN Data.table : Data.table[i][1] = c])[2]])
Table == TLCGet(7)
Moved == TLCEval(Data.moved)
Cases == TLCEval(Data.cases)
Seen == TLCEval({Moved[i][1] : i \in DOMAIN Moved})

FoldChar(c) == IF c \in DOMAIN Table THEN Table[c] ELSE <<c>>
Fold(v) == FlattenSeq([i \in DOMAIN v |-> FoldChar(v[i])])
Changed(v) == \E i \in DOMAIN v : v[i] \in DOMAIN Table

VARIABLES k, ph
vars == <<k, ph>>
\* numbered: the strings, then the characters seen to move, then the characters that were not
NC == Len(Cases)
NM == Len(Moved)
Init == k \in 1..(NC + NM + 1) /\ ph = "run"
Say(v, a, why) == ph' = v /\ PrintT(<<v, k, a, 0, why>>) /\ UNCHANGED k
Next == /\ ph = "run"
        /\ IF k > NC + NM THEN LET miss == DOMAIN Table \ Seen IN
                  IF miss = {} THEN Say("OK", 0, "") ELSE Say("REJ", CHOOSE c \in miss : TRUE, "not folded")
           ELSE IF k > NC THEN LET m == Moved[k - NC] IN
                  IF m[1] \notin DOMAIN Table THEN Say("REJ", m[1], "folded")
                  ELSE IF m[2] # Table[m[1]] THEN Say("REJ", m[1], "folded wrongly")
                  ELSE IF m[3] # 1 THEN Say("REJ", m[1], "not reported")
                  ELSE Say("OK", 0, "")
           ELSE LET q == Cases[k] IN
                  IF q.out # Fold(q.in) THEN Say("REJ", 0, "string")
                  ELSE IF q.ch # Changed(q.in) THEN Say("REJ", 0, "report")
                  ELSE Say("OK", 0, "")
Spec == Init /\ [][Next]_vars
=============================================================================
