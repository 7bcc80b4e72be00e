---------------------------- MODULE WordBreak ----------------------------
(***************************************************************************)
(* Unicode word boundaries (UAX #29), over sequences of word-break classes *)
(* of characters.  This is the declarative meaning of "tokenize": a text   *)
(* is cut exactly at its boundaries.                                       *)
(*                                                                         *)
(* Classes (strings):                                                      *)
(*   AL ALetter    HL Hebrew_Letter  NU Numeric     KA Katakana            *)
(*   ML MidLetter  MB MidNumLet      MN MidNum      SQ Single_Quote        *)
(*   DQ Double_Quote  EX ExtendNumLet  WS WSegSpace                        *)
(*   CR LF NL (other Newline)                                              *)
(*   XT Extend     FO Format         ZW ZWJ                                *)
(*   RI Regional_Indicator  EP Extended_Pictographic                       *)
(*   AP ALetter and Extended_Pictographic at once                          *)
(*   OT anything else, including every byte that is not part of valid UTF-8*)
(*   TR a character cut off by the end of the text (last position only)    *)
(***************************************************************************)
EXTENDS Integers, Sequences

WBClasses == {"AL","HL","NU","KA","ML","MB","MN","SQ","DQ","EX","WS","CR","LF","NL",
              "XT","FO","ZW","RI","EP","AP","OT"}

Ign     == {"XT","FO","ZW"}
NewLn   == {"CR","LF","NL"}
AHL     == {"AL","HL","AP"}
MidLQ   == {"ML","MB","SQ"}          \* MidLetter | MidNumLetQ
MidNQ   == {"MN","MB","SQ"}          \* MidNum | MidNumLetQ
MidAny  == MidLQ \cup MidNQ \cup {"DQ"}
Pict    == {"EP","AP"}

\* The nearest character at or before q that is not ignorable; 0 if there is none
RECURSIVE Back(_, _)
Back(t, q) == IF q < 1 THEN 0 ELSE IF t[q] \in Ign THEN Back(t, q - 1) ELSE q

\* The nearest character at or after q, among the first n, that is not ignorable; 0 if there is none
RECURSIVE Fwd(_, _, _)
Fwd(t, q, n) == IF q > n THEN 0 ELSE IF t[q] \in Ign THEN Fwd(t, q + 1, n) ELSE q

Cls(t, q) == IF q = 0 THEN "--" ELSE t[q]

\* Number of regional indicators immediately before and including q, ignoring ignorables
RECURSIVE RICount(_, _)
RICount(t, q) == LET b == Back(t, q) IN
                 IF Cls(t, b) # "RI" THEN 0 ELSE 1 + RICount(t, b - 1)

\* Whether the text t[1..n] is cut between p-1 and p  (2 <= p <= n)
IsCut(t, n, p) ==
  LET l  == t[p - 1]
      c  == t[p]
      b  == Back(t, p - 1)            \* base character on the left
      cb == Cls(t, b)
      cbb== Cls(t, IF b = 0 THEN 0 ELSE Back(t, b - 1))   \* and the one before it
      cf == Cls(t, Fwd(t, p + 1, n))  \* the one after c
  IN ~ \/ c = "TR"                                                   \* nothing can be said about a cut-off character
       \/ l = "CR" /\ c = "LF"                                       \* WB3
       \/ /\ l \notin NewLn /\ c \notin NewLn                        \* WB3a, WB3b
          /\ \/ l = "ZW" /\ c \in Pict                               \* WB3c
             \/ l = "WS" /\ c = "WS"                                 \* WB3d
             \/ c \in Ign                                            \* WB4
             \/ cb \in AHL /\ c \in AHL                              \* WB5
             \/ cb \in AHL /\ c \in MidLQ /\ cf \in AHL              \* WB6
             \/ cbb \in AHL /\ cb \in MidLQ /\ c \in AHL             \* WB7
             \/ cb = "HL" /\ c = "SQ"                                \* WB7a
             \/ cb = "HL" /\ c = "DQ" /\ cf = "HL"                   \* WB7b
             \/ cbb = "HL" /\ cb = "DQ" /\ c = "HL"                  \* WB7c
             \/ cb = "NU" /\ c = "NU"                                \* WB8
             \/ cb \in AHL /\ c = "NU"                               \* WB9
             \/ cb = "NU" /\ c \in AHL                               \* WB10
             \/ cbb = "NU" /\ cb \in MidNQ /\ c = "NU"               \* WB11
             \/ cb = "NU" /\ c \in MidNQ /\ cf = "NU"                \* WB12
             \/ cb = "KA" /\ c = "KA"                                \* WB13
             \/ cb \in (AHL \cup {"NU","KA","EX"}) /\ c = "EX"       \* WB13a
             \/ cb = "EX" /\ c \in (AHL \cup {"NU","KA"})            \* WB13b
             \/ c = "RI" /\ RICount(t, p - 1) % 2 = 1                \* WB15, WB16

\* The end of the token of t[1..n] that starts at position a
RECURSIVE EndFrom(_, _, _)
EndFrom(t, n, p) == IF p > n THEN n ELSE IF IsCut(t, n, p) THEN p - 1 ELSE EndFrom(t, n, p + 1)
TokenEnd(t, n, a) == EndFrom(t, n, a + 1)

\* Whether what IsCut says about p can no longer be changed by what follows t[1..n]
Known(t, n, p) == t[p] # "TR" /\ (t[p] \in MidAny => Fwd(t, p + 1, n) # 0)

\* Whether the token starting at a is settled by t[1..n], whatever follows
Settled(t, n, a) == a <= n /\ LET e == TokenEnd(t, n, a) IN e < n /\ Known(t, n, e + 1)

\* The lengths (in characters) of the tokens of t
RECURSIVE LensFrom(_, _)
LensFrom(t, a) == IF a > Len(t) THEN <<>>
                  ELSE LET e == TokenEnd(t, Len(t), a) IN <<e - a + 1>> \o LensFrom(t, e + 1)
TokenLens(t) == LensFrom(t, 1)
=============================================================================
