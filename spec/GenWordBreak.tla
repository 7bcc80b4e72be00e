--------------------------- MODULE GenWordBreak ---------------------------
(* Enumerates every text of at most MaxLen characters over Alphabet (and   *)
(* the same with a cut-off character at the end) and emits its tokens, to  *)
(* be replayed against the real tokenizer.                                 *)
EXTENDS WordBreak, TLC, Json
CONSTANTS Alphabet, MaxLen, WithTrunc
VARIABLE t
Init == t = <<>>
Next == /\ Len(t) < MaxLen
        /\ (t # <<>> => t[Len(t)] # "TR")
        /\ \E c \in Alphabet \cup (IF WithTrunc THEN {"TR"} ELSE {}) : t' = Append(t, c)
Spec == Init /\ [][Next]_t
Emit == PrintT(ToJson([t |-> t, k |-> TokenLens(t)]))

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
\* Tokens are never empty and cover the text
Covers == LET k == TokenLens(t) IN Sum(k) = Len(t) /\ \A x \in DOMAIN k : k[x] > 0
\* A line feed separates: texts can be composed (harness/scale.go)
Separable == \A i \in DOMAIN t :
  (t[i] = "LF" /\ (i = 1 \/ t[i-1] # "CR") /\ (i = Len(t) \/ t[i+1] # "TR")) =>
     TokenLens(t) = TokenLens(SubSeq(t, 1, i - 1)) \o <<1>> \o TokenLens(SubSeq(t, i + 1, Len(t)))
\* Where a character is, there can be two of them: tokens can be of any length (harness/text.go)
Stretchy == {"AL", "HL", "NU", "KA", "EX", "WS", "XT", "FO"}
TokenOf(k, i) == CHOOSE x \in DOMAIN k : Sum(SubSeq(k, 1, x - 1)) < i /\ i <= Sum(SubSeq(k, 1, x))
Stretch == \A i \in DOMAIN t : t[i] \in Stretchy =>
  LET k == TokenLens(t)  x == TokenOf(k, i) IN
  TokenLens(SubSeq(t, 1, i) \o SubSeq(t, i, Len(t))) = [k EXCEPT ![x] = @ + 1]
=============================================================================
