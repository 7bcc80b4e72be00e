------------------------------ MODULE Scanner ------------------------------
(***************************************************************************)
(* The tokenizer as it reads: it asks the reader for data only while the   *)
(* next token is not settled by what it has, cuts the token otherwise, and *)
(* passes on how the reader ended.  The reader delivers the text in any    *)
(* pieces, and may fail at any point.                                      *)
(***************************************************************************)
EXTENDS WordBreak
VARIABLES text,    \* classes of the characters the reader has (last: possibly TR)
          flt,     \* the reader fails after them
          rd,      \* characters delivered
          ended,   \* the reader has reported its end or failure
          pos,     \* characters handed out in tokens
          out,     \* lengths of the tokens handed out
          fin      \* "run", "eof", "err"
svars == <<text, flt, rd, ended, pos, out, fin>>

ScanInit(t, f) == text = t /\ flt = f /\ rd = 0 /\ ended = FALSE /\ pos = 0 /\ out = <<>> /\ fin = "run"

Read(n) == /\ fin = "run" /\ ~ended /\ n >= 1 /\ rd + n <= Len(text)
           /\ ~Settled(text, rd, pos + 1)
           /\ rd' = rd + n /\ UNCHANGED <<text, flt, ended, pos, out, fin>>
ReadEnd == /\ fin = "run" /\ ~ended /\ rd = Len(text)
           /\ ~Settled(text, rd, pos + 1)
           /\ ended' = TRUE /\ UNCHANGED <<text, flt, rd, pos, out, fin>>
Cut     == /\ fin = "run" /\ pos < rd
           /\ Settled(text, rd, pos + 1) \/ ended
           /\ LET n == TokenEnd(text, rd, pos + 1) - pos IN
              pos' = pos + n /\ out' = Append(out, n)
           /\ UNCHANGED <<text, flt, rd, ended, fin>>
Stop    == /\ fin = "run" /\ ended /\ pos = rd
           /\ fin' = (IF flt THEN "err" ELSE "eof")
           /\ UNCHANGED <<text, flt, rd, ended, pos, out>>
ScanNext == (\E n \in 1..Len(text) : Read(n)) \/ ReadEnd \/ Cut \/ Stop

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Pfx(a, b) == Len(a) <= Len(b) /\ \A i \in DOMAIN a : a[i] = b[i]

\* C01: nothing is lost, added, or empty
RoundTrip == /\ Sum(out) = pos /\ \A i \in DOMAIN out : out[i] > 0
             /\ fin # "run" => pos = Len(text)
\* C02: the cuts are those of the text, whatever the pieces
Boundaries == Pfx(out, TokenLens(text))
\* C07
Faithful == fin # "run" => (fin = "err") = flt
\* C11: a token that is settled is not held back for more data (by construction of Read); it gets out
Live == fin # "run" \/ ENABLED ScanNext
=============================================================================
