------------------------------- MODULE Text -------------------------------
(***************************************************************************)
(* Characters and token values.  A character is an index into the table C, *)
(* which gives what the Unicode database says about it; a token value is a *)
(* sequence of characters.                                                 *)
(*   C[x].cp  code point (1114112 + b for a byte b outside valid UTF-8)    *)
(*   C[x].lo, C[x].up   lower and upper case                               *)
(*   C[x].pu  general category P       C[x].sp  White_Space                *)
(*   C[x].le  letter                   C[x].nu  number                     *)
(*   C[x].fo  ASCII folding: a sequence of characters (<<x>> if none)      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.VIN)      \* what a run is about: at least the table of characters
C == TLCEval(Data.chars)

Cp(x) == C[x].cp
LowerV(v) == [i \in DOMAIN v |-> C[v[i]].lo]
UpperV(v) == [i \in DOMAIN v |-> C[v[i]].up]
TitleV(v) == [i \in DOMAIN v |-> IF i = 1 THEN C[v[i]].up ELSE v[i]]

\* C03: what makes a value punctuation, what makes it space
PunctChar(x) == C[x].pu \/ Cp(x) \in {9, 10, 13}
IsPunctV(v) == \A i \in DOMAIN v : PunctChar(v[i])
IsSpaceV(v) == \A i \in DOMAIN v : C[v[i]].sp

\* A token made from a value
Token(v, lemma) == [c |-> v, p |-> IsPunctV(v), s |-> IsSpaceV(v), l |-> lemma]
TokEq(a, b) == a.c = b.c /\ a.p = b.p /\ a.s = b.s /\ a.l = b.l
IsWord(t) == ~t.p /\ ~t.s

FlattenV(vs) == FlattenSeq(vs)

\* C18
FoldV(v) == FlattenV([i \in DOMAIN v |-> C[v[i]].fo])

SeqRange(s) == {s[i] : i \in DOMAIN s}
=============================================================================
