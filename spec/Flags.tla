------------------------------- MODULE Flags -------------------------------
(***************************************************************************)
(* C03.  Tokens are made from values, one after another, by NewToken.      *)
(* What a token is depends on its own value and the requested lemma flag   *)
(* alone: not on what was made before or is made later.                    *)
(*                                                                         *)
(* Values are texts over kinds of characters:                              *)
(*   "pu" punctuation  "tb" tab  "lf"  "cr"  "sp" other white space        *)
(*   "ot" anything else   "bb" a byte that is not UTF-8                    *)
(*   "ls" a white space character that is not in ASCII                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Kinds, MaxLen, MaxMade

PunctKind(k) == k \in {"pu", "tb", "lf", "cr"}
SpaceKind(k) == k \in {"tb", "lf", "cr", "sp", "ls"}
Made(v, lemma) == IF v = <<>> THEN [nil |-> TRUE, p |-> FALSE, s |-> FALSE, l |-> FALSE]
                  ELSE [nil |-> FALSE, l |-> lemma,
                        p |-> \A i \in DOMAIN v : PunctKind(v[i]),
                        s |-> \A i \in DOMAIN v : SpaceKind(v[i])]

VARIABLE made   \* what was made so far: value, lemma flag, token
vars == <<made>>
Values == UNION {[1..n -> Kinds] : n \in 0..MaxLen}
Init == made = <<>>
Next == /\ Len(made) < MaxMade
        /\ \E v \in Values, l \in BOOLEAN : made' = Append(made, [v |-> v, l |-> l, t |-> Made(v, l)])
Spec == Init /\ [][Next]_vars

\* The same value and flag always give the same token, however often and in whatever order
Functional == \A i, j \in DOMAIN made : (made[i].v = made[j].v /\ made[i].l = made[j].l) => made[i].t = made[j].t
\* Whether it is space or punctuation has nothing to do with the lemma flag
LemmaIndependent == \A i, j \in DOMAIN made : made[i].v = made[j].v => (made[i].t.p = made[j].t.p /\ made[i].t.s = made[j].t.s)
\* Concatenation: a text is space (punctuation) iff its parts are
Compositional == \A i \in DOMAIN made : LET v == made[i].v IN
   Len(v) > 1 => LET a == Made(<<Head(v)>>, FALSE)  b == Made(Tail(v), FALSE) IN
                 made[i].t.p = (a.p /\ b.p) /\ made[i].t.s = (a.s /\ b.s)
Bit(b) == IF b THEN 1 ELSE 0
Out == Len(made) = MaxMade => PrintT(ToJson([i \in DOMAIN made |-> <<made[i].v, Bit(made[i].l), Bit(made[i].t.nil), Bit(made[i].t.p), Bit(made[i].t.s)>>]))
=============================================================================
