------------------------------- MODULE Select -------------------------------
(***************************************************************************)
(* C08: selections made on a stream, or on one another, and read in any    *)
(* order.  Consumer 0 is the stream itself; each other consumer is a       *)
(* selection (Where, Words, Lemmas, Distinct) on an earlier one, made at   *)
(* any time.  Reading a consumer reads the one it is made on, up to the    *)
(* first token that qualifies; each keeps what it has seen for itself.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MinTok, MaxTok, MaxSel, MaxOps, Classes, Kinds

\* Classes of tokens: value, and what it is
Val == <<"a", "b", "a", "p", "s", "p">>
Lemma == <<FALSE, FALSE, TRUE, FALSE, FALSE, TRUE>>
Word == <<TRUE, TRUE, TRUE, FALSE, FALSE, FALSE>>

VARIABLES src,   \* the tokens (classes)
          st,    \* pos: tokens read from the source; sel: the selections [kind, on, seen]
          got,   \* by consumer, the positions handed out by it to the caller
          hist
vars == <<src, st, got, hist>>

Init == /\ src = <<>>
        /\ st = [pos |-> 0, sel |-> <<>>] /\ got = [c \in 0..MaxSel |-> <<>>] /\ hist = <<>>

Good(s, c) == CASE s.kind = "where" -> Val[c] = "a"
                [] s.kind = "words" -> Word[c]
                [] s.kind = "lemmas" -> Lemma[c]
                [] s.kind = "distinct" -> Val[c] \notin s.seen

\* Reading consumer c: the position of the token (0: none), and the state after it
RECURSIVE Take(_, _)
Take(x, c) ==
  IF c = 0 THEN IF x.pos < Len(src) THEN [r |-> x.pos + 1, x |-> [x EXCEPT !.pos = @ + 1]] ELSE [r |-> 0, x |-> x]
  ELSE LET s == x.sel[c]
           t == Take(x, s.on)
       IN IF t.r = 0 THEN t
          ELSE IF Good(s, src[t.r]) THEN [r |-> t.r, x |-> [t.x EXCEPT !.sel[c].seen = @ \union {Val[src[t.r]]}]]
          ELSE Take(t.x, c)

Make(k, on) == /\ Len(st.sel) < MaxSel /\ on <= Len(st.sel)
               /\ st' = [st EXCEPT !.sel = Append(@, [kind |-> k, on |-> on, seen |-> {}])]
               /\ hist' = Append(hist, <<"make", k, on>>) /\ UNCHANGED <<src, got>>
Read(c) == /\ c <= Len(st.sel)
           /\ LET t == Take(st, c) IN
              /\ st' = t.x /\ hist' = Append(hist, <<"read", c, t.r>>)
              /\ got' = IF t.r = 0 THEN got ELSE [got EXCEPT ![c] = Append(@, t.r)]
           /\ UNCHANGED src
\* First the source is chosen
Choose == /\ hist = <<>> /\ Len(src) < MaxTok /\ \E c \in Classes : src' = Append(src, c)
          /\ UNCHANGED <<st, got, hist>>
Next == \/ Choose
        \/ /\ Len(hist) < MaxOps /\ Len(src) >= MinTok
           /\ \/ \E k \in Kinds, on \in 0..MaxSel : Make(k, on)
              \/ \E c \in 0..MaxSel : Read(c)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
All == UNION {{<<c, i>> : i \in DOMAIN got[c]} : c \in DOMAIN got}
\* No token is handed out twice, each consumer keeps the order
Once == \A p, q \in All : p # q => got[p[1]][p[2]] # got[q[1]][q[2]]
Ordered == \A c \in DOMAIN got : \A i \in DOMAIN got[c] : i > 1 => got[c][i - 1] < got[c][i]
\* Only what qualifies
Right == \A c \in 1..Len(st.sel) : \A i \in DOMAIN got[c] : LET x == src[got[c][i]] IN
  CASE st.sel[c].kind = "words" -> Word[x] [] st.sel[c].kind = "lemmas" -> Lemma[x] [] st.sel[c].kind = "where" -> Val[x] = "a"
    [] OTHER -> \A j \in 1..(i - 1) : Val[src[got[c][j]]] # Val[x]
\* A selection that is the only consumer (of a stream not read otherwise) gets all that qualifies
Alone == (Len(st.sel) = 1 /\ got[0] = <<>> /\ st.pos = Len(src) /\ st.sel[1].kind # "distinct") =>
  {got[1][i] : i \in DOMAIN got[1]} = {p \in DOMAIN src : Good(st.sel[1], src[p])}
\* Complete histories: at least one selection was made and read
Out == (Len(hist) = MaxOps /\ hist[MaxOps][1] = "read" /\ \E i \in DOMAIN hist : hist[i][1] = "read" /\ hist[i][2] > 0) => PrintT(ToJson([s |-> src, h |-> hist]))
=============================================================================
