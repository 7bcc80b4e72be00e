-------------------------------- MODULE Queue --------------------------------
(***************************************************************************)
(* C19.  Token queues, as sequences.  Tokens are numbered as they come.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Queues, MaxOps, MaxDrop, Pre

VARIABLES q, born, gone, hist
vars == <<q, born, gone, hist>>
(* q: the queues; born: tokens so far; gone: tokens handed out or dropped, in order *)

Init == q = [i \in Queues |-> <<>>] /\ born = 0 /\ gone = <<>> /\ hist = <<>>
Log(op, i, k, r) == hist' = Append(hist, <<op, i, k, r>>)

\* a new queue of k tokens takes the place of an empty one
New(i, k)  == /\ q[i] = <<>> /\ q' = [q EXCEPT ![i] = [j \in 1..k |-> born + j]] /\ born' = born + k
              /\ UNCHANGED gone /\ Log("new", i, k, 0)
Push(i, k) == /\ q' = [q EXCEPT ![i] = @ \o [j \in 1..k |-> born + j]] /\ born' = born + k
              /\ UNCHANGED gone /\ Log("push", i, k, 0)
Pop(i)     == /\ q[i] # <<>> /\ q' = [q EXCEPT ![i] = Tail(@)] /\ gone' = Append(gone, Head(q[i]))
              /\ UNCHANGED born /\ Log("pop", i, 0, Head(q[i]))
Drop(i, k) == /\ k <= Len(q[i]) /\ q' = [q EXCEPT ![i] = SubSeq(@, k + 1, Len(@))] /\ gone' = gone \o SubSeq(q[i], 1, k)
              /\ UNCHANGED born /\ Log("drop", i, k, 0)
PopTo(i, j) == /\ i # j /\ q[i] # <<>> /\ q' = [q EXCEPT ![i] = Tail(@), ![j] = Append(@, Head(q[i]))]
               /\ UNCHANGED <<born, gone>> /\ Log("popto", i, j, 0)
FlushTo(i, j) == /\ i # j /\ q' = [q EXCEPT ![i] = <<>>, ![j] = @ \o q[i]]
                 /\ UNCHANGED <<born, gone>> /\ Log("flushto", i, j, 0)
Clear(i)   == /\ q' = [q EXCEPT ![i] = <<>>] /\ gone' = gone \o q[i]
              /\ UNCHANGED born /\ Log("clear", i, 0, 0)

Next == /\ Len(hist) < MaxOps
        /\ \E i \in Queues : \/ \E k \in 1..2 : Push(i, k)
                             \/ New(i, 2)
                             \/ Pop(i) \/ Clear(i)
                             \/ \E k \in 0..MaxDrop : Drop(i, k)
                             \/ \E j \in Queues : PopTo(i, j) \/ FlushTo(i, j)
Spec == Init /\ [][Next]_vars

Elems(s) == {s[k] : k \in DOMAIN s}
\* Every token is in exactly one place
Conserved == /\ UNION ({Elems(gone)} \cup {Elems(q[i]) : i \in Queues}) = 1..born
             /\ \A i, j \in Queues : i # j => Elems(q[i]) \cap Elems(q[j]) = {}
             /\ \A i \in Queues : Elems(q[i]) \cap Elems(gone) = {}
\* Without moves between them, queues are in the order of arrival
Fifo == (\A h \in DOMAIN hist : hist[h][1] \notin {"popto", "flushto"}) =>
           \A i \in Queues : \A a, b \in DOMAIN q[i] : a < b => q[i][a] < q[i][b]
\* Each token may stand for several (here two): the queues of pairs behave like queues, a step being two pops, a push of
\* twice as many, and so on.  (So a history can be replayed with K tokens for each one.)
Blow(s) == [j \in 1..(2 * Len(s)) |-> 2 * (s[(j + 1) \div 2] - 1) + 1 + ((j - 1) % 2)]
Fresh(b, k) == [j \in 1..k |-> b + j]
Scaled == [][LET h == hist'[Len(hist')]
                 i == h[2]
                 k == h[3]
                 a == Blow(q[i])
                 b == Blow(q'[i])
             IN CASE h[1] \in {"new", "push"} -> b = a \o Fresh(2 * born, 2 * k)
                  [] h[1] = "pop" -> a = <<2 * h[4] - 1, 2 * h[4]>> \o b
                  [] h[1] = "drop" -> b = SubSeq(a, 2 * k + 1, Len(a))
                  [] h[1] = "popto" -> b = Tail(Tail(a)) /\ Blow(q'[k]) = Append(Append(Blow(q[k]), a[1]), a[2])
                  [] h[1] = "flushto" -> b = <<>> /\ Blow(q'[k]) = Blow(q[k]) \o a
                  [] OTHER -> b = <<>>]_vars
\* at the end, what is in the queues; and the state after every call is emitted with the calls before
Out == (Len(hist) >= Pre) => PrintT(ToJson([h |-> hist, q |-> [i \in DOMAIN q |-> q[i]]]))
=============================================================================
