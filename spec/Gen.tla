-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Runs Pipeline on every input over a small alphabet of tokens, for every *)
(* pipeline of a scenario file, and emits each complete behaviour for      *)
(* replay against the real code.                                           *)
(*                                                                         *)
(* VIN names the scenarios:  chars (see Text), toks (tokens), filters, and *)
(* groups of [alpha (indexes of toks), max, pipes, fail, must]             *)
(***************************************************************************)
EXTENDS Pipeline

T == TLCEval(Data.toks)
G == TLCEval(Data.groups)

VARIABLES g, ix, pul
gvars == <<vars, g, ix, pul>>

GInit == \E h \in DOMAIN G :
           \E n \in 0..G[h].max :
             \E s \in [1..n -> SeqRange(G[h].alpha)] :
               \E q \in DOMAIN G[h].pipes :
                 \E e \in (IF G[h].fail THEN {TRUE, FALSE} ELSE {FALSE}) :
                   /\ g = h /\ ix = s /\ pul = <<>>
                   /\ InitWith(G[h].pipes[q], [i \in 1..n |-> T[s[i]]], e)
GNext == /\ Next
         /\ UNCHANGED <<g, ix>>
         /\ pul' = IF Len(got') > Len(got) THEN Append(pul, Len(all) - Len(src')) ELSE pul
GSpec == GInit /\ [][GNext]_gvars

\* The same in one step per input token: no stages, just the meaning
BInit == /\ g \in DOMAIN G /\ ix = <<>> /\ pul = <<>> /\ InitWith(<<>>, <<>>, FALSE)
BNext == /\ Len(ix) < G[g].max
         /\ \E a \in SeqRange(G[g].alpha) : ix' = Append(ix, a)
         /\ UNCHANGED <<vars, g, pul>>
BSpec == BInit /\ [][BNext]_gvars

\* No dictionary of the scenarios is ambiguous
Unambiguous == \A i \in DOMAIN F : F[i].op = "syn" => ~F[i].dict.amb
ASSUME Unambiguous

\* A punctuation token separates: what is before and what is after it do not influence each other.
\* (So long streams can be composed of short ones, see big in harness/stage.go.)
Separates(f, t) == t.p /\ f.op # "distinct" /\ (f.op = "sig" => t.c # f.sigil /\ ~Legal(f, t.c))
Splits == \A q \in DOMAIN G[g].pipes : Len(G[g].pipes[q]) = 1 =>
            LET f == F[G[g].pipes[q][1]]
                w == [i \in DOMAIN ix |-> T[ix[i]]]
            IN \A i \in DOMAIN w : Separates(f, w[i]) =>
                 Output(f, InitMem, w) = Output(f, InitMem, SubSeq(w, 1, i - 1)) \o Output(f, InitMem, <<w[i]>>) \o Output(f, InitMem, SubSeq(w, i + 1, Len(w)))

\* Most filters look at one token at a time, whatever is before and after it.  (So runs of a token can be as long as one
\* likes, see runs in harness/stage.go.)
Tokenwise == \A q \in DOMAIN G[g].pipes : Len(G[g].pipes[q]) = 1 =>
               LET f == F[G[g].pipes[q][1]]
                   w == [i \in DOMAIN ix |-> T[ix[i]]]
               IN f.op \notin {"syn", "sig", "distinct"} => Output(f, InitMem, w) = FlattenSeq([i \in DOMAIN w |-> Output(f, InitMem, <<w[i]>>)])

Show(x) == PrintT(ToJson(x))
Bit(b) == IF b THEN 1 ELSE 0
Code(ts) == [j \in DOMAIN ts |-> <<ts[j].c, Bit(ts[j].p), Bit(ts[j].s), Bit(ts[j].l)>>]
Out == fin # "run" => Show([g |-> g, q |-> pipe, i |-> ix, e |-> flt, n |-> pul, o |-> Code(IF flt THEN OutputAll(fs, all) ELSE got)])
BOut == \A q \in DOMAIN G[g].pipes :
          Show([g |-> g, q |-> G[g].pipes[q], i |-> ix, e |-> FALSE, n |-> <<>>,
                o |-> Code(OutputAll([d \in DOMAIN G[g].pipes[q] |-> F[G[g].pipes[q][d]]], [i \in DOMAIN ix |-> T[ix[i]]]))])
=============================================================================
