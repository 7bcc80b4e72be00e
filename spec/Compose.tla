------------------------------ MODULE Compose ------------------------------
(***************************************************************************)
(* C20: building pipelines.  A stream is built up in steps, each of which  *)
(*   filter   applies a list of filters in one call (maybe an empty one)   *)
(*   nest     applies one filter by calling it                             *)
(*   read     reads everything there is and starts again from the result   *)
(*   take     reads some tokens; what is built afterwards gets the rest    *)
(*   skip     reads some tokens from the stream everything is built on,    *)
(*            before anything was read from what is built                  *)
(*   either   as take, but as long as there are no filters, each token is  *)
(*            read from what Filter gave or from the original stream: with *)
(*            no filters, that is the same stream                          *)
(* What counts is the sequence of filters and takings (-n: n tokens) alone *)
(* (chain): any two ways of building the same chain mean the same.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json
CONSTANTS Filters,      \* numbers of filters
          MaxOps,       \* steps
          MaxArgs,      \* filters in one call
          Long,         \* lengths of long lists of filters in one call
          MaxLen,       \* filters in all
          Pre           \* emit histories of at least so many steps

VARIABLES hist, chain
vars == <<hist, chain>>
Init == hist = <<>> /\ chain = <<>>
Step(op, fs) == /\ Len(hist) < MaxOps /\ Len(chain) + Len(fs) <= MaxLen
                /\ hist' = Append(hist, <<op, fs>>) /\ chain' = chain \o fs
Lists == UNION {[1..n -> Filters] : n \in 0..MaxArgs} \cup {[i \in 1..n |-> i + d] : n \in Long, d \in 0..1}
Some == <<-1, -2, -5>>
\* making a pipeline reads nothing: what is skipped at the source comes before all the filters
Skip(n) == /\ Len(hist) < MaxOps /\ \A i \in DOMAIN hist : hist[i][1] \in {"filter", "nest", "skip"}
           /\ hist' = Append(hist, <<"skip", <<n>>>>) /\ chain' = <<n>> \o chain
Either(n) == /\ hist # <<>> /\ \A i \in DOMAIN hist : hist[i][1] # "read" /\ \A j \in DOMAIN hist[i][2] : hist[i][2][j] < 0
             /\ Step("either", <<n>>)
Next == \/ \E i \in DOMAIN Some : Skip(Some[i]) \/ Either(Some[i])
        \/ \E i \in DOMAIN Some : Step("take", <<Some[i]>>)
        \/ \E fs \in Lists : Step("filter", fs)
        \/ \E f \in Filters : Step("nest", <<f>>)
        \/ Step("read", <<>>)
Spec == Init /\ [][Next]_vars

\* The meaning of a step is that of its filters, one by one; reading means nothing
Unit(h) == FlattenSeq([i \in DOMAIN h |-> IF h[i][1] \in {"read", "skip"} THEN <<>> ELSE h[i][2]])
Total(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Skipped(h) == FlattenSeq([i \in DOMAIN h |-> IF h[i][1] = "skip" THEN h[i][2] ELSE <<>>])
Meaning == \E k \in 0..Len(chain) : /\ SubSeq(chain, k + 1, Len(chain)) = Unit(hist)
                                    /\ Total(SubSeq(chain, 1, k)) = Total(Skipped(hist)) /\ k = Len(Skipped(hist))
Out == Len(hist) >= Pre => PrintT(ToJson([h |-> hist, c |-> chain]))
=============================================================================
