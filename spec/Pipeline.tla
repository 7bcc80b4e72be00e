----------------------------- MODULE Pipeline -----------------------------
(***************************************************************************)
(* A pipeline of filters as it runs: each stage is asked for its next      *)
(* token, pulls from the stage before it as much lookahead as it needs,    *)
(* and hands a token over to whoever asked.  Stage 0 is the source, which  *)
(* may end or fail; stage Len(fs)+1 is the consumer.                       *)
(*                                                                         *)
(*   pipe  the filters (indexes of F) src  what the source still has       *)
(*   flt   the source fails (rather than ends) after src                   *)
(*   st    per stage: buf (pulled, undecided), out (decided, not handed    *)
(*         over), mem, eof (the stage before has ended)                    *)
(*   ask   the stage that is to produce now                                *)
(*   got   what the consumer has received         fin  how it ended        *)
(***************************************************************************)
EXTENDS Rules
VARIABLES pipe, all, src, flt, st, ask, got, fin
vars == <<pipe, all, src, flt, st, ask, got, fin>>
fs == [d \in DOMAIN pipe |-> F[pipe[d]]]

Stage0 == [buf |-> <<>>, out |-> <<>>, mem |-> InitMem, eof |-> FALSE]
InitWith(filters, input, fails) ==
  /\ pipe = filters /\ all = input /\ src = input /\ flt = fails
  /\ st = [d \in 1..Len(filters) |-> Stage0]
  /\ ask = Len(filters) /\ got = <<>> /\ fin = "run"

K == Len(pipe)
Const == UNCHANGED <<pipe, all, flt>>

\* Hand a token from stage d to the one that asked
Deliver(d, t, s) ==
  IF d = K THEN /\ got' = Append(got, t) /\ ask' = K /\ st' = s
  ELSE /\ st' = [s EXCEPT ![d + 1].buf = Append(@, t)] /\ ask' = d + 1 /\ UNCHANGED got

\* The source produces
SrcToken == /\ fin = "run" /\ ask = 0 /\ src # <<>>
            /\ src' = Tail(src) /\ Deliver(0, Head(src), st) /\ UNCHANGED fin /\ Const
SrcEnd   == /\ fin = "run" /\ ask = 0 /\ src = <<>> /\ ~flt
            /\ IF K = 0 THEN fin' = "end" /\ UNCHANGED <<st, ask>>
               ELSE st' = [st EXCEPT ![1].eof = TRUE] /\ ask' = 1 /\ UNCHANGED fin
            /\ UNCHANGED <<src, got>> /\ Const
\* An error is passed on at once, whatever is pending
SrcFail  == /\ fin = "run" /\ ask = 0 /\ src = <<>> /\ flt
            /\ fin' = "error" /\ UNCHANGED <<src, st, ask, got>> /\ Const

\* Stage d = ask
Emit(d) == /\ fin = "run" /\ ask = d /\ st[d].out # <<>>
           /\ Deliver(d, Head(st[d].out), [st EXCEPT ![d].out = Tail(@)])
           /\ UNCHANGED <<src, fin>> /\ Const
CanApply(d) == st[d].buf # <<>> /\ (st[d].eof \/ Decided(F[pipe[d]], st[d].mem, st[d].buf))
Apply(d) == /\ fin = "run" /\ ask = d /\ st[d].out = <<>> /\ CanApply(d)
            /\ LET r == Rule(F[pipe[d]], st[d].mem, st[d].buf, st[d].eof) IN
               st' = [st EXCEPT ![d].buf = SubSeq(@, r.take + 1, Len(@)), ![d].out = r.give, ![d].mem = r.mem]
            /\ UNCHANGED <<src, ask, got, fin>> /\ Const
Pull(d) == /\ fin = "run" /\ ask = d /\ st[d].out = <<>> /\ ~CanApply(d) /\ ~st[d].eof
           /\ ask' = d - 1 /\ UNCHANGED <<src, st, got, fin>> /\ Const
End(d)  == /\ fin = "run" /\ ask = d /\ st[d].out = <<>> /\ st[d].buf = <<>> /\ st[d].eof
           /\ IF d = K THEN fin' = "end" /\ UNCHANGED <<st, ask>>
              ELSE st' = [st EXCEPT ![d + 1].eof = TRUE] /\ ask' = d + 1 /\ UNCHANGED fin
           /\ UNCHANGED <<src, got>> /\ Const

Next == \/ SrcToken \/ SrcEnd \/ SrcFail
        \/ \E d \in 1..K : Emit(d) \/ Apply(d) \/ Pull(d) \/ End(d)

---------------------------------------------------------------------------
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* C20 (and C08..C10, C14..C17 through Rules): streaming gives what whole-input rewriting gives
Correct == fin # "run" => LET want == OutputAll(fs, all) IN
                          /\ IsPrefixOf(got, want)
                          /\ fin = "end" => got = want
\* C07: a failure is never a normal end
NotMasked == /\ fin = "end" => ~flt
             /\ fin = "error" => flt
\* C11: lookahead is bounded, by the filter only
LookBound(f) == IF f.op = "syn" THEN 2 * f.dict.mw + 1 ELSE IF f.op = "sig" THEN 2 ELSE 1
Bounded == \A d \in 1..K : Cardinality({i \in DOMAIN st[d].buf : ~st[d].buf[i].s}) <= LookBound(F[pipe[d]])
\* C24: what was not in the input is a lemma
Honest == \A i \in DOMAIN got : got[i].l \/ \E j \in DOMAIN all : TokEq(all[j], got[i])
\* Exactly one of the stages is able to act until the end
Progress == fin = "run" => ENABLED Next
=============================================================================
