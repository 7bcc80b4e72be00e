------------------------------ MODULE GenTags ------------------------------
(***************************************************************************)
(* C29: the generator of the Stack Overflow vocabulary.  It asks a service *)
(* for page after page of tags, and writes a dictionary when it has them.  *)
(*                                                                         *)
(* A name is a sequence of words (joined with hyphens by the service).     *)
(* What the service answers for a page:                                    *)
(*   [k |-> "ok", items, more, wait]   tags; whether there are more pages; *)
(*                                     and how long to wait (seconds)      *)
(*   [k |-> "error"]  says that something is wrong                         *)
(*   [k |-> "junk"]   is not readable;  [k |-> "down"]  is no answer       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxPages,    \* pages in all that the service has
          Limit,       \* pages the generator asks for
          MaxItems,    \* tags on a page
          Kinds,       \* answers
          Waits,
          Early,       \* whether the service may end before MaxPages
          Pre          \* emit what took at least so many pages

T(n, s, m) == [n |-> n, s |-> s, m |-> m]
Pool == { T(<<"ruby","on","rails">>, <<<<"ror">>, <<"rails","3">>>>, FALSE),
          T(<<"c#">>, <<>>, FALSE),
          T(<<"ror">>, <<>>, FALSE),
          T(<<"rails","3">>, <<>>, FALSE),
          T(<<"discussion">>, <<<<"disc">>>>, TRUE),
          T(<<"disc">>, <<>>, FALSE),
          T(<<"for">>, <<<<"for","each","loop">>>>, FALSE),
          T(<<"menu">>, <<<<"drop","down">>, <<"this">>>>, FALSE),
          T(<<"box">>, <<<<"drop","down">>, <<"combo">>, <<"for">>>>, FALSE),
          T(<<".net","4.5">>, <<<<".net">>>>, FALSE) }
Except == {<<"drop","down">>, <<"datatable">>, <<"for">>, <<"this">>}

VARIABLES page, ph, dict, seen, log, target
vars == <<page, ph, dict, seen, log, target>>
(* page: the page to ask for; dict: pairs of a synonym and a name; seen: synonyms met;
   target: what there is before where the result goes: "none", "old" or "isdir" *)

Init == page = 1 /\ ph = "run" /\ dict = {} /\ seen = {} /\ log = <<>> /\ target \in {"none", "old", "isdir"}

Rng(s) == {s[i] : i \in DOMAIN s}
Syns(t) == Rng(t.s) \ Except
Open(items) == {t \in Rng(items) : ~t.m}
NewSeen(items) == seen \cup UNION {Syns(t) : t \in Open(items)}
\* A name that is a synonym must not come before it is known as one: that would be ambiguous
Names(items) == {t.n : t \in Rng(items)}
Known == {d[1] : d \in {d \in dict : d[1] = d[2]}}
Sane(items) == /\ \A i, j \in DOMAIN items : i # j => items[i] # items[j]
               /\ \A t \in Open(items) : Syns(t) \cap Known = {}
               /\ \A t \in Rng(items) : t.n \notin {d[2] : d \in dict}

Ok(items, more, wait) ==
  /\ Sane(items)
  /\ log' = Append(log, [k |-> "ok", items |-> items, more |-> more, wait |-> wait])
  /\ seen' = NewSeen(items)
  /\ dict' = dict \cup UNION {{<<s, t.n>> : s \in Syns(t)} : t \in Open(items)}
                  \cup {<<t.n, t.n>> : t \in {t \in Open(items) : t.n \notin Except /\ t.n \notin NewSeen(items)}}
  /\ IF ~more \/ (page = Limit /\ wait <= 10) THEN ph' = "write" /\ UNCHANGED page
     ELSE IF wait > 10 THEN ph' = "failed" /\ UNCHANGED page
     ELSE page' = page + 1 /\ UNCHANGED ph
  /\ UNCHANGED target
Bad(k) == /\ log' = Append(log, [k |-> k, items |-> <<>>, more |-> FALSE, wait |-> 0]) /\ ph' = "failed" /\ UNCHANGED <<page, dict, seen, target>>
Items == UNION {[1..n -> Pool] : n \in 0..MaxItems}
Ask == /\ ph = "run" /\ Len(log) < MaxPages
       /\ \/ "ok" \in Kinds /\ \E i \in Items, m \in BOOLEAN, w \in Waits : (m => Len(log) + 1 < MaxPages \/ page = Limit) /\ (m \/ Early \/ Len(log) + 1 = MaxPages) /\ Ok(i, m, w)
          \/ \E k \in Kinds \ {"ok"} : Bad(k)
Write == ph = "write" /\ ph' = (IF target = "isdir" THEN "failed" ELSE "done") /\ UNCHANGED <<page, dict, seen, log, target>>
Next == Ask \/ Write
Spec == Init /\ [][Next]_vars

\* Every tag that is not for moderators is there, by its name or as somebody's synonym
AllThere == ph = "done" => \A i \in DOMAIN log : \A t \in Open(log[i].items) :
               t.n \in Except \/ \E d \in dict : d[1] = t.n
\* and nothing else
Listed == UNION {Rng(log[i].items) : i \in DOMAIN log}
NothingElse == \A d \in dict : d[1] \notin Except /\ \E t \in Listed : ~t.m /\ d[2] = t.n /\ (d[1] = t.n \/ d[1] \in Rng(t.s))
\* A synonym has one meaning (.net aside, if it is listed as a tag, too)
OneMeaning == \A d, e \in dict : d[1] = e[1] => d[2] = e[2]
\* It stops where the service says so, and never asks for more than the limit
Pages == /\ \A i \in 1..(Len(log) - 1) : log[i].k = "ok" /\ log[i].more /\ log[i].wait <= 10
         /\ Len(log) <= Limit
         /\ ph \in {"write", "done"} => log[Len(log)].k = "ok" /\ (~log[Len(log)].more \/ Len(log) = Limit)
\* Failures are failures
Failures == ph = "done" => \A i \in DOMAIN log : log[i].k = "ok"
Out == (ph \in {"done", "failed"} /\ Len(log) >= Pre) => PrintT(ToJson([t |-> target, a |-> log, d |-> dict, f |-> ph]))
=============================================================================
