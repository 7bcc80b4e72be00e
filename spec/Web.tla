-------------------------------- MODULE Web --------------------------------
(***************************************************************************)
(* C23: the web service.  Several requests are under way at the same time; *)
(* each goes through: connected, head sent, half of the body sent, body    *)
(* sent (or cut off), answered.  The answer to a request depends on that   *)
(* request alone.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Slots,      \* requests at the same time
          Wide        \* all requests (one slot), or the main ones

Paths == IF Wide THEN {"/text", "/html", "/text/", "/html/", "/text/x", "/html/a/b", "/text/a/b/", "/html/x.y/%20/z", "/", "/x", "/texts", "/htm", "/TEXT", "/x/text", "/text.html", "/_ah/health", "/_ah", "/favicon.ico", "/text?a=b", "/x?a=/text",
                      "/%74ext", "/ht%6dl/x", "/%54ext", "/text%20", "/_ah/health/", "/_ah/health/x", "/_ah/healthz", "/_ah/%68ealth", "/text;x", "/html/?", "/text/%3Cb%3E"}
         ELSE {"/text", "/html", "/x"}
Methods == IF Wide THEN {"POST", "GET", "PUT", "PATCH", "DELETE", "OPTIONS"} ELSE {"POST", "OPTIONS"}
Bodies == IF Wide THEN {"empty", "words", "lemmas", "markup", "nasty", "big", "huge", "toolong", "cut"} ELSE {"lemmas", "markup", "toolong", "cut"}
TextRoutes == {"/text", "/text/", "/text/x", "/text/a/b/", "/text?a=b", "/%74ext", "/text/%3Cb%3E"}
HtmlRoutes == {"/html", "/html/", "/html/a/b", "/html/x.y/%20/z", "/ht%6dl/x", "/html/?"}
HealthRoutes == {"/_ah/health", "/_ah/%68ealth"}

Requests == [method : Methods, path : Paths, body : Bodies]
Sane(q) == /\ q.method = "OPTIONS" => (q.body = "empty" \/ ~Wide) /\ q.path \notin HealthRoutes
           /\ q.method = "OPTIONS" => q.body # "cut"
           /\ q.body = "huge" => q.method = "POST" /\ q.path \in {"/text", "/html"}
           /\ q.path \notin TextRoutes \cup HtmlRoutes => q.body \in {"empty", "words", "lemmas"}

VARIABLES req, at, ans, hist
vars == <<req, at, ans, hist>>
Steps == <<"head", "half", "rest", "answer">>

\* what a request is answered with
Kind(q) == IF q.path \in HealthRoutes THEN "health"
           ELSE IF q.method = "OPTIONS" THEN "empty"
           ELSE IF q.path \in TextRoutes THEN "text"
           ELSE IF q.path \in HtmlRoutes THEN "html" ELSE "none"
Status(q) == LET k == Kind(q) IN
             IF k = "none" THEN 404
             ELSE IF k \in {"text", "html"} /\ q.body \in {"toolong", "cut"} THEN 500 ELSE 200
Answer(q) == [kind |-> Kind(q), status |-> Status(q)]

Nothing == [kind |-> "-", status |-> 0]
Init == /\ req \in [Slots -> {q \in Requests : Sane(q)}] /\ at = [s \in Slots |-> 0] /\ ans = [s \in Slots |-> Nothing] /\ hist = <<>>
Step(s) == /\ at[s] < Len(Steps)
           /\ at' = [at EXCEPT ![s] = @ + 1]
           /\ hist' = Append(hist, <<s, Steps[at[s] + 1]>>)
           /\ ans' = IF at[s] + 1 = Len(Steps) THEN [ans EXCEPT ![s] = Answer(req[s])] ELSE ans
           /\ UNCHANGED req
Next == \E s \in Slots : Step(s)
Spec == Init /\ [][Next]_vars

\* the same request gets the same answer, whatever else is going on
Independent == \A s, t \in Slots : ans[s] # Nothing /\ ans[t] # Nothing /\ req[s] = req[t] => ans[s] = ans[t]
\* nothing but the routes is served
Served == \A s \in Slots : ans[s] # Nothing => /\ ans[s].status = 404 => ans[s].kind = "none"
                                               /\ ans[s].status = 500 => req[s].body \in {"toolong", "cut"}
AllDone == \A s \in Slots : at[s] = Len(Steps)
Out == AllDone => PrintT(ToJson([req |-> req, ans |-> ans, hist |-> hist]))
=============================================================================
