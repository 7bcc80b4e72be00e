-------------------------------- MODULE Html --------------------------------
(***************************************************************************)
(* C04, C05.  An HTML document is read lexeme by lexeme.  Kinds:           *)
(*   text:    "w" word  "s" blank  "e" entity  "lt" a < that opens nothing *)
(*            "p" punctuation   "n" line break                             *)
(*   markup:  "o" start tag  "c" end tag  "v" void or self-closing tag     *)
(*            "m" comment  "d" doctype  "q" processing instruction or the  *)
(*            like  "z" a bogus end tag                                    *)
(*   elements with content of their own:                                   *)
(*            "sc" <script>  "xs" </script>   "st" <style>  "xt" </style>  *)
(*            "ti" <title>   "xi" </title>    "ta" <textarea> "xa" </...>  *)
(*   "cut"    a tag that is cut off: the document ends there               *)
(*   "cum"    a comment that is cut off                                    *)
(* mode says which of them is open: then only its end tag is markup.       *)
(* A piece is what the tokens are made from: markup (one token), raw       *)
(* content (one token) or text (cut like plain text).                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Lexemes, MaxLen, Pre

Plain == {"w", "s", "e", "lt", "p", "n"}
Opens == [sc |-> "xs", st |-> "xt", ti |-> "xi", ta |-> "xa"]
Cuts == {"cut", "cum"}

VARIABLES doc, mode, pieces, cur
vars == <<doc, mode, pieces, cur>>
\* mode: "data", or the kind of the start tag that is open

Init == doc = <<>> /\ mode = "data" /\ pieces = <<>> /\ cur = <<>>

CurKind(m) == IF m \in {"sc", "st"} THEN "raw" ELSE "text"
Close(m) == IF cur = <<>> THEN pieces ELSE Append(pieces, [k |-> CurKind(m), i |-> cur])

Ended == doc # <<>> /\ doc[Len(doc)] \in Cuts
Read(x) ==
  /\ Len(doc) < MaxLen /\ ~Ended
  /\ doc' = Append(doc, x)
  /\ LET n == Len(doc) + 1 IN
     IF mode = "data" /\ x \notin Plain
     THEN \* markup: one piece of its own
          /\ pieces' = Append(Close(mode), [k |-> "mark", i |-> <<n>>]) /\ cur' = <<>>
          /\ mode' = IF x \in DOMAIN Opens THEN x ELSE "data"
     ELSE IF mode # "data" /\ x = Opens[mode]
     THEN \* the end of the element that is open
          /\ pieces' = Append(Close(mode), [k |-> "mark", i |-> <<n>>]) /\ cur' = <<>>
          /\ mode' = "data"
     ELSE cur' = Append(cur, n) /\ UNCHANGED <<pieces, mode>>

Next == \E x \in Lexemes : Read(x)
Spec == Init /\ [][Next]_vars

All == Close(mode)
RECURSIVE Flat(_)
Flat(ps) == IF ps = <<>> THEN <<>> ELSE Head(ps).i \o Flat(Tail(ps))
\* C04: the pieces are the document
Verbatim == Flat(All) = [i \in DOMAIN doc |-> i]
\* Nothing is merged into markup, and text is never split between pieces
Whole == /\ \A j \in DOMAIN All : All[j].k = "mark" => Len(All[j].i) = 1 /\ doc[All[j].i[1]] \notin Plain
         /\ \A j \in 1..(Len(All) - 1) : All[j].k = "mark" \/ All[j + 1].k = "mark"
\* C05: text resumes after an element; content of script and style is one piece
Resumes == \A j \in DOMAIN All : All[j].k = "raw" =>
             /\ j > 1 /\ doc[All[j - 1].i[1]] \in {"sc", "st"}
             /\ (j < Len(All) => doc[All[j + 1].i[1]] = Opens[doc[All[j - 1].i[1]]])
Out == (Len(doc) >= Pre \/ Ended) => PrintT(ToJson([d |-> doc, p |-> [j \in DOMAIN All |-> <<All[j].k, Len(All[j].i)>>]]))
=============================================================================
