----------------------------- MODULE DamagedOps -----------------------------
(***************************************************************************)
(* The form of XML documents, as sequences of tokens:                      *)
(*   [k |-> "S", t]  start tag      [k |-> "E", t]  end tag                *)
(*   [k |-> "X", t]  empty element  [k |-> "T"]  text  [k |-> "W"]  blanks *)
(*   [k |-> "C"]     comment or processing instruction                     *)
(*   [k |-> "D"]     something that is no XML wherever it stands (control  *)
(*                   character, undefined entity, bare markup, ...)        *)
(***************************************************************************)
EXTENDS Naturals, Sequences
Misc(x) == x.k \in {"W", "C"}
\* the state of a parser: open tags, whether the root came, whether the form is broken
Start == [st |-> <<>>, root |-> FALSE, bad |-> FALSE]
Read(s, x) ==
  IF s.bad THEN s
  ELSE CASE x.k = "S" -> IF s.st = <<>> /\ s.root THEN [s EXCEPT !.bad = TRUE] ELSE [s EXCEPT !.st = Append(@, x.t), !.root = TRUE]
         [] x.k = "X" -> IF s.st = <<>> /\ s.root THEN [s EXCEPT !.bad = TRUE] ELSE [s EXCEPT !.root = TRUE]
         [] x.k = "E" -> IF s.st = <<>> \/ s.st[Len(s.st)] # x.t THEN [s EXCEPT !.bad = TRUE] ELSE [s EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)]
         [] x.k = "T" -> IF s.st = <<>> THEN [s EXCEPT !.bad = TRUE] ELSE s
         [] x.k = "D" -> [s EXCEPT !.bad = TRUE]
         [] OTHER -> s
Complete(s) == ~s.bad /\ s.root /\ s.st = <<>>
RECURSIVE After(_, _)
After(s, d) == IF d = <<>> THEN s ELSE After(Read(s, Head(d)), Tail(d))
WellFormed(d) == Complete(After(Start, d))
=============================================================================
