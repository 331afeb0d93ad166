------------------------------- MODULE XmlCalls -------------------------------
(***************************************************************************)
(* The tree that a sequence of writer calls tells, independently of how a  *)
(* writer works: events S (start), T (text), E (end) and "?" (a line end   *)
(* may have been added by a comment), and the calls that must be refused.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences
RECURSIVE Ends(_, _)
Ends(st, n) == IF Len(st) <= n THEN <<>> ELSE <<[k |-> "E", t |-> st[Len(st)]]>> \o Ends(SubSeq(st, 1, Len(st) - 1), n)
Step(acc, c, j) ==
  LET st == acc.st IN
  CASE c.op = "start"   -> [acc EXCEPT !.ev = @ \o <<[k |-> "S", t |-> c.t, a |-> c.a]>>, !.st = Append(@, c.t)]
    [] c.op = "data"    -> [acc EXCEPT !.ev = @ \o <<[k |-> "T"]>>]
    [] c.op = "comment" -> [acc EXCEPT !.ev = @ \o <<[k |-> "?"]>>]
    [] c.op = "element" -> [acc EXCEPT !.ev = @ \o <<[k |-> "S", t |-> c.t, a |-> c.a]>> \o (IF c.n = 1 THEN <<[k |-> "T"]>> ELSE <<>>) \o <<[k |-> "E", t |-> c.t]>>]
    [] c.op = "close"   -> [acc EXCEPT !.ev = @ \o Ends(st, c.n), !.st = SubSeq(@, 1, c.n)]
    [] c.op = "end"     -> IF (IF st = <<>> THEN TRUE ELSE c.t # "" /\ c.t # st[Len(st)]) THEN [acc EXCEPT !.refused = @ \cup {j}]
                           ELSE [acc EXCEPT !.ev = @ \o <<[k |-> "E", t |-> st[Len(st)]]>>, !.st = SubSeq(@, 1, Len(@) - 1)]
    [] OTHER -> acc
RECURSIVE Fold(_, _, _)
Fold(acc, s, j) == IF j > Len(s) THEN acc ELSE Fold(Step(acc, s[j], j), s, j + 1)
Tree(calls) == Fold([ev |-> <<>>, st |-> <<>>, refused |-> {}], calls, 1)
=============================================================================
