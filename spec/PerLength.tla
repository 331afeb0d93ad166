------------------------------ MODULE PerLength ------------------------------
(***************************************************************************)
(* A CIM15 AC line segment and its per-length impedance, seen through      *)
(* three views.  gen[l] is the impedance of line l (or "none"):            *)
(*    general view  = gen[l]                                               *)
(*    phase view    = gen[l] if it is a phase impedance, else none         *)
(*    sequence view = gen[l] if it is a sequence impedance, else none      *)
(* and impedance i lists the lines with gen[l] = i.                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Lines, Phase, Sequ
Imps == Phase \cup Sequ
None == "none"
Views == {"G", "S", "P"}
VARIABLES gen, op
vars == <<gen, op>>
Rng(s) == {s[k] : k \in DOMAIN s}

See(g, v) == CASE v = "G" -> g
               [] v = "S" -> IF g \in Sequ THEN g ELSE None
               [] OTHER -> IF g \in Phase THEN g ELSE None
LinesOf(f, i) == {l \in Lines : f[l] = i}

\* the functions an operation may lead to; "rejected" operations change nothing
Given(o) == {x \in {o.g, o.s, o.p} : x # None}
Count(o) == (IF o.g = None THEN 0 ELSE 1) + (IF o.s = None THEN 0 ELSE 1) + (IF o.p = None THEN 0 ELSE 1)
Rejected(o) == o.op = "newline" /\ Count(o) > 1
After(f, o) ==
  CASE o.op = "view" -> {[f EXCEPT ![o.l] = o.x]}
    [] o.op = "lines" -> {[l \in Lines |-> IF l \in Rng(o.ls) THEN o.i ELSE IF f[l] = o.i THEN None ELSE f[l]]}
    [] o.op = "add" -> {[l \in Lines |-> IF l \in Rng(o.ls) THEN o.i ELSE f[l]]}
    [] o.op = "rem" -> \* removing a line that is not there: ignored, refused or detached
         {[l \in Lines |-> IF l \in Rng(o.ls) /\ (f[l] = o.i \/ l \in D) THEN None ELSE f[l]] : D \in SUBSET Rng(o.ls)}
    [] o.op = "newline" -> IF Rejected(o) THEN {f}
                           ELSE {[f EXCEPT ![o.l] = IF Count(o) = 0 THEN None ELSE CHOOSE x \in Given(o) : TRUE]}
    [] OTHER -> {[l \in Lines |-> IF l \in Rng(o.ls) THEN o.i ELSE f[l]]}   \* newimp

Lists == UNION {[1..k -> Lines] : k \in 0..2}
Base == [op |-> "view", l |-> None, v |-> "G", x |-> None, i |-> None, ls |-> <<>>, g |-> None, s |-> None, p |-> None]
Ops == {[Base EXCEPT !.op = "view", !.l = l, !.v = v, !.x = x] : l \in Lines, v \in Views, x \in Imps \cup {None}}
       \cup {[Base EXCEPT !.op = o, !.i = i, !.ls = ls] : o \in {"lines", "add", "rem"}, i \in Imps, ls \in Lists}
       \* an unlinked line or impedance is replaced by a newly constructed one
       \cup {[Base EXCEPT !.op = "newline", !.l = l, !.g = a, !.s = b, !.p = c] :
               l \in {l \in Lines : gen[l] = None}, a \in Imps \cup {None}, b \in Sequ \cup {None}, c \in Phase \cup {None}}
       \cup {[Base EXCEPT !.op = "newimp", !.i = i, !.ls = ls] : i \in {i \in Imps : LinesOf(gen, i) = {}}, ls \in Lists}

Init == gen = [l \in Lines |-> None] /\ op = Base
Next == \E o \in Ops : \E f \in After(gen, o) : gen' = f /\ op' = o
Spec == Init /\ [][Next]_vars
View == gen
Emit == PrintT("EDGE " \o ToJson([k |-> gen, o |-> op', n |-> gen']))

TypeOK == gen \in [Lines -> Imps \cup {None}]
\* at most one of the specialised views shows anything, and then what the general one shows
ViewsAgree == \A l \in Lines : /\ ~(See(gen[l], "S") # None /\ See(gen[l], "P") # None)
                               /\ gen[l] # None => \E v \in {"S", "P"} : See(gen[l], v) = gen[l]
ListsPartition == \A i, j \in Imps : i # j => LinesOf(gen, i) \cap LinesOf(gen, j) = {}
=============================================================================
