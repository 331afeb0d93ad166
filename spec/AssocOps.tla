------------------------------ MODULE AssocOps ------------------------------
(***************************************************************************)
(* The semantics of one CIM association, as pure operators.                *)
(*                                                                         *)
(* An association has a left and a right end.  The abstract state is the   *)
(* set of links K, a set of pairs <<x, y>> with x a left object and y a    *)
(* right one.  lm (rm) says whether a left (right) object may have several *)
(* partners.  One-way associations have a left end only (uni).             *)
(*                                                                         *)
(* The observable state of the implementation is the pair of functions     *)
(*    l : left object -> sequence of partners it reports                   *)
(*    r : right object -> sequence of partners it reports                  *)
(* where a single-valued end is a sequence of at most one element.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Rng(s) == {s[i] : i \in DOMAIN s}

NoDup(s) == Cardinality(Rng(s)) = Len(s)
\* c is what can be read off t from left to right
RECURSIVE Subseq(_, _)
Subseq(c, t) == \/ c = <<>>
                \/ /\ t # <<>>
                   /\ IF c[1] = t[1] THEN Subseq(Tail(c), Tail(t)) ELSE Subseq(c, Tail(t))
\* the objects of ys, each once and in the order given; a repeated object
\* may stand at any of its places
InOrder(c, ys) == NoDup(c) /\ Rng(c) = Rng(ys) /\ Subseq(c, ys)
Without(s, S) == LET T(e) == e \notin S IN SelectSeq(s, T)

Flip(K) == {<<p[2], p[1]>> : p \in K}

(* --- abstract operations on the left end; right ones by flipping --------- *)
\* take the ys from whoever holds them, when a y may have one partner only
Release(K, rm, ys) == IF rm THEN K ELSE {p \in K : p[2] \notin Rng(ys)}
Join(K, x, ys) == K \cup {<<x, y>> : y \in Rng(ys)}
AssignK(K, rm, x, ys) == Join(Release({p \in K : p[1] # x}, rm, ys), x, ys)
AddK(K, rm, x, ys) == Join(Release(K, rm, ys), x, ys)
RemoveK(K, x, ys) == K \ {<<x, y>> : y \in Rng(ys)}

\* the set of link sets an operation may lead to.  Removing a partner that is
\* not linked may be refused, ignored, or detach that partner from its owner.
StepL(K, rm, op, x, ys) ==
  CASE op \in {"set", "new"} -> {AssignK(K, rm, x, ys)}
    [] op = "add" -> {AddK(K, rm, x, ys)}
    [] op = "rem" ->
         IF \A y \in Rng(ys) : <<x, y>> \in K THEN {RemoveK(K, x, ys)}
         ELSE {K \ S : S \in SUBSET {p \in K : p[2] \in Rng(ys)}}

StepK(K, lm, rm, side, op, x, ys) ==
  IF side = "l" THEN StepL(K, rm, op, x, ys)
  ELSE {Flip(J) : J \in StepL(Flip(K), lm, op, x, ys)}

(* --- projections --------------------------------------------------------- *)
LinksL(l) == UNION {{<<x, y>> : y \in Rng(l[x])} : x \in DOMAIN l}
LinksR(r) == UNION {{<<x, y>> : x \in Rng(r[y])} : y \in DOMAIN r}

(* --- the invariants of an association ------------------------------------ *)
Symmetric(uni, l, r) == uni \/ LinksL(l) = LinksR(r)
OneOwner(m, l, r) ==   \* seen from the side whose objects have at most one partner
  m \/ (/\ \A x \in DOMAIN l : Len(l[x]) <= 1
        /\ \A y \in DOMAIN r : \A i, j \in DOMAIN r[y] : r[y][i] = r[y][j] => i = j
        /\ \A y1, y2 \in DOMAIN r : y1 # y2 => Rng(r[y1]) \cap Rng(r[y2]) = {})
Exclusive(uni, lm, rm, l, r) ==
  IF uni THEN (lm \/ \A x \in DOMAIN l : Len(l[x]) <= 1)
  ELSE OneOwner(lm, l, r) /\ OneOwner(rm, r, l)
=============================================================================
