----------------------------- MODULE AssocImpl -----------------------------
(***************************************************************************)
(* The accessors of the generated CIM classes, transcribed: each end is a  *)
(* field of its object, every operation is the sequence of field updates   *)
(* the code performs.  TLC checks that both ends stay consistent and that  *)
(* this refines Assoc (the relation) under the mapping K = LinksL(l).      *)
(***************************************************************************)
EXTENDS AssocOps, TLC
CONSTANTS L, R, LM, RM
VARIABLES l, r, op
vars == <<l, r, op>>
View == <<l, r>>

Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}

(* A state is st = [me |-> own ends, it |-> opposite ends], seen from the   *)
(* side operated on; fields are sequences (single-valued: length 0 or 1).   *)
Upd(f, x, v) == [f EXCEPT ![x] = v]

\* single-valued end, opposite multi-valued: filter out of the old owner's
\* list, store, append to the new owner's list
SetPart(st, y, v) ==
  LET s1 == IF st.me[y] = <<>> THEN st
            ELSE [st EXCEPT !.it = Upd(@, st.me[y][1], Without(@[st.me[y][1]], {y}))]
      s2 == [s1 EXCEPT !.me = Upd(@, y, v)]
  IN IF v = <<>> \/ y \in Rng(s2.it[v[1]]) THEN s2
     ELSE [s2 EXCEPT !.it = Upd(@, v[1], Append(@[v[1]], y))]

\* both single-valued: release own partner, store, let the new partner release its own
ClearOne(st, x) ==
  LET s1 == IF st.me[x] = <<>> THEN st ELSE [st EXCEPT !.it = Upd(@, st.me[x][1], <<>>)]
  IN [s1 EXCEPT !.me = Upd(@, x, <<>>)]
Swap(st) == [me |-> st.it, it |-> st.me]
SetOne(st, x, v) ==
  LET s1 == ClearOne(st, x)
      s2 == [s1 EXCEPT !.me = Upd(@, x, v)]
  IN IF v = <<>> THEN s2
     ELSE \* partner.Opp = None (which clears the field of its old partner), then the back reference
       LET old == s2.it[v[1]]
           s3 == IF old = <<>> THEN s2 ELSE [s2 EXCEPT !.me = Upd(@, old[1], <<>>)]
           s4 == [s3 EXCEPT !.it = Upd(@, v[1], <<>>)]
       IN [s4 EXCEPT !.it = Upd(@, v[1], <<x>>)]

\* multi-valued end, opposite single-valued: everything through the parts' setters
RECURSIVE SetParts(_, _, _)
SetParts(st, ys, v) ==
  IF ys = <<>> THEN st ELSE SetParts(Swap(SetPart(Swap(st), Head(ys), v)), Tail(ys), v)
SetList(st, x, ys) == SetParts(SetParts(st, st.me[x], <<>>), ys, <<x>>)
AddList(st, x, ys) == SetParts(st, ys, <<x>>)
RemList(st, x, ys) == SetParts(st, ys, <<>>)

\* many to many
RECURSIVE DropAll(_, _, _)
DropAll(st, x, ps) == IF ps = <<>> THEN st ELSE
  DropAll([st EXCEPT !.it = Upd(@, Head(ps), Without(@[Head(ps)], {x}))], x, Tail(ps))
RECURSIVE AddMM(_, _, _)
AddMM(st, x, ys) == IF ys = <<>> THEN st ELSE
  LET y == Head(ys)
      s1 == IF x \in Rng(st.it[y]) THEN st ELSE [st EXCEPT !.it = Upd(@, y, Append(@[y], x))]
      s2 == IF y \in Rng(s1.me[x]) THEN s1 ELSE [s1 EXCEPT !.me = Upd(@, x, Append(@[x], y))]
  IN AddMM(s2, x, Tail(ys))
SetMM(st, x, ys) == AddMM([DropAll(st, x, st.me[x]) EXCEPT !.me = Upd(@, x, <<>>)], x, ys)
\* stops (ValueError) at the first object that is not linked
RECURSIVE RemMM(_, _, _)
RemMM(st, x, ys) == IF ys = <<>> \/ Head(ys) \notin Rng(st.me[x]) THEN st ELSE
  LET y == Head(ys) IN
  RemMM([me |-> Upd(st.me, x, Without(st.me[x], {y})), it |-> Upd(st.it, y, Without(st.it[y], {x}))], x, Tail(ys))

Do(st, m, n, o) ==  \* m: own end multi-valued, n: opposite end multi-valued
  CASE m /\ n -> (CASE o.op = "set" -> SetMM(st, o.x, o.ys) [] o.op = "add" -> AddMM(st, o.x, o.ys)
                    [] OTHER -> RemMM(st, o.x, o.ys))
    [] m /\ ~n -> (CASE o.op = "set" -> SetList(st, o.x, o.ys) [] o.op = "add" -> AddList(st, o.x, o.ys)
                    [] OTHER -> RemList(st, o.x, o.ys))
    [] ~m /\ n -> SetPart(st, o.x, o.ys)
    [] OTHER -> SetOne(st, o.x, o.ys)

OpsOf(S, T, side, m) ==
  UNION {{[op |-> "set", side |-> side, x |-> x, ys |-> ys] : ys \in IF m THEN Seqs(T, 3) ELSE Seqs(T, 1)} : x \in S}
  \cup IF ~m THEN {} ELSE
       UNION {{[op |-> o, side |-> side, x |-> x, ys |-> ys] : ys \in {t \in Seqs(T, 3) : t # <<>> /\ (o = "rem" => NoDup(t) \/ Len(t) < 3)}} : x \in S, o \in {"add", "rem"}}

Init == /\ l = [x \in L |-> <<>>] /\ r = [y \in R |-> <<>>]
        /\ op = [op |-> "init", side |-> "l", x |-> "", ys |-> <<>>]
NextL == \E o \in OpsOf(L, R, "l", LM) :
           LET s == Do([me |-> l, it |-> r], LM, RM, o) IN l' = s.me /\ r' = s.it /\ op' = o
NextR == \E o \in OpsOf(R, L, "r", RM) :
           LET s == Do([me |-> r, it |-> l], RM, LM, o) IN r' = s.me /\ l' = s.it /\ op' = o
Next == NextL \/ NextR
Spec == Init /\ [][Next]_vars

BothEndsAgree == Symmetric(FALSE, l, r)
OneOwnerOnly == Exclusive(FALSE, LM, RM, l, r)
NoRepeats == (\A x \in L : NoDup(l[x])) /\ (\A y \in R : NoDup(r[y]))
Refines == [][LinksL(l') \in StepK(LinksL(l), LM, RM, op'.side, op'.op, op'.x, op'.ys)]_vars
Assigned == [][op'.op = "set" => InOrder(IF op'.side = "l" THEN l'[op'.x] ELSE r'[op'.x], op'.ys)]_vars
=============================================================================
