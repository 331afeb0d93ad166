------------------------------- MODULE Assoc -------------------------------
(***************************************************************************)
(* Abstract specification of one association: the links as a relation,     *)
(* and every public operation with every argument of interest as one       *)
(* action.  TLC enumerates the reachable relations and every transition;   *)
(* the transitions (printed by Emit) become the operation tours that are   *)
(* replayed on every association end of the CIM classes.                   *)
(***************************************************************************)
EXTENDS AssocOps, TLC, Json
CONSTANTS L, R,        \* object names; equal for a self association
          LM, RM,      \* upper bounds: TRUE = many
          Uni          \* one-way: no right end
VARIABLES K, op
vars == <<K, op>>
View == K

Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
\* argument lists: up to two objects, in both orders, and a repeated object
Args(S) == Seqs(S, 2)
Singles(S) == {<<>>} \cup {<<y>> : y \in S}

Part(J, x) == {p[2] : p \in {q \in J : q[1] = x}}

Ops(J, side, S, T, many) ==
  UNION { {[op |-> "set", side |-> side, x |-> x, ys |-> ys] :
             ys \in IF many THEN Args(T) ELSE Singles(T)} : x \in S }
  \cup (IF ~many THEN {} ELSE
       \* assign the end's own live list, or the live list of another object
       {[op |-> "own", side |-> side, x |-> x, ys |-> <<>>] : x \in S}
       \cup UNION {{[op |-> "live", side |-> side, x |-> x, ys |-> <<z>>] : z \in S \ {x}} : x \in S}
       \cup UNION {{[op |-> o, side |-> side, x |-> x, ys |-> ys] : ys \in Args(T) \ {<<>>}} :
              x \in S, o \in {"add", "rem"}})
  \cup \* an unlinked object may be replaced by a new one made with the links
       UNION {{[op |-> "new", side |-> side, x |-> x, ys |-> ys] :
             ys \in IF many THEN Args(T) ELSE Singles(T)} :
              x \in {x \in S : (L # R) /\ Part(J, x) = {}}}

AllOps == Ops(K, "l", L, R, LM) \cup (IF Uni THEN {} ELSE Ops(Flip(K), "r", R, L, RM))

\* own and live assignments are ordinary assignments of the listed partners;
\* removing a partner that is not linked is modelled in AssocOps as several
\* permitted outcomes and left out of the tours' states unless it keeps K
RECURSIVE SetToSeqAny(_)
SetToSeqAny(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE e \in S : TRUE IN Append(SetToSeqAny(S \ {e}), e)

Outcomes(o) ==
  LET J == IF o.side = "l" THEN K ELSE Flip(K)
      ys == CASE o.op = "own" -> SetToSeqAny(Part(J, o.x))
              [] o.op = "live" -> SetToSeqAny(Part(J, o.ys[1]))
              [] OTHER -> o.ys
  IN StepK(K, LM, RM, o.side, IF o.op \in {"own", "live"} THEN "set" ELSE o.op, o.x, ys)

Init == K = {} /\ op = [op |-> "init", side |-> "l", x |-> "", ys |-> <<>>]
Next == \E o \in AllOps : \E J \in Outcomes(o) : K' = J /\ op' = o
Spec == Init /\ [][Next]_vars

Emit == PrintT("EDGE " \o ToJson([k |-> K, o |-> op', n |-> K']))

TypeOK == K \subseteq (L \X R)
Multiplicity ==
  /\ LM \/ \A x \in L : Cardinality(Part(K, x)) <= 1
  /\ RM \/ Uni \/ \A y \in R : Cardinality(Part(Flip(K), y)) <= 1
\* an operation changes only links of its object and of its arguments
Frame == [][\A p \in (K \ K') \cup (K' \ K) :
              LET me == IF op'.side = "l" THEN p[1] ELSE p[2]
                  it == IF op'.side = "l" THEN p[2] ELSE p[1]
              IN me = op'.x \/ it \in Rng(op'.ys)
                 \/ (op'.op = "live" /\ me = op'.ys[1])]_vars
\* every relation within the multiplicities is reachable (checked by count in the driver)
=============================================================================
