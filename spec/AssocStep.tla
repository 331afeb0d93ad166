------------------------------ MODULE AssocStep ------------------------------
(***************************************************************************)
(* Conformance of recorded steps of the real classes with AssocOps.        *)
(* Each record is one public operation on one association:                 *)
(*   lm, rm, uni      multiplicities (TRUE = many), one-way                *)
(*   op, side, x, ys  the operation: set, add, rem, new (constructor); ys  *)
(*                    is the list of partners handed over                  *)
(*   pl, pr / ql, qr  what every object reported at both ends before/after,*)
(*                    as sequences of <<object, sequence>> pairs           *)
(*   exc              name of the exception raised, or ""                  *)
(*   arg              TRUE iff the caller's list was left as it was        *)
(*   later            TRUE iff changing the caller's list afterwards left  *)
(*                    the model as it was                                  *)
(*   other            features of any object outside this association that *)
(*                    changed                                              *)
(* Every verdict is total: a record violates the clauses Failed(s) lists.  *)
(***************************************************************************)
EXTENDS AssocOps, TLC, Json
VARIABLE i
Steps == JsonDeserialize("steps.json")

\* seen from the side operated on
Fn(prs) == [o \in {p[1] : p \in Rng(prs)} |-> (CHOOSE p \in Rng(prs) : p[1] = o)[2]]
Me(s, c)  == Fn(IF s.side = "l" THEN (IF c = "pre" THEN s.pl ELSE s.ql) ELSE (IF c = "pre" THEN s.pr ELSE s.qr))
It(s, c)  == Fn(IF s.side = "l" THEN (IF c = "pre" THEN s.pr ELSE s.qr) ELSE (IF c = "pre" THEN s.pl ELSE s.ql))
MeMany(s) == IF s.side = "l" THEN s.lm ELSE s.rm
ItMany(s) == IF s.side = "l" THEN s.rm ELSE s.lm

Member(s) == \A y \in Rng(s.ys) : y \in Rng(Me(s, "pre")[s.x])
\* removing a partner that is not linked (any more) may be refused
MayRefuse(s) == s.op = "rem" /\ (~Member(s) \/ ~NoDup(s.ys))

----------------------------------------------------------------------------
\* C01 both ends agree, and no operation fails
C01(s) == /\ Symmetric(s.uni, Fn(s.ql), Fn(s.qr))
          /\ s.exc = "" \/ MayRefuse(s)
\* C02 one owner at a time
C02(s) == Exclusive(s.uni, s.lm, s.rm, Fn(s.ql), Fn(s.qr))
Count(y, t) == Cardinality({k \in DOMAIN t : t[k] = y})
\* C03 the operation did what it asks on its own end, and on its arguments' ends
C03(s) ==
  \/ s.exc # ""          \* a refusal, or reported by C01
  \/ LET b == Me(s, "pre")  c == Me(s, "post")  d == It(s, "post")
         dup == s.uni   \* a one-way collection is a plain list
     IN /\ CASE s.op \in {"set", "new"} -> InOrder(c[s.x], s.ys) \/ (dup /\ c[s.x] = s.ys)
             [] s.op = "add" -> Rng(c[s.x]) = Rng(b[s.x]) \cup Rng(s.ys) /\ (NoDup(c[s.x]) \/ ~NoDup(b[s.x]))
             \* of an object that a plain list holds several times one at least goes
             [] OTHER -> /\ Rng(b[s.x]) \ Rng(s.ys) \subseteq Rng(c[s.x]) /\ Rng(c[s.x]) \subseteq Rng(b[s.x])
                         /\ \A y \in Rng(s.ys) \cap Rng(b[s.x]) :
                              LET n == Count(y, c[s.x])  m == Count(y, b[s.x])
                              IN n = 0 \/ (s.uni /\ n + Count(y, s.ys) <= m)
        /\ s.uni \/
           (/\ \A y \in DOMAIN d : (s.op # "rem" /\ y \in Rng(s.ys)) => s.x \in Rng(d[y])
            /\ \A y \in DOMAIN d : (s.op = "rem" /\ y \in Rng(s.ys)) => s.x \notin Rng(d[y])
            /\ \A y \in DOMAIN d : (s.op \in {"set", "new"} /\ y \notin Rng(s.ys)) => s.x \notin Rng(d[y])
            /\ \A y \in DOMAIN d : NoDup(d[y]))
Untouched(s) ==
  LET b == Me(s, "pre")  c == Me(s, "post")  e == It(s, "pre")  f == It(s, "post")
      Y == Rng(s.ys)
      moved == IF ItMany(s) /\ s.op # "rem" THEN {} ELSE Y   \* may leave another owner
      old == Rng(b[s.x])
  IN \* other owners lose at most the moved partners, and keep their order
     /\ \A z \in DOMAIN c \ {s.x} : Without(c[z], moved) = Without(b[z], moved) /\ Rng(c[z]) \subseteq Rng(b[z])
     \* untouched members of the own end keep their order
     /\ s.op \in {"add", "rem"} => Without(c[s.x], Y) = Without(b[s.x], Y)
     \* the ends of objects that are neither given nor displaced do not change
     /\ \A y \in DOMAIN f :
          IF y \in Y
          THEN \* a given object keeps its other partners, if it may have several
               ItMany(s) => Without(f[y], {s.x}) = Without(e[y], {s.x})
          ELSE IF y \in old /\ s.op \in {"set", "new"} THEN f[y] = Without(e[y], {s.x})
          ELSE f[y] = e[y]

\* C04 nothing else changed
C04(s) ==
  /\ s.other = <<>> /\ s.arg /\ s.later
  /\ \/ s.exc # "" /\ ~MayRefuse(s)      \* reported by C01
     \/ Untouched(s)

Failed(s) == (IF C01(s) THEN <<>> ELSE <<"C01">>) \o (IF C02(s) THEN <<>> ELSE <<"C02">>)
             \o (IF C03(s) THEN <<>> ELSE <<"C03">>) \o (IF C04(s) THEN <<>> ELSE <<"C04">>)

\* the step is one the abstract specification allows
Allowed(s) == \/ s.uni \/ s.exc # ""
              \/ LinksL(Fn(s.ql)) \in StepK(LinksL(Fn(s.pl)), s.lm, s.rm, s.side, s.op, s.x, s.ys)

Report == LET s == Steps[i]  f == Failed(s) IN
  IF f = <<>> /\ Allowed(s) THEN TRUE
  ELSE PrintT("FAIL " \o ToJson([i |-> i, clauses |-> IF f = <<>> THEN <<"C03">> ELSE f]))
Init == i \in 1..Len(Steps)
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i
=============================================================================
