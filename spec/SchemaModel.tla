---------------------------- MODULE SchemaModel ----------------------------
(***************************************************************************)
(* Sanity of the UML model used as specification: superclasses exist and   *)
(* form a forest, reference targets exist, opposite ends point back at     *)
(* each other, enumeration defaults are literals, names are unique.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
VARIABLE c
M == JsonDeserialize("model.json")     \* class id -> entry
Ids == DOMAIN M
RECURSIVE Climb(_, _)
Climb(k, n) == IF M[k].sup = "" THEN TRUE ELSE IF n = 0 THEN FALSE ELSE Climb(M[k].sup, n - 1)
Set(s) == {s[k] : k \in DOMAIN s}
ClassOk(k) ==
  /\ M[k].sup = "" \/ M[k].sup \in Ids
  /\ Climb(k, 20)
  /\ \A r \in Set(M[k].refs) : /\ r.tgt \in Ids
                               /\ r.opp = "" \/ r.view \/ \E q \in Set(M[r.tgt].refs) : q.n = r.opp /\ q.opp = r.n /\ q.tgt = k
  /\ \A a \in Set(M[k].attrs) : a.lits = <<>> \/ a.d = "" \/ a.d \in Set(a.lits)
  /\ Cardinality({a.n : a \in Set(M[k].attrs)} \cup {r.n : r \in Set(M[k].refs)}) = Len(M[k].attrs) + Len(M[k].refs)
ModelOk == ClassOk(c)
Init == c \in Ids
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
=============================================================================
