---------------------------- MODULE ConstructStep ----------------------------
(***************************************************************************)
(* Conformance of recorded constructions.  A record is the set of what was *)
(* seen at the features of one object, each as                             *)
(*   given  an argument was passed for it                                  *)
(*   isG    it reports the value passed                                    *)
(*   isD    it reports the default of the schema                           *)
(*   same   it reports what an object created empty and then assigned the  *)
(*          same values reports, and so do the partners at their ends      *)
(*   ends   the partners passed report the object at the opposite end      *)
(* exc is the exception the constructor raised, exc2 the one assignment    *)
(* raised.                                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLE i
Steps == JsonDeserialize("steps.json")
\* the value Construct.tla gives the feature
Holds(e) == /\ IF e.given THEN e.isG ELSE e.isD
            /\ e.same /\ e.ends
Ok(s) == s.exc = "" /\ s.exc2 = "" /\ \A k \in DOMAIN s.seen : Holds(s.seen[k])
Report == IF Ok(Steps[i]) THEN TRUE ELSE PrintT("FAIL " \o ToJson([i |-> i, bad |-> [k \in DOMAIN Steps[i].seen |-> ~Holds(Steps[i].seen[k])]]))
Init == i \in 1..Len(Steps)
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i
=============================================================================
