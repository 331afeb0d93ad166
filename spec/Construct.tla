------------------------------ MODULE Construct ------------------------------
(***************************************************************************)
(* Constructing an object of a class with a chain of superclasses.         *)
(* Chain[k] is the set of features class k of the chain declares (1 = most *)
(* derived).  The constructor of each class first resets and then assigns  *)
(* its own features and hands the remaining arguments to its superclass;   *)
(* base-first classes do it the other way round.                           *)
(* Checked: whatever the order in which the classes of the chain do their  *)
(* part, the object ends as if it had been created empty and the arguments *)
(* assigned one by one - provided no class resets a feature it does not    *)
(* take from the arguments, which is what Reset models (the defect fixed   *)
(* in the classes redefining a reference).                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Depth, PerClass
Feat == (1..Depth) \X (1..PerClass)
Own(k) == {f \in Feat : f[1] = k}
VARIABLES kw, val, done
vars == <<kw, val, done>>
Init == /\ kw \in SUBSET Feat
        /\ val = [f \in Feat |-> "unset"] /\ done = {}
Part(k) == /\ k \notin done /\ done' = done \cup {k}
           /\ val' = [f \in Feat |-> IF f \in Own(k) THEN (IF f \in kw THEN "given" ELSE "default") ELSE val[f]]
           /\ UNCHANGED kw
Next == \E k \in 1..Depth : Part(k)
Spec == Init /\ [][Next]_vars
\* assigning the arguments to an empty object
Assigned(f) == IF f \in kw THEN "given" ELSE "default"
AsAssigned == done = 1..Depth => \A f \in Feat : val[f] = Assigned(f)
Monotone == [][\A f \in Feat : val[f] # "unset" => val'[f] = val[f]]_vars
=============================================================================
