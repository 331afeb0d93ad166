------------------------------ MODULE AttrStep ------------------------------
(* Setting one attribute of one object: exactly that attribute of that object *)
(* changes ("$" stands for the attribute set) and holds the value given.      *)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLE i
Steps == JsonDeserialize("steps.json")
Holds(s) == s.ch = <<"o1.$">> /\ s.v = "ok"
Report == IF Holds(Steps[i]) THEN TRUE ELSE PrintT("FAIL " \o ToJson([i |-> i]))
Init == i \in 1..Len(Steps)
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i
=============================================================================
