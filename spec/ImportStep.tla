----------------------------- MODULE ImportStep -----------------------------
(***************************************************************************)
(* Recorded imports in fresh interpreters.  A record is one order:         *)
(*   exc       what the first failing import raised, or ""                 *)
(*   all       TRUE iff every module was imported in the end               *)
(*   classes   digest of all classes then (same for every order)           *)
(*   base      digest in the reference order                               *)
(*   differ    classes present that differ from the reference order        *)
(*   strays    classes a package shows that are not the module's class     *)
(*   doc       TRUE iff the order was forced by reading documents, and     *)
(*   unread    classes such a document could not create                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLE i
Steps == JsonDeserialize("steps.json")
Ok(s) == /\ s.exc = "" /\ s.differ = <<>> /\ s.strays = <<>> /\ s.unread = <<>>
         /\ s.all => s.classes = s.base
Report == IF Ok(Steps[i]) THEN TRUE ELSE PrintT("FAIL " \o ToJson([i |-> i]))
Init == i \in 1..Len(Steps)
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i
=============================================================================
