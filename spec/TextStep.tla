------------------------------- MODULE TextStep -------------------------------
(* Judges texts read back by an XML parser; texts are sequences of code points *)
EXTENDS Naturals, Sequences, TLC, Json
Steps == JsonDeserialize("steps.json")
VARIABLE i
Init == i \in DOMAIN Steps
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i
\* pos "data"/"attr": obs is the text; "comment": obs is the content around the comment
Ok(r) == /\ r.exc = ""
         /\ IF r.pos = "comment" THEN r.obs \in {r.around[1] \o r.around[2], r.around[1] \o <<10>> \o r.around[2]}
            ELSE r.obs = r.s
Report == Ok(Steps[i]) \/ PrintT("FAIL " \o ToJson([i |-> i]))
=============================================================================
