----------------------------- MODULE DamagedStep -----------------------------
(***************************************************************************)
(* Judges what the real code does with documents of any form.  Records:    *)
(*   k     "tok"  a document of Damaged.tla, d its tokens                  *)
(*         "cut"  the first n characters or bytes of a right document whose root ends at `end` *)
(*         "dmg"  a right document with something that is no XML put in    *)
(*         "io"   the source fails while it is read                        *)
(*   read  cimread returned (rather than raised); print: xmlpp did         *)
(*   kept  the objects of the start map are as they were                   *)
(***************************************************************************)
EXTENDS DamagedOps, TLC, Json
Steps == JsonDeserialize("steps.json")
VARIABLE i
Init == i \in DOMAIN Steps
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i
Right(r) == CASE r.k = "tok" -> WellFormed(r.d)
              [] r.k = "cut" -> r.n >= r.end
              [] OTHER -> FALSE
\* a source that fails may do so in the second pass, when statements have been applied
Ok(r) == /\ r.read = Right(r)
         /\ r.print = Right(r)
         /\ Right(r) \/ r.k = "io" \/ r.kept
Report == Ok(Steps[i]) \/ PrintT("FAIL " \o ToJson([i |-> i]))
=============================================================================
