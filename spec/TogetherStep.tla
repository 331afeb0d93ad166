---------------------------- MODULE TogetherStep ----------------------------
(***************************************************************************)
(* Judges jobs of the real code that went on at the same time.  A record:  *)
(*   alone   the result of each job when it is alone (equal numbers for    *)
(*           equal results): the model read or the error, the bytes        *)
(*           written and the model written as it is afterwards             *)
(*   got     the same, in the interleaving                                 *)
(*   shared  pairs of jobs whose results have an object or a list in       *)
(*           common (the writers of one model do not count)                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
Steps == JsonDeserialize("steps.json")
VARIABLE i
Init == i \in DOMAIN Steps
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i
Ok(r) == r.shared = <<>> /\ \A j \in DOMAIN r.alone : r.got[j] = r.alone[j]
Report == Ok(Steps[i]) \/ PrintT("FAIL " \o ToJson([i |-> i]))
=============================================================================
