---------------------------- MODULE PerLengthStep ----------------------------
(***************************************************************************)
(* Conformance of recorded steps with PerLength: o the operation, pre and  *)
(* post the general view of every line, see[l] the three views after the   *)
(* step, lists[i] the lines impedance i reports after it, exc.             *)
(***************************************************************************)
EXTENDS PerLength
VARIABLE i
Steps == JsonDeserialize("steps.json")
Ok(s) ==
  /\ s.post \in [Lines -> Imps \cup {None}]
  /\ s.post \in After(s.pre, s.o)
  /\ IF Rejected(s.o) THEN s.exc = "ValueError" ELSE s.exc = "" \/ (s.o.op = "rem" /\ \E l \in Rng(s.o.ls) : s.pre[l] # s.o.i)
  /\ \A l \in Lines : \A v \in Views : s.see[l][v] = See(s.post[l], v)
  /\ \A k \in Imps : Rng(s.lists[k]) = LinesOf(s.post, k) /\ Cardinality(Rng(s.lists[k])) = Len(s.lists[k])
Report == IF Ok(Steps[i]) THEN TRUE ELSE PrintT("FAIL " \o ToJson([i |-> i]))
SInit == i \in 1..Len(Steps) /\ Init
SNext == FALSE /\ UNCHANGED <<i, gen, op>>
SSpec == SInit /\ [][SNext]_<<i, gen, op>>
=============================================================================
