------------------------------ MODULE PrettyStep ------------------------------
(* Judges pretty-printed documents: a, b: tags (names with attributes) and     *)
(* slots (code points) before and after; again: printing the result again      *)
(* gave the same bytes                                                         *)
EXTENDS Naturals, Sequences, TLC, Json
Steps == JsonDeserialize("steps.json")
VARIABLE i
Init == i \in DOMAIN Steps
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i
WS(x) == \A k \in DOMAIN x : x[k] \in {9, 10, 13, 32}
Verdict(r) ==
  [printed |-> r.exc = "",
   tags |-> r.a.tags = r.b.tags,
   slots |-> /\ Len(r.a.slots) = Len(r.b.slots)
             /\ \A k \in DOMAIN r.a.slots :
                  LET leaf == r.a.tags[k][1] = "S" /\ r.a.tags[k + 1][1] = "E" IN
                  \/ r.a.slots[k] = r.b.slots[k]
                  \/ ~leaf /\ WS(r.a.slots[k]) /\ WS(r.b.slots[k]),
   again |-> r.again]
Report == LET v == Verdict(Steps[i]) IN (\A k \in DOMAIN v : v[k]) \/ PrintT("FAIL " \o ToJson([i |-> i, bad |-> {k \in DOMAIN v : ~v[k]}]))
=============================================================================
