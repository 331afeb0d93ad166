----------------------------- MODULE PrettyPrint -----------------------------
(***************************************************************************)
(* Pretty printing.  A document is a sequence of tags ("S"/"E") with the   *)
(* character data in the slots between them ("": none, "w": white space,   *)
(* "n": white space made by printing, "x": text, "wx": both).  Printing    *)
(* goes over the tree like the real indent: a leaf's text is left alone,   *)
(* slots without text are replaced by a line end.  Checked for every small *)
(* document: nothing but white space changes, and only beside white space  *)
(* or nothing (Same), and printing again changes nothing (Idempotent).     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxTags
VARIABLES tags, slots, phase
Kinds == {"", "w", "x", "wx"}
RECURSIVE Depth(_)
Depth(t) == IF t = <<>> THEN 0 ELSE Depth(SubSeq(t, 1, Len(t) - 1)) + (IF t[Len(t)] = "S" THEN 1 ELSE 0 - 1)
Init == tags = <<"S">> /\ slots = <<>> /\ phase = "doc"
Add == /\ phase = "doc" /\ Len(tags) < MaxTags
       /\ \E t \in {"S", "E"}, k \in Kinds :
            /\ Depth(tags) > 0
            /\ Depth(tags) + (IF t = "S" THEN 1 ELSE 0 - 1) <= MaxTags - Len(tags) - 1
            /\ tags' = Append(tags, t) /\ slots' = Append(slots, k)
            /\ phase' = IF Depth(tags') = 0 THEN "done" ELSE "doc"
Next == Add
Spec == Init /\ [][Next]_<<tags, slots, phase>>
Leaf(k) == tags[k] = "S" /\ tags[k + 1] = "E"
Empty(x) == x \in {"", "w", "n"}
Pretty(sl) == [k \in DOMAIN sl |-> IF Leaf(k) \/ ~Empty(sl[k]) THEN sl[k] ELSE "n"]
Same == phase = "done" => \A k \in DOMAIN slots :
          LET q == Pretty(slots)[k] IN q = slots[k] \/ (~Leaf(k) /\ Empty(slots[k]) /\ Empty(q))
Idempotent == phase = "done" => Pretty(Pretty(slots)) = Pretty(slots)
Emit == phase = "done" => PrintT("TREE " \o ToJson([t |-> tags, s |-> slots]))
=============================================================================
