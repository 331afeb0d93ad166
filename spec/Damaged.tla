------------------------------ MODULE Damaged ------------------------------
(***************************************************************************)
(* cimread on documents of any form.  An environment writes a document     *)
(* token by token; the reader scans it completely (the first pass) and     *)
(* applies statements (the second pass) only to a document whose form it   *)
(* has seen to be right.  TLC checks for all documents up to MaxLen        *)
(*   Refuses    the reader ends in "refused" exactly when the form is      *)
(*              wrong                                                      *)
(*   NoEffect   nothing is applied of a document that is refused           *)
(*   Cut        of a right document every beginning that lacks more than   *)
(*              what may follow the root is wrong                          *)
(***************************************************************************)
EXTENDS DamagedOps, FiniteSets, TLC, Json
CONSTANTS MaxLen, MaxDamage
VARIABLES doc, phase, pos, ps, done
vars == <<doc, phase, pos, ps, done>>
Tags == {"a", "b"}
Tokens == [k : {"S", "E"}, t : Tags] \cup [k : {"X"}, t : {"a"}] \cup [k : {"T", "W", "C", "D"}, t : {""}]
Damage(d) == Cardinality({i \in DOMAIN d : d[i].k = "D"})

Init == doc = <<>> /\ phase = "writing" /\ pos = 0 /\ ps = Start /\ done = {}
Write == /\ phase = "writing" /\ Len(doc) < MaxLen
         /\ \E x \in Tokens : doc' = Append(doc, x) /\ Damage(doc') <= MaxDamage
         /\ UNCHANGED <<phase, pos, ps, done>>
Open == phase = "writing" /\ phase' = "scan" /\ UNCHANGED <<doc, pos, ps, done>>
Scan == /\ phase = "scan"
        /\ IF pos = Len(doc)
           THEN /\ phase' = IF Complete(ps) THEN "apply" ELSE "refused"
                /\ pos' = 0 /\ UNCHANGED <<doc, ps, done>>
           ELSE /\ pos' = pos + 1 /\ ps' = Read(ps, doc[pos + 1])
                /\ phase' = IF ps'.bad THEN "refused" ELSE "scan"
                /\ UNCHANGED <<doc, done>>
Apply == /\ phase = "apply"
         /\ IF pos = Len(doc) THEN phase' = "read" /\ UNCHANGED <<doc, pos, ps, done>>
            ELSE pos' = pos + 1 /\ done' = done \cup {pos + 1} /\ UNCHANGED <<doc, phase, ps>>
Next == Write \/ Open \/ Scan \/ Apply
Spec == Init /\ [][Next]_vars

Refuses == /\ phase = "refused" => ~WellFormed(doc)
           /\ phase \in {"apply", "read"} => WellFormed(doc)
NoEffect == done # {} => WellFormed(doc)
Cut == phase = "read" => \A n \in 0..(Len(doc) - 1) :
         WellFormed(SubSeq(doc, 1, n)) => \A m \in (n + 1)..Len(doc) : Misc(doc[m])
Emit == phase \in {"refused", "read"} =>
          PrintT("DOC " \o ToJson([d |-> [i \in DOMAIN doc |-> doc[i].k \o doc[i].t], wf |-> phase = "read"]))
=============================================================================
