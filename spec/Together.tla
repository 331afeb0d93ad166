------------------------------ MODULE Together ------------------------------
(***************************************************************************)
(* Calls of the library going on at the same time.  Every job works step   *)
(* by step on one heap; any job that has not ended may take the next step. *)
(*   read   the reader: a pass over the statements that creates objects,   *)
(*          then a pass that links them; its map leads from ids to objects *)
(*   write  the writer: one piece of output per object of its model, which *)
(*          is on the heap from the start; two writers may have one model  *)
(* A statement is [o, to]: an element with identifier o that refers to the *)
(* object identified by `to` ("" for none).  All jobs use the same         *)
(* identifiers.  TLC checks for all interleavings                          *)
(*   Alone      a job that has ended has the result it has when alone      *)
(*   Apart      the objects of different jobs are different (but for two   *)
(*              writers of one model) and no link leads from one's objects *)
(*              to another's                                               *)
(*   Untouched  the model of a writer is what it was                       *)
(* and emits every complete interleaving for the replay.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS NJobs, MaxLen
VARIABLES jobs, heap, pc, map, out, sched
vars == <<jobs, heap, pc, map, out, sched>>
J == 1..NJobs
St(o, to) == [o |-> o, to |-> to]
Docs == {<<St("a", "b"), St("b", "")>>, <<St("a", ""), St("b", "a")>>, <<St("b", "b")>>}
Setups == [J -> [k : {"read"}, doc : {d \in Docs : Len(d) <= MaxLen}] \cup [k : {"write"}, doc : {<<St("a", "b"), St("b", "")>>}]]

Ids(d) == {d[i].o : i \in DOMAIN d}
\* what a document means: identified objects with what they refer to
Meaning(d) == {<<d[i].o, IF d[i].to \in Ids(d) THEN d[i].to ELSE "">> : i \in DOMAIN d}
\* a model on the heap, seen from its map
View(h, m) == {<<i, IF h[m[i]].to = 0 THEN "" ELSE h[h[m[i]].to].id>> : i \in DOMAIN m}
\* addresses: what the writers of one document share, objects made beforehand
Given(d) == [i \in 1..Len(d) |-> [id |-> d[i].o, to |-> IF d[i].to = "" THEN 0 ELSE CHOOSE n \in DOMAIN d : d[n].o = d[i].to]]
GivenMap(d) == [i \in Ids(d) |-> CHOOSE n \in DOMAIN d : d[n].o = i]
Writers == {j \in J : jobs[j].k = "write"}
Model == <<St("a", "b"), St("b", "")>>

Init == /\ jobs \in Setups
        /\ heap = Given(Model)
        /\ pc = [j \in J |-> 0]
        /\ map = [j \in J |-> IF jobs[j].k = "write" THEN GivenMap(Model) ELSE <<>>]
        /\ out = [j \in J |-> <<>>]
        /\ sched = <<>>
Length(j) == IF jobs[j].k = "read" THEN 2 * Len(jobs[j].doc) ELSE Len(jobs[j].doc)
Ended(j) == pc[j] = Length(j)
Create(j) == LET s == jobs[j].doc[pc[j] + 1] IN
  /\ jobs[j].k = "read" /\ pc[j] < Len(jobs[j].doc)
  /\ heap' = Append(heap, [id |-> s.o, to |-> 0])
  /\ map' = [map EXCEPT ![j] = [i \in DOMAIN @ \cup {s.o} |-> IF i = s.o THEN Len(heap) + 1 ELSE @[i]]]
  /\ UNCHANGED out
Link(j) == LET s == jobs[j].doc[pc[j] + 1 - Len(jobs[j].doc)] IN
  /\ jobs[j].k = "read" /\ pc[j] >= Len(jobs[j].doc) /\ ~Ended(j)
  /\ heap' = IF s.to \in DOMAIN map[j] THEN [heap EXCEPT ![map[j][s.o]].to = map[j][s.to]] ELSE heap
  /\ UNCHANGED <<map, out>>
Piece(j) == LET s == jobs[j].doc[pc[j] + 1] IN
  /\ jobs[j].k = "write" /\ ~Ended(j)
  /\ out' = [out EXCEPT ![j] = Append(@, LET x == heap[map[j][s.o]] IN <<x.id, IF x.to = 0 THEN "" ELSE heap[x.to].id>>)]
  /\ UNCHANGED <<heap, map>>
Step(j) == /\ ~Ended(j) /\ (Create(j) \/ Link(j) \/ Piece(j))
           /\ pc' = [pc EXCEPT ![j] = @ + 1] /\ sched' = Append(sched, j) /\ UNCHANGED jobs
Next == \E j \in J : Step(j)
Spec == Init /\ [][Next]_vars

Alone == \A j \in J : Ended(j) =>
  IF jobs[j].k = "read" THEN View(heap, map[j]) = Meaning(jobs[j].doc)
  ELSE {out[j][n] : n \in DOMAIN out[j]} = Meaning(jobs[j].doc) /\ Len(out[j]) = Len(jobs[j].doc)
Range(m) == {m[i] : i \in DOMAIN m}
Apart == \A j, k \in J : j # k /\ {j, k} \ Writers # {} =>
  /\ Range(map[j]) \cap Range(map[k]) = {}
  /\ \A x \in Range(map[j]) : heap[x].to \notin Range(map[k])
Untouched == SubSeq(heap, 1, Len(Model)) = Given(Model)
Emit == (\A j \in J : Ended(j)) => PrintT("SCHED " \o ToJson([k |-> [j \in J |-> jobs[j].k], s |-> sched]))
=============================================================================
