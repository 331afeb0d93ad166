------------------------------- MODULE CimWrite -------------------------------
(***************************************************************************)
(* The writer: a machine that walks over the entries of a model and writes *)
(* one element each, stating its non-default attributes and, for every     *)
(* link, the ends the object has.  The environment chooses any small model *)
(* of one association kind (phase "model").  Checked: the finished         *)
(* document states exactly the model (Exact), reading it gives the model   *)
(* back (RoundTrip), while writing each element only the entries before it *)
(* are in the document (Prefix).  Objects outside the map (rest) are       *)
(* referred to, but not written.  A model may be written, edited and       *)
(* written again.  Every model is printed and built, written and read back *)
(* with the real classes.                                                  *)
(***************************************************************************)
EXTENDS CimReadOps, TLC, Json
CONSTANTS LM, RM, Uni, Self, MaxObj, MaxLinks
VARIABLES phase, ents, rest, links, vals, out
vars == <<phase, ents, rest, links, vals, out>>
LIds == IF Self THEN {"a1", "a2", "a3"} ELSE {"a1", "a2"}
RIds == IF Self THEN {"a1", "a2", "a3"} ELSE {"b1", "b2"}
Id == LIds \cup RIds
Cls(i) == IF i \in LIds THEN "L" ELSE "R"
A == "A" :> <<LM, RM, Uni>>
Here(s) == {s[k] : k \in DOMAIN s}

Init == phase = "model" /\ ents = <<>> /\ rest = {} /\ links = {} /\ vals = {} /\ out = <<>>
AddObj == /\ phase = "model" /\ Len(ents) < MaxObj
          /\ \E i \in Id \ (Here(ents) \cup rest) : ents' = Append(ents, i)
          /\ UNCHANGED <<phase, rest, links, vals, out>>
AddRest == /\ phase = "model" /\ rest = {} /\ Len(ents) < MaxObj /\ links = {}
           /\ \E i \in Id \ Here(ents) : rest' = {i}
           /\ UNCHANGED <<phase, ents, links, vals, out>>
All == Here(ents) \cup rest
AddLink == /\ phase = "model" /\ Cardinality(links) < MaxLinks
           /\ \E x \in LIds \cap All, y \in RIds \cap All :
                /\ <<"A", x, y>> \notin links
                /\ Respects(A, links \cup {<<"A", x, y>>})
                /\ links' = links \cup {<<"A", x, y>>}
           /\ UNCHANGED <<phase, ents, rest, vals, out>>
\* in the model every attribute has a value; those that are the default are left out
AddVal == /\ phase = "model" /\ vals = {} /\ ents # <<>>
          /\ vals' = {<<ents[1], "f", "v">>} /\ UNCHANGED <<phase, ents, rest, links, out>>
RemLink == phase = "model" /\ (\E l \in links : links' = links \ {l}) /\ UNCHANGED <<phase, ents, rest, vals, out>>
RemVal == phase = "model" /\ vals # {} /\ vals' = {} /\ UNCHANGED <<phase, ents, rest, links, out>>
Begin == phase = "model" /\ ents # <<>> /\ phase' = "write" /\ UNCHANGED <<ents, rest, links, vals, out>>
\* the statements of an entry, as a sequence in some fixed order
Sts(i) == {[k |-> "attr", f |-> v[2], v |-> v[3]] : v \in {w \in vals : w[1] = i}}
RefSts(i) == {[k |-> "ref", a |-> "A", s |-> "l", to |-> k[3]] : k \in {w \in links : w[2] = i}}
             \cup (IF Uni THEN {} ELSE {[k |-> "ref", a |-> "A", s |-> "r", to |-> k[2]] : k \in {w \in links : w[3] = i}})
RECURSIVE Seqs(_)
Seqs(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Seqs(S \ {x})
WriteEl == /\ phase = "write" /\ Len(out) < Len(ents)
           /\ LET i == ents[Len(out) + 1] IN
                out' = Append(out, [t |-> "obj", id |-> i, c |-> Cls(i), b |-> Seqs(Sts(i)) \o Seqs(RefSts(i))])
           /\ UNCHANGED <<phase, ents, rest, links, vals>>
Close == phase = "write" /\ Len(out) = Len(ents) /\ phase' = "done" /\ UNCHANGED <<ents, rest, links, vals, out>>
Edit == phase = "done" /\ phase' = "model" /\ out' = <<>> /\ UNCHANGED <<ents, rest, links, vals>>
Next == AddObj \/ AddRest \/ AddLink \/ AddVal \/ RemLink \/ RemVal \/ Begin \/ WriteEl \/ Close \/ Edit
Spec == Init /\ [][Next]_vars
Model == [objs |-> {<<i, Cls(i)>> : i \in Here(ents)}, vals |-> vals,
          links |-> {l \in links : l[2] \in Here(ents) /\ l[3] \in Here(ents)}]
RoundTrip == phase = "done" => Meaning(Empty, out) = Model
Exact == phase = "done" => /\ Len(out) = Len(ents)
                           /\ \A k \in DOMAIN out : out[k].id = ents[k] /\ Here(out[k].b) = Sts(ents[k]) \cup RefSts(ents[k])
\* any order of the entries and any subset of the ends that still mentions each link gives the same model
OneEnd == phase = "done" =>
   LET L(st) == st.k # "ref" \/ st.s = "l"
       R(st) == st.k # "ref" \/ st.s = "r" \/ Uni
   IN \A f \in {1, 2} : Meaning(Empty, [k \in DOMAIN out |-> [out[k] EXCEPT !.b = IF f = 1 THEN SelectSeq(@, L) ELSE SelectSeq(@, R)]]) = Model
ReadOnly == [][phase # "model" => UNCHANGED <<ents, rest, links, vals>>]_vars
Prefix == phase = "write" => \A k \in DOMAIN out : out[k].id = ents[k]
Emit == phase = "done" => PrintT("MOD " \o ToJson([e |-> ents, o |-> rest, l |-> links, v |-> vals]))
=============================================================================
