------------------------------ MODULE WriteStep ------------------------------
(***************************************************************************)
(* Judges recorded writings and round trips.  A record has                 *)
(*   model  the model before writing: objs in map order, vals (what is not *)
(*          default, and enumeration values that are set), links           *)
(*   outs   objects outside the map that links lead to                     *)
(*   out    the document written, as an XML parser sees it, in the         *)
(*          vocabulary of CimReadOps; odd: anything in it that is not      *)
(*   again  writing again gave the same bytes; same: the model is unchanged*)
(*   back   what reading the document gave (as in ReadStep)                *)
(***************************************************************************)
EXTENDS CimReadOps, TLC, Json
Steps == JsonDeserialize("steps.json")
VARIABLE i
Init == i \in DOMAIN Steps
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i
Once(s) == Len(s) = Cardinality(Range(s))
Verdict(s) ==
  LET m == [objs |-> Range(s.model.objs), vals |-> Range(s.model.vals), links |-> Range(s.model.links)]
      d == s.out
      two == {k \in m.links : ~s.A[k[1]][3]}
      All == Ids(m) \cup Range(s.outs)
      within == {k \in m.links : k[2] \in Ids(m) /\ k[3] \in Ids(m)}
      own(id) == {[k |-> "attr", f |-> v[2], v |-> v[3]] : v \in {w \in m.vals : w[1] = id}}
                 \cup {[k |-> "ref", a |-> k[1], s |-> "l", to |-> k[3]] : k \in {w \in m.links : w[2] = id}}
                 \cup {[k |-> "ref", a |-> k[1], s |-> "r", to |-> k[2]] : k \in {w \in two : w[3] = id}}
  IN [closed  |-> \A k \in m.links : k[2] \in All /\ k[3] \in All /\ (k[2] \in Ids(m) \/ k[3] \in Ids(m)),
      written |-> s.exc = "",
      order   |-> [k \in DOMAIN d |-> <<d[k].id, d[k].c>>] = s.model.objs,
      exact   |-> \A k \in DOMAIN d : Range(d[k].b) = own(d[k].id) /\ Once(d[k].b),
      meaning |-> Meaning(Empty, d) = [m EXCEPT !.links = within],
      odd     |-> s.odd = <<>>,
      again   |-> s.again, same |-> s.same,
      back    |-> ~s.read \/
                  /\ s.back.exc = "" /\ s.back.other = <<>>
                  /\ Range(s.back.objs) = m.objs /\ Once(s.back.objs)
                  /\ Range(s.back.vals) = m.vals
                  /\ Range(s.back.l) = m.links /\ Range(s.back.r) = two /\ Once(s.back.l) /\ Once(s.back.r)]
Report == LET v == Verdict(Steps[i]) IN
  \/ \A k \in DOMAIN v : v[k]
  \/ PrintT("FAIL " \o ToJson([i |-> i, bad |-> {k \in DOMAIN v : ~v[k]}]))
=============================================================================
