------------------------------- MODULE ReadStep -------------------------------
(***************************************************************************)
(* Judges recorded reads: each record of steps.json has the start model,   *)
(* the document (as CimReadOps describes it), the kinds of the             *)
(* associations mentioned, and what the real reader returned:              *)
(*   obs.objs   sequence of <<id, class>>                                  *)
(*   obs.vals   <<id, attribute, value>> that are stated or not default    *)
(*   obs.l      <<association, left id, right id>> seen from left ends     *)
(*   obs.r      the same, seen from the right ends                         *)
(*   obs.other  anything else (foreign objects, broken features)           *)
(*   obs.exc    name of the exception if reading failed                    *)
(***************************************************************************)
EXTENDS CimReadOps, TLC, Json
Steps == JsonDeserialize("steps.json")
VARIABLE i
Init == i \in DOMAIN Steps
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i
Model(m) == [objs |-> Range(m.objs), vals |-> Range(m.vals), links |-> Range(m.links)]
Once(s) == Len(s) = Cardinality(Range(s))
Verdict(s) ==
  LET start == Model(s.start)
      m == Meaning(start, s.doc)
      two == {k \in m.links : ~s.A[k[1]][3]}
      rej == s.reject   \* arguments that have to be refused with ValueError
  IN [consistent |-> Consistent(s.A, start, s.doc),
      read  |-> s.obs.exc = IF rej THEN "ValueError" ELSE "",
      objs  |-> rej \/ (Range(s.obs.objs) = m.objs /\ Once(s.obs.objs)),
      vals  |-> rej \/ (Range(s.obs.vals) = m.vals /\ Once(s.obs.vals)),
      left  |-> rej \/ Range(s.obs.l) = m.links,
      right |-> rej \/ Range(s.obs.r) = two,
      once  |-> rej \/ (Once(s.obs.l) /\ Once(s.obs.r)),
      other |-> rej \/ s.obs.other = <<>>]
Report == LET v == Verdict(Steps[i]) IN
  \/ \A k \in DOMAIN v : v[k]
  \/ PrintT("FAIL " \o ToJson([i |-> i, bad |-> {k \in DOMAIN v : ~v[k]}]))
=============================================================================
