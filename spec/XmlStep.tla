------------------------------- MODULE XmlStep -------------------------------
(***************************************************************************)
(* Judges documents written by recorded call histories.  Data calls carry  *)
(* the code points of their text (d), starts an attribute list (a).  obs:  *)
(* what an XML parser reports: events [k |-> "S", t, a], [k |-> "C", c]    *)
(* (one code point) and [k |-> "E", t]; ref: the calls that were refused.  *)
(***************************************************************************)
EXTENDS XmlCalls, FiniteSets, TLC, Json
Steps == JsonDeserialize("steps.json")
VARIABLE i
Init == i \in DOMAIN Steps
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i
\* texts of the T events, in order
RECURSIVE Texts(_, _)
Texts(calls, j) == IF j > Len(calls) THEN <<>>
   ELSE LET c == calls[j] IN
     (IF c.op = "data" \/ (c.op = "element" /\ c.n = 1) THEN <<c.d>> ELSE <<>>) \o Texts(calls, j + 1)
RECURSIVE M(_, _, _, _, _)
\* ev from event e on, with texts tx from t on, matches obs from o on
M(ev, e, tx, t, o) ==
  IF e > Len(ev) THEN o = <<>>
  ELSE LET h == ev[e] IN
    CASE h.k = "?" -> M(ev, e + 1, tx, t, o) \/ (o # <<>> /\ o[1].k = "C" /\ o[1].c = 10 /\ M(ev, e + 1, tx, t, Tail(o)))
      [] h.k = "T" -> LET x == tx[t] n == Len(x) IN
                        /\ Len(o) >= n /\ \A k \in 1..n : o[k].k = "C" /\ o[k].c = x[k]
                        /\ M(ev, e + 1, tx, t + 1, SubSeq(o, n + 1, Len(o)))
      [] h.k = "S" -> o # <<>> /\ o[1].k = "S" /\ o[1].t = h.t /\ o[1].a = h.a /\ M(ev, e + 1, tx, t, Tail(o))
      [] OTHER     -> o # <<>> /\ o[1].k = "E" /\ o[1].t = h.t /\ M(ev, e + 1, tx, t, Tail(o))
Verdict(r) == LET t == Tree(r.calls) IN
  [refused |-> t.refused = {r.ref[k] : k \in DOMAIN r.ref},
   wellformed |-> r.exc = "",
   tree |-> r.exc # "" \/ M(t.ev, 1, Texts(r.calls, 1), 1, r.obs)]
Report == LET v == Verdict(Steps[i]) IN (\A k \in DOMAIN v : v[k]) \/ PrintT("FAIL " \o ToJson([i |-> i, bad |-> {k \in DOMAIN v : ~v[k]}]))
=============================================================================
