------------------------------ MODULE CimReadOps ------------------------------
(***************************************************************************)
(* What a CIM RDF/XML document means.                                      *)
(*                                                                         *)
(* A document is a sequence of elements                                    *)
(*   [t, id, c, b]   t = "obj": an identified element of a class of the    *)
(*                   model; "unknown": of a class that is not in the map;  *)
(*                   "foreign": outside the CIM namespace.  c is the class *)
(*                   and b the sequence of statements in its body          *)
(* and a statement is one of                                               *)
(*   [k |-> "attr", f, v]      attribute f has value v                     *)
(*   [k |-> "ref", a, s, to]   at end s ("l" or "r") of association a this *)
(*                             object has partner to                       *)
(*   [k |-> "bad"]             one that is not understood (attribute the   *)
(*                             class does not have, foreign element)       *)
(* A model is                                                              *)
(*   objs   set of <<id, class>>                                           *)
(*   vals   set of <<id, attribute, value>>, for what was stated           *)
(*   links  set of <<association, left id, right id>>                      *)
(* A start model is a model whose objects references may resolve to.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Range(s) == {s[k] : k \in DOMAIN s}
Empty == [objs |-> {}, vals |-> {}, links |-> {}]
Ids(m) == {p[1] : p \in m.objs}

\* --- denotation -----------------------------------------------------------
Known(doc) == {k \in DOMAIN doc : doc[k].t = "obj"}
NewIds(doc) == {doc[k].id : k \in Known(doc)}
Objs(start, doc) == {p \in start.objs : p[1] \notin NewIds(doc)} \cup {<<doc[k].id, doc[k].c>> : k \in Known(doc)}

AttrSt(doc) == {<<k, j>> \in UNION {{k} \X (DOMAIN doc[k].b) : k \in Known(doc)} : doc[k].b[j].k = "attr"}
\* the last statement of an attribute of an object wins
Vals(start, doc) ==
  {v \in start.vals : v[1] \notin NewIds(doc)} \cup
  {<<doc[p[1]].id, doc[p[1]].b[p[2]].f, doc[p[1]].b[p[2]].v>> :
     p \in {q \in AttrSt(doc) : ~\E r \in AttrSt(doc) :
              /\ r[1] = q[1] /\ r[2] > q[2] /\ doc[r[1]].b[r[2]].f = doc[q[1]].b[q[2]].f}}
RefSt(doc) == {<<k, j>> \in UNION {{k} \X (DOMAIN doc[k].b) : k \in Known(doc)} : doc[k].b[j].k = "ref"}
Stated(doc, ids) ==
  {IF st.s = "l" THEN <<st.a, st.id, st.to>> ELSE <<st.a, st.to, st.id>> :
     st \in {[a |-> doc[p[1]].b[p[2]].a, s |-> doc[p[1]].b[p[2]].s, to |-> doc[p[1]].b[p[2]].to, id |-> doc[p[1]].id] :
               p \in {q \in RefSt(doc) : doc[q[1]].b[q[2]].to \in ids}}}
Links(start, doc) ==
  {l \in start.links : l[2] \notin NewIds(doc) /\ l[3] \notin NewIds(doc)}
  \cup Stated(doc, {p[1] : p \in Objs(start, doc)})

Meaning(start, doc) == [objs |-> Objs(start, doc), vals |-> Vals(start, doc), links |-> Links(start, doc)]

\* a document is consistent if its statements respect the multiplicities
\* (a[1]: a left object may have several partners, a[2]: a right one may,
\* a[3]: one-way, so that the right end is not limited)
Respects(A, K) ==
  \A p, q \in K : (p[1] = q[1] /\ p # q) =>
     /\ A[p[1]][1] \/ p[2] # q[2]
     /\ A[p[1]][2] \/ A[p[1]][3] \/ p[3] # q[3]
     \* an end that is single-valued on both sides cannot be shared within a self association
Consistent(A, start, doc) ==
  /\ Respects(A, Links(start, doc))
  /\ \A j, k \in Known(doc) : doc[j].id = doc[k].id => j = k
=============================================================================
