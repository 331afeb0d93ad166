------------------------------- MODULE CimRead -------------------------------
(***************************************************************************)
(* The reader: a two-pass machine over a document, checked against the     *)
(* document's meaning.  The document is first built by the environment,    *)
(* element by element and statement by statement (phase "write"), so that  *)
(* TLC explores every document within the bounds, with dangling            *)
(* references, unknown classes and statements that are not understood.     *)
(* Pass 1 creates the objects, pass 2 applies the statements one by one to *)
(* the ends of a single association kind, the way the classes' accessors   *)
(* do: setting a single-valued end takes the partner from its old owner.   *)
(*                                                                         *)
(* Checked: for every consistent document the machine ends in the          *)
(* document's meaning (Reads), whatever the order of elements and          *)
(* statements; and what is not understood has no effect (Ignores).         *)
(* Every complete consistent document is printed with its meaning and      *)
(* replayed, spelled out as XML, on the associations of the real classes.  *)
(***************************************************************************)
EXTENDS CimReadOps, TLC, Json
CONSTANTS LM, RM, Uni, Self,   \* kind of the association
          MaxSt,               \* statements per document
          MaxEl,               \* elements
          Faults               \* TRUE: also elements and statements that are not understood
VARIABLES phase, doc, pos, objs, l, r
vars == <<phase, doc, pos, objs, l, r>>
LIds == IF Self THEN {"a1", "a2", "a3"} ELSE {"a1", "a2"}
RIds == IF Self THEN {"a1", "a2", "a3"} ELSE {"b1", "b2"}
Id == LIds \cup RIds
Cls(i) == IF i \in LIds THEN "L" ELSE "R"
Count(d) == LET RECURSIVE S(_)
                S(k) == IF k = 0 THEN 0 ELSE Len(d[k].b) + S(k - 1) IN S(Len(d))
Used(d) == {d[k].id : k \in DOMAIN d}

\* statements that may be made about an object
RefSts(i) == {[k |-> "ref", a |-> "A", s |-> "l", to |-> t] : t \in IF i \in LIds THEN RIds ELSE {}}
             \cup {[k |-> "ref", a |-> "A", s |-> "r", to |-> t] : t \in IF i \in RIds /\ ~Uni THEN LIds ELSE {}}
Sts(i) == RefSts(i) \cup IF Faults THEN {[k |-> "bad"]} ELSE {}

A == "A" :> <<LM, RM, Uni>>
Init == /\ phase = "write" /\ doc = <<>> /\ pos = <<0, 0>>
        /\ objs = {} /\ l = [x \in LIds |-> <<>>] /\ r = [y \in RIds |-> <<>>]
AddEl == /\ phase = "write" /\ Len(doc) < MaxEl
         /\ \E i \in Id \ Used(doc), t \in IF Faults THEN {"obj", "unknown"} ELSE {"obj"} :
              doc' = Append(doc, [t |-> t, id |-> i, c |-> Cls(i), b |-> <<>>])
         /\ UNCHANGED <<phase, pos, objs, l, r>>
AddSt == /\ phase = "write" /\ doc # <<>> /\ Count(doc) < MaxSt
         /\ \E st \in Sts(doc[Len(doc)].id) : doc' = [doc EXCEPT ![Len(doc)].b = Append(@, st)]
         /\ UNCHANGED <<phase, pos, objs, l, r>>
Begin == /\ phase = "write" /\ doc # <<>> /\ Consistent(A, Empty, doc)
         /\ phase' = "pass1" /\ pos' = <<1, 1>> /\ UNCHANGED <<doc, objs, l, r>>
Pass1 == /\ phase = "pass1"
         /\ IF pos[1] > Len(doc) THEN phase' = "pass2" /\ pos' = <<1, 1>> /\ UNCHANGED objs
            ELSE /\ objs' = IF doc[pos[1]].t = "obj" THEN objs \cup {<<doc[pos[1]].id, doc[pos[1]].c>>} ELSE objs
                 /\ pos' = <<pos[1] + 1, 1>> /\ UNCHANGED phase
         /\ UNCHANGED <<doc, l, r>>
Minus(s, x) == LET T(e) == e # x IN SelectSeq(s, T)
Put(s, x) == IF x \in Range(s) THEN s ELSE Append(s, x)
\* apply: x gets y at its end; mx, my: may x (y) have several partners
Join(fx, fy, x, y, mx, my) ==
  LET \* release x's and y's former partners where only one is allowed
      gy == IF mx THEN fy ELSE [z \in DOMAIN fy |-> IF z # y THEN Minus(fy[z], x) ELSE fy[z]]
      gx == IF my THEN fx ELSE [z \in DOMAIN fx |-> IF z # x THEN Minus(fx[z], y) ELSE fx[z]]
      hx == [gx EXCEPT ![x] = IF mx THEN Put(@, y) ELSE <<y>>]
      hy == [gy EXCEPT ![y] = IF my THEN Put(@, x) ELSE <<x>>]
  IN <<hx, hy>>
Pass2 == /\ phase = "pass2"
         /\ IF pos[1] > Len(doc) THEN phase' = "done" /\ UNCHANGED <<pos, l, r>>
            ELSE LET e == doc[pos[1]] IN
              IF e.t # "obj" \/ pos[2] > Len(e.b) THEN pos' = <<pos[1] + 1, 1>> /\ UNCHANGED <<phase, l, r>>
              ELSE LET st == e.b[pos[2]] IN
                /\ pos' = <<pos[1], pos[2] + 1>> /\ UNCHANGED phase
                /\ IF st.k = "bad" \/ st.to \notin {p[1] : p \in objs} THEN UNCHANGED <<l, r>>
                   ELSE IF Uni THEN /\ l' = [l EXCEPT ![e.id] = IF LM THEN Put(@, st.to) ELSE <<st.to>>] /\ UNCHANGED r
                   ELSE IF st.s = "l" THEN LET j == Join(l, r, e.id, st.to, LM, RM) IN l' = j[1] /\ r' = j[2]
                   ELSE LET j == Join(r, l, e.id, st.to, RM, LM) IN r' = j[1] /\ l' = j[2]
         /\ UNCHANGED <<doc, objs>>
Next == AddEl \/ AddSt \/ Begin \/ Pass1 \/ Pass2
Spec == Init /\ [][Next]_vars

M == Meaning(Empty, doc)
GotL == UNION {{<<"A", x, y>> : y \in Range(l[x])} : x \in LIds}
GotR == UNION {{<<"A", x, y>> : x \in Range(r[y])} : y \in RIds}
Reads == phase = "done" => /\ objs = M.objs /\ GotL = M.links /\ (Uni \/ GotR = M.links)
                           /\ \A x \in LIds : Cardinality(Range(l[x])) = Len(l[x])
                           /\ \A y \in RIds : Cardinality(Range(r[y])) = Len(r[y])
\* the meaning without what is not understood
Clean(d) == LET T(e) == e.t = "obj"
                B(e) == [e EXCEPT !.b = LET U(st) == st.k # "bad" /\ st.to \in NewIds(d) IN SelectSeq(@, U)]
                f == SelectSeq(d, T)
            IN [k \in DOMAIN f |-> B(f[k])]
Ignores == phase = "done" => Meaning(Empty, Clean(doc)) = M
\* order does not matter
Rev(s) == [k \in DOMAIN s |-> s[Len(s) + 1 - k]]
RevAll(d) == [k \in DOMAIN d |-> [Rev(d)[k] EXCEPT !.b = Rev(@)]]
OrderFree == phase = "done" => Meaning(Empty, RevAll(doc)) = M
\* reading a document in parts, each into the model of those before it, is
\* reading it at once, if no part refers to a later one
Closed(d) == \A k \in DOMAIN d : \A j \in DOMAIN d[k].b : d[k].b[j].k = "ref" => d[k].b[j].to \in {d[n].id : n \in DOMAIN d}
Cuts == {n \in 1..Len(doc) - 1 : Closed(SubSeq(doc, 1, n))}
Splits == phase = "done" => \A n \in Cuts :
  LET m1 == Meaning(Empty, SubSeq(doc, 1, n)) d2 == SubSeq(doc, n + 1, Len(doc)) IN
  Consistent(A, m1, d2) /\ Meaning(m1, d2) = M
Emit == phase = "done" => PrintT("DOC " \o ToJson([d |-> doc, m |-> M, cuts |-> Cuts]))
=============================================================================
