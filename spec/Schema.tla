------------------------------- MODULE Schema -------------------------------
(***************************************************************************)
(* The published UML model as the specification of the Python classes.     *)
(* spec/data/schema.json (classes, superclasses, attributes with type,     *)
(* default and enumeration, references with multiplicity, target and       *)
(* opposite end) is the specification; a record holds what one class of    *)
(* the library was observed to be:                                         *)
(*   exp  the schema's entry                                               *)
(*   got  module, name, superclass (the first class of the model in its    *)
(*        method resolution order), the introspection tables, and for      *)
(*        every feature the behaviour of an instance.                      *)
(* First, the model itself has to make sense (ModelOk); then each class    *)
(* has to conform, clause by clause.                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
VARIABLE i
Steps == JsonDeserialize("steps.json")
Set(s) == {s[k] : k \in DOMAIN s}
Pairs(s) == {<<s[k][1], s[k][2]>> : k \in DOMAIN s}

Exp(s) == s.exp
\* clauses, each a named condition
Present(s) == s.got.found /\ s.got.module = s.exp.pkg /\ s.got.name = s.exp.name
Super(s)   == s.got.sup = s.exp.sup
Attrs(s)   == Set(s.got.attrs) = {a[1] : a \in Set(s.exp.attrs)} /\ Cardinality(Set(s.got.attrs)) = Len(s.got.attrs)
Types(s)   == Pairs(s.got.types) = {<<a[1], a[2]>> : a \in Set(s.exp.attrs)}
Defaults(s) == Pairs(s.got.defaults) = {<<a[1], a[3]>> : a \in Set(s.exp.attrs)}
Enums(s)   == Pairs(s.got.enums) = {<<a[1], a[4]>> : a \in {b \in Set(s.exp.attrs) : b[4] # ""}}
Refs(s)    == Set(s.got.refs) = {r[1] : r \in Set(s.exp.refs)} /\ Cardinality(Set(s.got.refs)) = Len(s.got.refs)
Many(s)    == Set(s.got.many) = {r[1] : r \in {q \in Set(s.exp.refs) : q[2]}}
\* an instance: <<feature, value reported when nothing was given>>
Initial(s) == Pairs(s.got.initial) = {<<a[1], a[3]>> : a \in Set(s.exp.attrs)}
                                \cup {<<r[1], IF r[2] THEN "list 0" ELSE "None">> : r \in Set(s.exp.refs)}
\* <<attribute, values offered that were not reported back unchanged>>
Stores(s)  == s.got.refused = <<>>
\* <<reference, kind of value reported after linking one object of the target class, features of that object reporting this one>>
Ends(s)    == Set(s.got.ends) = {<<r[1], IF r[2] THEN "list 1" ELSE "one", r[4]>> : r \in Set(s.exp.refs)}

Failed(s) == IF ~Present(s) THEN <<"present">> ELSE
   (IF Super(s) THEN <<>> ELSE <<"superclass">>) \o (IF Attrs(s) THEN <<>> ELSE <<"attributes">>)
   \o (IF Types(s) THEN <<>> ELSE <<"attribute types">>) \o (IF Defaults(s) THEN <<>> ELSE <<"defaults">>)
   \o (IF Enums(s) THEN <<>> ELSE <<"enumerations">>) \o (IF Refs(s) THEN <<>> ELSE <<"references">>)
   \o (IF Many(s) THEN <<>> ELSE <<"multiplicities">>) \o (IF Initial(s) THEN <<>> ELSE <<"initial values">>)
   \o (IF Stores(s) THEN <<>> ELSE <<"stored values">>) \o (IF Ends(s) THEN <<>> ELSE <<"ends">>)
Report == LET f == Failed(Steps[i]) IN IF f = <<>> THEN TRUE ELSE PrintT("FAIL " \o ToJson([i |-> i, clauses |-> f]))
Init == i \in 1..Len(Steps)
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i
=============================================================================
