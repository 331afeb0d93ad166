----------------------------- MODULE PackageMap -----------------------------
(***************************************************************************)
(* The package maps.  For every root (CIM version or profile) the          *)
(* specification is derived from the UML model: the map's domain is the    *)
(* set of names of the root's classes, and map[name] is the package of a   *)
(* class of that name.  Records:                                           *)
(*   root, uri/uri2   published namespace and the model's                  *)
(*   names            names of the root's classes                          *)
(*   keys             names in the map                                     *)
(*   entries          per key: ids the model has for that name, the id of  *)
(*                    the class imported the way a reader does (module =   *)
(*                    map[name], attribute name), and the id of the class  *)
(*                    of the object read from a document using the name    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
VARIABLE i
Steps == JsonDeserialize("steps.json")
Set(s) == {s[k] : k \in DOMAIN s}
Missing(s) == Set(s.names) \ Set(s.keys)
Extra(s)   == Set(s.keys) \ Set(s.names)
BadImport(s) == {e.name : e \in {x \in Set(s.entries) : x.imported \notin Set(x.ids)}}
BadRead(s)   == {e.name : e \in {x \in Set(s.entries) : x.read \notin Set(x.ids)}}
Ok(s) == /\ Missing(s) = {} /\ Extra(s) = {} /\ BadImport(s) = {} /\ BadRead(s) = {}
         /\ s.uri = s.uri2 /\ s.prefix = s.prefix2
Report == LET s == Steps[i] IN IF Ok(s) THEN TRUE
  ELSE PrintT("FAIL " \o ToJson([i |-> i, missing |-> Missing(s), extra |-> Extra(s), badimport |-> BadImport(s), badread |-> BadRead(s), uri |-> s.uri = s.uri2]))
Init == i \in 1..Len(Steps)
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i
=============================================================================
