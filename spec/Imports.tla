------------------------------- MODULE Imports -------------------------------
(***************************************************************************)
(* Python's import system on the library's modules.                        *)
(* Prog[m] is the sequence of statements of module m that matter:          *)
(*    <<"from", M, <<n1, ...>>>>   from M import n1, ...                   *)
(*    <<"import", M>>              import M                                *)
(*    <<"class", C, <<b1, ...>>>>  class C(b1, ...)                        *)
(*    <<"bind", n>>                an assignment or definition             *)
(* Chain[m] is the sequence of packages m lies in, outermost first,        *)
(* followed by m itself.  A module is absent, on the stack (being          *)
(* executed, at a statement) or done.  Importing runs the chain of         *)
(* packages first.  A name taken from a module that is still being         *)
(* executed must have been bound already; failing that, Python falls back  *)
(* on a submodule of that name, so that the name is then a module and not  *)
(* the class meant, which shows when a class is derived from it.           *)
(* Every module of Starts is an initial state: the first import of a fresh *)
(* interpreter.                                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
VARIABLES start, stack, done, wrong, failed
vars == <<start, stack, done, wrong, failed>>
D == JsonDeserialize("imports.json")
Prog == D.prog
Chain == D.chain
Names == D.names            \* module -> names its statements bind
Mods == DOMAIN Prog
Rng(s) == {s[k] : k \in DOMAIN s}
OnStack == {stack[k][1] : k \in DOMAIN stack}
Started == done \cup OnStack
PcOf(m) == (CHOOSE f \in Rng(stack) : f[1] = m)[2]

BindsAt(m, k) == LET s == Prog[m][k] IN
  CASE s[1] = "from" -> Rng(s[3]) [] s[1] \in {"class", "bind"} -> {s[2]} [] OTHER -> {}
\* n bound by m's statements so far
Bound(m, n) == IF m \in done THEN n \in Rng(Names[m])
               ELSE \E k \in 1..(PcOf(m) - 1) : n \in BindsAt(m, k)
Sub(m, n) == m \o "." \o n

\* the first module the current statement still has to run, or ""
Pending(M, ns) ==
  LET c == Chain[M]
      todo == {k \in DOMAIN c : c[k] \notin Started} IN
  IF todo # {} THEN c[CHOOSE k \in todo : \A j \in todo : k <= j]
  ELSE LET bad == {k \in DOMAIN ns : ~Bound(M, ns[k]) /\ Sub(M, ns[k]) \in Mods /\ Sub(M, ns[k]) \notin Started} IN
       IF bad # {} THEN Sub(M, ns[CHOOSE k \in bad : \A j \in bad : k <= j]) ELSE ""

Push(m) == stack' = Append(stack, <<m, 1>>) /\ UNCHANGED <<done, wrong>>
Advance == stack' = [stack EXCEPT ![Len(stack)][2] = @ + 1]

Init == start \in Rng(D.starts) /\ stack = <<>> /\ done = {} /\ wrong = {} /\ failed = ""

\* the import that starts it all
Begin == /\ stack = <<>> /\ start \notin done /\ failed = ""
         /\ Push(Pending(start, <<>>)) /\ UNCHANGED <<start, failed>>
Run ==
  /\ stack # <<>> /\ failed = ""
  /\ LET m == stack[Len(stack)][1]  pc == stack[Len(stack)][2] IN
     IF pc > Len(Prog[m])
     THEN /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ done' = done \cup {m}
          /\ UNCHANGED <<start, wrong, failed>>
     ELSE LET s == Prog[m][pc] IN
       CASE s[1] \in {"from", "import"} /\ s[2] \notin Mods ->      \* outside the library
              Advance /\ UNCHANGED <<start, done, wrong, failed>>
         [] s[1] = "import" /\ s[2] \in Mods ->
              LET p == Pending(s[2], <<>>) IN
              IF p # "" THEN Push(p) /\ UNCHANGED <<start, failed>>
              ELSE Advance /\ UNCHANGED <<start, done, wrong, failed>>
         [] s[1] = "from" /\ s[2] \in Mods ->
              LET M == s[2]  ns == s[3]  p == Pending(M, ns) IN
              IF p # "" THEN Push(p) /\ UNCHANGED <<start, failed>>
              ELSE LET un == {n \in Rng(ns) : ~Bound(M, n)}
                       none == {n \in un : Sub(M, n) \notin Mods} IN
                   IF none # {}
                   THEN failed' = m \o " cannot import from " \o M /\ UNCHANGED <<start, stack, done, wrong>>
                   ELSE /\ Advance
                        /\ wrong' = (wrong \ {<<m, n>> : n \in Rng(ns)})
                                    \cup {<<m, n>> : n \in {x \in Rng(ns) : x \in un \/ <<M, x>> \in wrong}}
                        /\ UNCHANGED <<start, done, failed>>
         [] s[1] = "class" ->
              IF \E b \in Rng(s[3]) : <<m, b>> \in wrong
              THEN failed' = m \o ": base class is a module" /\ UNCHANGED <<start, stack, done, wrong>>
              ELSE Advance /\ UNCHANGED <<start, done, wrong, failed>>
         [] OTHER -> Advance /\ UNCHANGED <<start, done, wrong, failed>>
Next == Begin \/ Run
Spec == Init /\ [][Next]_vars

NeverFails == failed = ""
\* once all is done, no class is known under its name as a module
NoWrongNames == stack = <<>> => wrong = {}
Verdict == /\ (failed # "") => PrintT("IMP " \o ToJson([start |-> start, ok |-> FALSE, why |-> failed]))
           /\ (stack = <<>> /\ start \in done) => PrintT("IMP " \o ToJson([start |-> start, ok |-> wrong = {}, why |-> "", n |-> Cardinality(done)]))
=============================================================================
