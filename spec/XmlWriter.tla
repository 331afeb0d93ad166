------------------------------ MODULE XmlWriter ------------------------------
(***************************************************************************)
(* The streaming XML writer as a machine: a stack of open elements, a flag *)
(* for a start tag that is still open, a buffer of character data, and the *)
(* tokens written so far.  The environment makes any sequence of calls,    *)
(* including mismatched and surplus ends.  Checked: whenever all elements  *)
(* are closed, the tokens parse to exactly the tree that was told          *)
(* (Faithful), at every moment they are a prefix of a well-formed document *)
(* (Prefix), and a refused call changes nothing (Refusals).                *)
(* Every complete history is printed and made on the real writer.          *)
(***************************************************************************)
EXTENDS XmlCalls, TLC, Json
CONSTANTS MaxCalls, Tags
VARIABLES calls, stack, open, buf, out, rooted, refused
vars == <<calls, stack, open, buf, out, rooted, refused>>
Init == calls = <<>> /\ stack = <<>> /\ open = FALSE /\ buf = <<>> /\ out = <<>> /\ rooted = FALSE /\ refused = FALSE
Flushed == out \o (IF open THEN <<[k |-> ">"]>> ELSE <<>>) \o (IF buf # <<>> THEN <<[k |-> "text", d |-> Len(buf)]>> ELSE <<>>)
More == Len(calls) < MaxCalls
Log(c) == calls' = Append(calls, c)
Top == stack[Len(stack)]
DoStart(t, a) == /\ out' = Flushed \o <<[k |-> "<", t |-> t, a |-> a]>> /\ open' = TRUE /\ buf' = <<>>
                 /\ stack' = Append(stack, t) /\ rooted' = TRUE
Start == /\ More /\ (stack # <<>> \/ ~rooted)
         /\ \E t \in Tags, a \in {"", "a"} : Log([op |-> "start", t |-> t, a |-> a]) /\ DoStart(t, a)
         /\ refused' = FALSE
Data == /\ More /\ stack # <<>> /\ Log([op |-> "data"]) /\ buf' = Append(buf, "d")
        /\ refused' = FALSE /\ UNCHANGED <<stack, open, out, rooted>>
Comment == /\ More /\ Log([op |-> "comment"])
           /\ out' = Flushed \o <<[k |-> "cmt"], [k |-> "nl"]>> /\ open' = FALSE /\ buf' = <<>>
           /\ refused' = FALSE /\ UNCHANGED <<stack, rooted>>
\* the element at depth n is closed
Ended == IF buf # <<>> THEN Flushed \o <<[k |-> "</", t |-> Top]>>
         ELSE IF open THEN out \o <<[k |-> "/>"]>> ELSE out \o <<[k |-> "</", t |-> Top]>>
Pop == out' = Ended /\ open' = FALSE /\ buf' = <<>> /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
End == /\ More /\ stack # <<>> /\ \E t \in {"", Top} : Log([op |-> "end", t |-> t]) /\ Pop
       /\ refused' = FALSE /\ UNCHANGED rooted
BadEnd == /\ More
          /\ \E t \in Tags \cup {""} : (IF stack = <<>> THEN TRUE ELSE t # "" /\ t # Top) /\ Log([op |-> "end", t |-> t])
          /\ refused' = TRUE /\ UNCHANGED <<stack, open, buf, out, rooted>>
RECURSIVE Closing(_, _)
Closing(st, n) == IF Len(st) <= n THEN <<>> ELSE <<[k |-> "</", t |-> st[Len(st)]]>> \o Closing(SubSeq(st, 1, Len(st) - 1), n)
Close == /\ More /\ stack # <<>>
         /\ \E n \in 0..Len(stack) - 1 :
              /\ Log([op |-> "close", n |-> n])
              /\ out' = Ended \o Closing(SubSeq(stack, 1, Len(stack) - 1), n)
              /\ stack' = SubSeq(stack, 1, n)
         /\ open' = FALSE /\ buf' = <<>> /\ refused' = FALSE /\ UNCHANGED rooted
Element == /\ More /\ stack # <<>>
           /\ \E t \in Tags, d \in {0, 1} :
                /\ Log([op |-> "element", t |-> t, a |-> "a", n |-> d])
                /\ out' = Flushed \o <<[k |-> "<", t |-> t, a |-> "a"]>> \o
                     (IF d = 1 THEN <<[k |-> ">"], [k |-> "text", d |-> 1], [k |-> "</", t |-> t]>> ELSE <<[k |-> "/>"]>>)
                /\ open' = FALSE /\ buf' = <<>>
           /\ refused' = FALSE /\ UNCHANGED <<stack, rooted>>
Next == Start \/ Data \/ Comment \/ End \/ BadEnd \/ Close \/ Element
Spec == Init /\ [][Next]_vars

\* --- parsing the tokens ---------------------------------------------------
RECURSIVE P(_, _, _)
\* o: rest of the tokens, st: open elements, tag: inside a start tag
P(o, st, tag) ==
  IF o = <<>> THEN (IF st = <<>> /\ ~tag THEN <<>> ELSE <<[k |-> "cut"]>>)
  ELSE LET h == o[1] IN
    IF tag /\ h.k = ">" THEN P(Tail(o), st, FALSE)
    ELSE IF tag /\ h.k = "/>" THEN <<[k |-> "E", t |-> st[Len(st)]]>> \o P(Tail(o), SubSeq(st, 1, Len(st) - 1), FALSE)
    ELSE IF tag \/ h.k \in {">", "/>"} THEN <<[k |-> "error"]>>
    ELSE IF h.k = "<" THEN <<[k |-> "S", t |-> h.t, a |-> h.a]>> \o P(Tail(o), Append(st, h.t), TRUE)
    ELSE IF h.k = "text" THEN IF st = <<>> THEN <<[k |-> "error"]>> ELSE [j \in 1..h.d |-> [k |-> "T"]] \o P(Tail(o), st, FALSE)
    ELSE IF h.k = "cmt" THEN P(Tail(o), st, FALSE)
    ELSE IF h.k = "nl" THEN <<[k |-> "?"]>> \o P(Tail(o), st, FALSE)
    ELSE IF st = <<>> \/ st[Len(st)] # h.t THEN <<[k |-> "error"]>>
    ELSE <<[k |-> "E", t |-> h.t]>> \o P(Tail(o), SubSeq(st, 1, Len(st) - 1), FALSE)
Parsed == P(Flushed, <<>>, FALSE)
Told == Tree(calls)
Faithful == (stack = <<>> /\ rooted) => Parsed = Told.ev
Prefix == \A k \in DOMAIN Parsed : Parsed[k].k # "error"
Refusals == calls # <<>> => (refused = (Len(calls) \in Told.refused))
Emit == (stack = <<>> /\ rooted /\ ~refused) => PrintT("HIST " \o ToJson([c |-> calls]))
=============================================================================
