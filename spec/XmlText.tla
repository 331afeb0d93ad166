------------------------------- MODULE XmlText -------------------------------
(***************************************************************************)
(* Text through the XML writer: escaping, encoding, and what a conforming  *)
(* parser makes of it.  Characters are names; an escaped text is a         *)
(* sequence of <<"raw", c>> and <<"ref", c>>.  Checked for every text up   *)
(* to MaxLen in every position and encoding: parsing the escaped text      *)
(* gives the text (Survives), for comments: the document stays well formed *)
(* (Harmless).  Every text is written with the real writer.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Letters
VARIABLES s, n
\* appended as a whole: text that looks like markup or like escaped text
Words == {<<"AMP", "a", "m", "p", ";">>, <<"AMP", "#", "1", "3", ";">>, <<"AMP", "l", "t", ";">>, <<"LT", "!", "-", "-">>,
          <<"RB", "RB", "GT">>, <<"-", "-", "GT">>, <<"LT", "?", "p">>}
Ascii == {"a", "-", "LT", "GT", "AMP", "QUOT", "APOS", "SP", "TAB", "LF", "CR", "RB"} \cup {w[k] : w \in Words, k \in 1..3} \cup {"p", ";", "3"}
Latin == Ascii \cup {"EACUTE", "NEL", "NBSP"}
All == Latin \cup {"HAN", "CLEF", "LSEP"}
Can(enc) == CASE enc = "ascii" -> Ascii [] enc = "latin" -> Latin [] OTHER -> All
Encodings == {"ascii", "latin", "full"}

Esc(c, pos, enc) ==
  IF pos = "comment" THEN <<"raw", c>>      \* references are not recognised in comments
  ELSE IF c \notin Can(enc) \/ c \in {"LT", "GT", "AMP", "CR"} THEN <<"ref", c>>
  ELSE IF pos = "attr" /\ c \in {"QUOT", "APOS", "TAB", "LF"} THEN <<"ref", c>>
  ELSE <<"raw", c>>
\* in a comment no two hyphens may follow each other, and a character that the
\* encoding lacks is spelled out somehow
RECURSIVE Dashes(_)
Dashes(t) == IF Len(t) < 2 THEN t
             ELSE IF t[1] = "-" /\ t[2] = "-" THEN <<"-", "SP">> \o Dashes(Tail(t)) ELSE <<t[1]>> \o Dashes(Tail(t))
Express(t, enc) == [k \in DOMAIN t |-> IF t[k] \in Can(enc) THEN t[k] ELSE "a"]
Escape(t, pos, enc) == IF pos = "comment" THEN LET d == <<"SP">> \o Express(Dashes(t), enc) \o <<"SP">> IN [k \in DOMAIN d |-> Esc(d[k], pos, enc)]
                       ELSE [k \in DOMAIN t |-> Esc(t[k], pos, enc)]

\* --- a conforming parser --------------------------------------------------
Raw(x, c) == x = <<"raw", c>>
RECURSIVE Lines(_)                           \* line ends
Lines(x) == IF x = <<>> THEN <<>>
            ELSE IF Raw(x[1], "CR") THEN <<<<"raw", "LF">>>> \o Lines(IF Len(x) > 1 /\ Raw(x[2], "LF") THEN Tail(Tail(x)) ELSE Tail(x))
            ELSE <<x[1]>> \o Lines(Tail(x))
Legal(x, pos, enc) ==
  /\ \A k \in DOMAIN x : x[k][1] = "ref" \/ x[k][2] \in Can(enc)
  /\ pos # "comment" => ~\E k \in DOMAIN x : Raw(x[k], "LT") \/ Raw(x[k], "AMP")
  /\ pos = "attr" => ~\E k \in DOMAIN x : Raw(x[k], "QUOT")
  /\ pos = "data" => ~\E k \in 1..Len(x) - 2 : Raw(x[k], "RB") /\ Raw(x[k + 1], "RB") /\ Raw(x[k + 2], "GT")
  /\ pos = "comment" => /\ ~\E k \in 1..Len(x) - 1 : Raw(x[k], "-") /\ Raw(x[k + 1], "-")
                        /\ x # <<>> => ~Raw(x[Len(x)], "-")
Value(x, pos) == [k \in DOMAIN x |-> IF pos = "attr" /\ x[k][1] = "raw" /\ x[k][2] \in {"TAB", "LF"} THEN "SP" ELSE x[k][2]]
Parse(x, pos) == Value(Lines(x), pos)

Survives == \A pos \in {"data", "attr"}, enc \in Encodings :
   LET x == Escape(s, pos, enc) IN Legal(x, pos, enc) /\ Parse(x, pos) = s
Harmless == \A enc \in Encodings : Legal(Escape(s, "comment", enc), "comment", enc)
Init == s = <<>> /\ n = 0
Next == /\ n < MaxLen /\ n' = n + 1
        /\ \E u \in {<<c>> : c \in Letters} \cup (IF n < MaxLen - 1 THEN Words ELSE {}) : s' = s \o u
Spec == Init /\ [][Next]_<<s, n>>
Emit == PrintT("TXT " \o ToJson([s |-> s]))
=============================================================================
