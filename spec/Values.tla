------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Lexical forms of the attribute types and what they mean.  TLC           *)
(* enumerates the forms; each is printed with its meaning and read by the  *)
(* real reader in attributes of every class.                               *)
(*   bool   white space, any letter case of true/false, 1/0                *)
(*   int    sign and digits                                                *)
(*   float  sign, digits, fraction, exponent; INF, NaN                     *)
(*          meaning of numbers: <<negative, digits, power of ten>>         *)
(*   str    pieces of character data: plain and special characters, each   *)
(*          in its spellings; comments, processing instructions and CDATA  *)
(*          sections; meaning: the sequence of characters                  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kind, MaxPieces
VARIABLES v
Range(s) == {s[k] : k \in DOMAIN s}
Pads == {<<"", "">>, <<" ", "">>, <<"", "\n">>, <<"\t ", " \n ">>}
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE s[1] \o Cat(Tail(s))

\* --- booleans: every letter case -----------------------------------------
CaseForms(pairs) == LET n == Len(pairs) IN
   {Cat([k \in 1..n |-> pairs[k][IF k \in up THEN 2 ELSE 1]]) : up \in SUBSET (1..n)}
TrueForms  == CaseForms(<< <<"t","T">>, <<"r","R">>, <<"u","U">>, <<"e","E">> >>) \cup {"1"}
FalseForms == CaseForms(<< <<"f","F">>, <<"a","A">>, <<"l","L">>, <<"s","S">>, <<"e","E">> >>) \cup {"0"}
Bools == {[t |-> "bool", lex |-> p[1] \o x \o p[2], m |-> [b |-> TRUE]] : p \in Pads, x \in TrueForms}
         \cup {[t |-> "bool", lex |-> p[1] \o x \o p[2], m |-> [b |-> FALSE]] : p \in Pads, x \in FalseForms}

\* --- integers --------------------------------------------------------------
Digits == {"0", "7", "10", "007", "2147483647", "2147483648", "9223372036854775808", "123456789012345678901234567890"}
Ints == {[t |-> "int", lex |-> p[1] \o s \o d \o p[2], m |-> [neg |-> s = "-", dig |-> d, exp |-> 0]] : p \in Pads, s \in {"", "+", "-"}, d \in Digits}

\* --- reals -----------------------------------------------------------------
IntPart == {"", "0", "1", "42", "00", "123456789"}
Frac == {<<"", "", 0>>, <<".", "", 0>>, <<".0", "0", 1>>, <<".5", "5", 1>>, <<".125", "125", 3>>, <<".1", "1", 1>>, <<".30000000000000004", "30000000000000004", 17>>}
Expo == {<<"", 0>>, <<"e0", 0>>, <<"E+2", 2>>, <<"e-3", 0-3>>, <<"E20", 20>>, <<"e300", 300>>, <<"e-320", 0-320>>, <<"e400", 400>>, <<"e-400", 0-400>>}
Reals == {[t |-> "float", lex |-> p[1] \o s \o i \o f[1] \o e[1] \o p[2],
           m |-> [neg |-> s = "-", dig |-> i \o f[2], exp |-> e[2] - f[3]]] :
             p \in {<<"", "">>, <<" \n", " ">>}, s \in {"", "+", "-"},
             <<i, f>> \in {x \in IntPart \X Frac : x[1] # "" \/ x[2][2] # ""}, e \in Expo}
         \cup {[t |-> "float", lex |-> x[1], m |-> [special |-> x[2]]] : x \in {<<"INF", "inf">>, <<"-INF", "-inf">>, <<"NaN", "nan">>}}

\* --- text: pieces <<spelling, characters>>; names stand for characters -----
Pieces == {
  <<"a", <<"a">>>>, <<"Z9", <<"Z", "9">>>>, <<"SP", <<"SP">>>>, <<"TAB", <<"TAB">>>>, <<"LF", <<"LF">>>>, <<"CRLF", <<"LF">>>>, <<"CR", <<"LF">>>>,
  <<"REF_LT", <<"LT">>>>, <<"REF_AMP", <<"AMP">>>>, <<"GT", <<"GT">>>>, <<"QUOT", <<"QUOT">>>>, <<"APOS", <<"APOS">>>>,
  <<"DEC_CR", <<"CR">>>>, <<"HEX_LF", <<"LF">>>>, <<"DEC_SP", <<"SP">>>>, <<"EACUTE", <<"EACUTE">>>>, <<"DEC_EACUTE", <<"EACUTE">>>>, <<"HAN", <<"HAN">>>>,
  <<"CLEF", <<"CLEF">>>>, <<"HEX_CLEF", <<"CLEF">>>>, <<"COMMENT", <<>>>>, <<"PI", <<>>>>,
  <<"CDATA_MARKUP", <<"LT", "b", "GT", "AMP">>>>, <<"CDATA_EMPTY", <<>>>>, <<"NBSP", <<"NBSP">>>>, <<"LONG", <<"LONG">>>>, <<"NEL", <<"NEL">>>>,
  \* text that means something elsewhere means itself
  <<"None", <<"None">>>>, <<"True", <<"True">>>>, <<"0", <<"0">>>>, <<"1.50", <<"1.50">>>>, <<"#_1", <<"#_1">>>>, <<"a.b", <<"a.b">>>>, <<"%s", <<"%s">>>>,
  <<"REF_AMP_lt", <<"ENTITY">>>> }
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN <<>> ELSE s[1][2] \o Join(Tail(s))
Texts == {[t |-> "str", lex |-> [k \in DOMAIN ps |-> ps[k][1]], m |-> Join(ps)] : ps \in UNION {[1..n -> Pieces] : n \in 0..MaxPieces}}
\* a line feed after a carriage return, however spelled as raw characters, is one line end
Sane(x) == Kind # "str" \/ \A k \in DOMAIN x.lex : x.lex[k] = "CR" => (k = Len(x.lex) \/ x.lex[k + 1] \notin {"LF", "CRLF"})
Forms == CASE Kind = "bool" -> Bools [] Kind = "int" -> Ints [] Kind = "float" -> Reals [] OTHER -> Texts
Init == v \in {x \in Forms : Sane(x)}
Next == FALSE /\ UNCHANGED v
Spec == Init /\ [][Next]_v
Emit == PrintT("VAL " \o ToJson(v))
\* white space around a value never matters, except in text
=============================================================================
