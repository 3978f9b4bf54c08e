--------------------------------- MODULE Ident ---------------------------------
(***************************************************************************)
(* Names in stylesheets: a machine that reads an identifier code point by  *)
(* code point (CSS Syntax, "consume an ident sequence") and says which     *)
(* name it spells.  Texts and names are sequences of code points.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

LF == 10  CR == 13  FF == 12  TAB == 9  SP == 32
Backslash == 92  Dash == 45

IsDigit(c) == c >= 48 /\ c <= 57
IsHex(c) == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
IsStart(c) == c = 95 \/ (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c >= 128
IsName(c) == IsStart(c) \/ IsDigit(c) \/ c = Dash
IsNewline(c) == c \in {LF, CR, FF}
IsSpace(c) == IsNewline(c) \/ c \in {TAB, SP}
HexValue(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55

\* the character a hexadecimal escape stands for
Scalar(v) == IF v = 0 \/ (v >= 55296 /\ v <= 57343) \/ v > 1114111 THEN 65533 ELSE v

\* modes: "start" nothing read; "dash" one dash read; "name" within the name;
\*        "esc" a backslash read; "hex" digits of an escape read; "cr" an escape ended by CR; "no" not an identifier
Start == [m |-> "start", name |-> <<>>, v |-> 0, n |-> 0]
No == [Start EXCEPT !.m = "no"]

\* a code point outside of escapes
Plain(s, c) ==
  CASE c = Backslash -> [s EXCEPT !.m = "esc"]
    [] s.m = "start" /\ c = Dash -> [s EXCEPT !.m = "dash", !.name = <<Dash>>]
    [] s.m = "start" /\ IsStart(c) -> [s EXCEPT !.m = "name", !.name = <<c>>]
    [] s.m = "dash" /\ (IsStart(c) \/ c = Dash) -> [s EXCEPT !.m = "name", !.name = Append(@, c)]
    [] s.m = "name" /\ IsName(c) -> [s EXCEPT !.name = Append(@, c)]
    [] OTHER -> No

Named(s, c) == [s EXCEPT !.m = "name", !.name = Append(@, c), !.v = 0, !.n = 0]

Read(s, c) ==
  CASE s.m = "no" -> s
    [] s.m = "esc" -> IF IsNewline(c) THEN No
                      ELSE IF IsHex(c) THEN [s EXCEPT !.m = "hex", !.v = HexValue(c), !.n = 1]
                      ELSE Named(s, c)
    [] s.m = "hex" -> IF IsHex(c) /\ s.n < 6 THEN [s EXCEPT !.v = 16 * @ + HexValue(c), !.n = @ + 1]
                      ELSE IF c = CR THEN [Named(s, Scalar(s.v)) EXCEPT !.m = "cr"]
                      ELSE IF IsSpace(c) THEN Named(s, Scalar(s.v))
                      ELSE Plain(Named(s, Scalar(s.v)), c)
    [] s.m = "cr" -> IF c = LF THEN [s EXCEPT !.m = "name"] ELSE Plain([s EXCEPT !.m = "name"], c)
    [] OTHER -> Plain(s, c)

ReadAll(text) == FoldLeft(Read, Start, text)

\* the text is an identifier (and an end of the text does not cut anything off)
Accepts(s) == s.m \in {"name", "hex", "cr"}
NameOf(s) == IF s.m = "hex" THEN Append(s.name, Scalar(s.v)) ELSE s.name

\* one way to write a name
HexDigits == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 97, 98, 99, 100, 101, 102>>
RECURSIVE Hex(_)
Hex(v) == IF v < 16 THEN <<HexDigits[v + 1]>> ELSE Hex(v \div 16) \o <<HexDigits[(v % 16) + 1]>>
Write(name) ==
  LET One(i) == LET c == name[i] IN
        IF IsName(c) /\ ~(IsDigit(c) /\ (i = 1 \/ (i = 2 /\ name[1] = Dash))) /\ ~(c = Dash /\ Len(name) = 1) THEN <<c>>
        ELSE IF c < 32 \/ c = 127 \/ IsHex(c) THEN <<Backslash>> \o Hex(c) \o <<SP>>
        ELSE <<Backslash, c>>
  IN FlattenSeq([i \in DOMAIN name |-> One(i)])
================================================================================
