-------------------------------- MODULE IdentMC --------------------------------
(***************************************************************************)
(* All texts over an alphabet up to a length, read by the machine of Ident.*)
(***************************************************************************)
EXTENDS Ident, Json, IOUtils

CONSTANTS Alphabet, Length

VARIABLES s, text
vars == <<s, text>>
Init == s = Start /\ text = <<>>
Next == /\ Len(text) < Length /\ s.m # "no"
        /\ \E c \in Alphabet : s' = Read(s, c) /\ text' = Append(text, c)
Spec == Init /\ [][Next]_vars

\* a name that is written down again is the same name, and nothing is lost or made up
Stable == Accepts(s) => LET w == ReadAll(Write(NameOf(s))) IN Accepts(w) /\ NameOf(w) = NameOf(s)
\* without a backslash a name is its text; every name is shorter than its text
Literal == (Accepts(s) /\ Backslash \notin Range(text)) => NameOf(s) = text
Shorter == Accepts(s) => Len(NameOf(s)) <= Len(text) /\ Len(NameOf(s)) > 0
\* names are made of scalar values
Scalars == Accepts(s) => \A i \in DOMAIN NameOf(s) : NameOf(s)[i] \in 1..1114111 /\ NameOf(s)[i] \notin 55296..57343

Escapes == {92, 54, 49, 97, 103, 32, 10, 45}       \* \ 6 1 a g space LF -
Ends    == {92, 48, 100, 56, 9, 13, 10, 233}       \* \ 0 d 8 TAB CR LF e-acute
Marks   == {92, 45, 49, 97, 95, 12, 46, 58}        \* \ - 1 a _ FF . :
Blocks  == {92, 123, 125, 34, 40, 44, 128512, 70}  \* \ { } " ( , emoji F

ASSUME JsonSerialize(IOEnv.OUT, [escapes |-> SetToSeq(Escapes), ends |-> SetToSeq(Ends), marks |-> SetToSeq(Marks), blocks |-> SetToSeq(Blocks)])
================================================================================
