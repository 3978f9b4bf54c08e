-------------------------------- MODULE Texts --------------------------------
(***************************************************************************)
(* All class lists, as texts, of a few characters: separators, characters  *)
(* that merely look like one, letters in both cases, ...  The harness lets *)
(* one Merger with a cache merge all of them, in any order; ClassList      *)
(* judges the results.  Classes of one or two characters are defined.      *)
(***************************************************************************)
EXTENDS Sheet, Json, IOUtils

\* the characters, and how long the texts are in the quick and the thorough tier
Alphabets ==
  [ spaces  |-> <<{"a", "b", " ", "\t", "NBSP"}, 5, 7>>,
    ends    |-> <<{"a", "b", " ", "\n", "\f", "\r"}, 5, 6>>,
    odd     |-> <<{"a", " ", "VT", "NEL", "U+2028", "U+3000"}, 4, 6>>,
    cases   |-> <<{"a", "A", "b", "B", " "}, 5, 7>>,
    marks   |-> <<{"a", ",", "|", ";", " ", "-"}, 4, 6>>,
    forms   |-> <<{"e", "U+00E9", "U+0301", " ", "BAD", "U+FFFD"}, 4, 6>>,
    zero    |-> <<{"a", "NUL", "US", "ZWSP", "BOM", " "}, 4, 6>> ]

A == Alphabets[IOEnv.WORLD]
Blanks == {" ", "\t", "\n", "\f", "\r"}
Words == LET W == A[1] \ Blanks IN { <<x>> : x \in W } \cup { <<x, y>> : x \in W, y \in W }

ASSUME JsonSerialize(IOEnv.OUT, [chars |-> SetToSeq(A[1]), quick |-> A[2], thorough |-> A[3], words |-> SetToSeq(Words)])
VARIABLE x
Spec == x = 0 /\ [][UNCHANGED x]_x
===============================================================================
