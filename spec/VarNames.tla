------------------------------- MODULE VarNames -------------------------------
(***************************************************************************)
(* Custom properties under all names over an alphabet, and all the ways in *)
(* which a value uses one, or only looks as if it did.  The harness makes  *)
(* of every name a class that sets it and, for every form, a class that    *)
(* uses it (in an ordinary property, or in another custom property that is *)
(* used in turn), writes the names with and without escapes, and merges    *)
(* the classes of all names with the user of one; Session judges.          *)
(***************************************************************************)
EXTENDS Sequences, Naturals, FiniteSets, SequencesExt, TLC, Json, IOUtils

\* what a name may consist of, after "--x": each of these has a meaning of its own in values
Alphabet == {"x", "X", "1", "-", "_", ".", ",", ")", "(", " ", "/", "*", "\\", "\"", "'", "!", "é", ";", "}"}

Words(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
Join(w) == FoldSeq(LAMBDA c, s : s \o c, "", w)
Names == {"--x" \o Join(w) : w \in Words(2)}

\* "N" stands for the name
Uses == { "var(N)", "VAR(N)", "var( N )", "calc(1px + var(N))", "var(N,1px)", "var(--unset,var(N))", "\"s\" var(N)",
          "'\"' var(N) '\"'", "\"\\\"\" var(N)", "f(var(N))", "url(\"u\") var(N)", "url(u) var(N)", "var(/* c */N/* c */)", "-1*var(N)", "x/var(N)",
          "var(N)var(--unset)", "x\\\"  var(N)", "[var(N)]", "/* ' */var(N)" }
NoUses == { "1px", "\"var(N)\"", "'var(N)'", "\"\\\"var(N)\"", "'a' \"var(N)\" 'b'", "my-var(N)", "-var(N)", "xvar(N)", "_var(N)", "évar(N)", "--var(N)", "x\\-var(N)", "var-x(N)", "/* var(N) */1px",
            "\"/*\" \"var(N)\" \"*/\"", "1px/* \" *//* var(N) */" }

ASSUME JsonSerialize(IOEnv.OUT, [names |-> SetToSeq(Names), uses |-> SetToSeq(Uses), nouses |-> SetToSeq(NoUses)])
ASSUME PrintT(<<"NAMES", Cardinality(Names), Cardinality(Uses), Cardinality(NoUses)>>)

VARIABLE x
Spec == x = 0 /\ [][UNCHANGED x]_x
===============================================================================
