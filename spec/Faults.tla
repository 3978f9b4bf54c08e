-------------------------------- MODULE Faults --------------------------------
(***************************************************************************)
(* Stylesheets with one fault, and where it stands: before, between or     *)
(* after rules, in blocks of @media and @supports at any depth, and in     *)
(* blocks that are skipped.  A fault in a place that counts spoils the     *)
(* stylesheet: nothing of it takes effect.  In a block that is skipped     *)
(* only a brace that closes too much does.                                 *)
(***************************************************************************)
EXTENDS Sequences, Naturals, FiniteSets, SequencesExt, TLC, Json, IOUtils

Leaf(k) == [k |-> k, b |-> <<>>]
Block(k, b) == [k |-> k, b |-> b]
Leaves == {Leaf("rule"), Leaf("fault")}
Kinds == {"media", "supports", "layer"}

Seqs(I, n) == UNION {[1..k -> I] : k \in 0..n}
RECURSIVE Faults(_)
Faults(s) == IF s = <<>> THEN 0
             ELSE (IF Head(s).k = "fault" THEN 1 ELSE Faults(Head(s).b)) + Faults(Tail(s))
AtMostOne(S) == {s \in S : Faults(s) <= 1}

Items1 == Leaves \cup {Block(k, b) : k \in Kinds, b \in AtMostOne(Seqs(Leaves, 3))}
Items2 == Leaves \cup {Block(k, b) : k \in Kinds, b \in AtMostOne(Seqs(Items1, 2))}

R == Leaf("rule")
Sheets == {s \in Seqs(Items1, 2) : Faults(s) = 1}
     \cup UNION {{<<i>>, <<R, i>>, <<i, R>>, <<R, i, R>>} : i \in {j \in Items2 : Faults(<<j>>) = 1}}

\* does the fault stand in a block that is skipped?
RECURSIVE Skipped(_, _)
Skipped(s, in) ==
  \E i \in DOMAIN s : (s[i].k = "fault" /\ in) \/ Skipped(s[i].b, in \/ s[i].k = "layer")

\* what is not a declaration, and braces and brackets that close too much
Declarations == { "p{color}", "p{color red}", "p{:red}", "p{color;width:1px}", "p{width:1px;color}", "p{width:1px;color red;height:1px}",
                  ".n{width:1px;color}", ".n{!}", "p{(a):b}", "p{1:2}", ".n,.b{width:1px;c}", ".n{--x}", "p{\"a\":b}", "p{.a:b}", ".n{color:red;=;}" }
Braces == { "}", ".n{color:red}}", "}.n{color:red}", "/**/}" }
Brackets == { "p{color:)}", "p{color:]}", ".n{--x:)}", ".n{width:1px;color:red)}", ")", "@media ){.n{width:0}}", "p{color:())}" }
\* what only looks like a fault
Fine == { "p{;}", "p{a:b;;c:d}", "p{a:\"}\"}", "p{a:\"{\"}", "/*}*/", "p{a:\\}}", "p{*zoom:1}", "p{a:{b:c}}", "p{a:/*}*/b}", "p{}", "p{a:;b:c}", "p{--a:}",
          \* in rules whose selector is not supported
          "x|y{color}", "x|y{color red;b:c}", ".n:foo{:red}", ".n|b{width:1px;color}", "x|y{!}", "x|y{1:2;a:b}", ".n:foo(p){@media{}}", "x|y{a{b:c}}", "x|y{{}}", ".n::foo(p),x|y{--x:}",
          "x|y{}", "x|y,.n:foo{;}", "x|y{.n{width:0}}", "x|y{&.n{width:0}}", "x|y{color:red;.n{width:0}width:0}", "x|y{@media print{.n{width:0}}}", "x|y{@supports (a:b){.n{width:0}p{}}}",
          "x|y{@media print{@media x{.n{width:0}}.n{height:0}}color:red}", "x|y{@layer x{.n{width:0}}}", "x|y{@import url(x);}" }

Cases == {[sheet |-> s, texts |-> SetToSeq(IF Skipped(s, FALSE) THEN Braces ELSE Braces \cup Declarations \cup Brackets), ok |-> FALSE] : s \in Sheets}
    \cup {[sheet |-> s, texts |-> SetToSeq(Declarations), ok |-> TRUE] : s \in {t \in Sheets : Skipped(t, FALSE)}}
    \cup {[sheet |-> s, texts |-> SetToSeq(Fine), ok |-> TRUE] : s \in Sheets}

ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(Cases))
ASSUME PrintT(<<"FAULTS", Cardinality(Sheets), Cardinality(Cases)>>)

VARIABLE x
Spec == x = 0 /\ [][UNCHANGED x]_x
===============================================================================
