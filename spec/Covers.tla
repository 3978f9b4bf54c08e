-------------------------------- MODULE Covers --------------------------------
(***************************************************************************)
(* Which property overrides which: every ordered pair of properties and    *)
(* many sets of longhands against a shorthand, as the library decides them.*)
(*                                                                         *)
(* Records (field op):                                                     *)
(*   pairs  p, over: the properties q for which Merge of the class that    *)
(*          sets p followed by the one that sets q drops the former;       *)
(*          odd: the q for which the result is neither both nor the latter *)
(*   set    p, later: properties set by later classes, dropped: the class  *)
(*          that sets p is dropped                                         *)
(***************************************************************************)
EXTENDS Cascade, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Names == Range(JsonDeserialize(IOEnv.NAMES))   \* all properties that were tried

VARIABLES i
\* the records one after another, in 64 strands
Init == i \in DOMAIN Trace \cap 1..64
Next == i + 64 \in DOMAIN Trace /\ i' = i + 64
Spec == Init /\ [][Next]_i

R == Trace[i]

PairsOK == R.op = "pairs" =>
             /\ R.odd = <<>>
             /\ Range(R.over) = {q \in Names : q # R.p /\ Longhands(R.p) \subseteq Longhands(q)}
SetOK   == R.op = "set" => (R.dropped <=> Longhands(R.p) \subseteq UNION {Longhands(q) : q \in Range(R.later)})
Returned == R.crash = ""

\* the definition above is what Cascade says of such lists
Table(ps) == [p \in ps |-> [rule |-> Entry(<<>>, <<[p |-> p, i |-> FALSE, vars |-> <<>>]>>)]]
Agrees == R.op = "set" => ((R.p \in Kept(Table(Range(R.later) \cup {R.p}), <<R.p>> \o R.later))
                             <=> ~(Longhands(R.p) \subseteq UNION {Longhands(q) : q \in Range(R.later)}))
===============================================================================
