------------------------------ MODULE IdentTrace ------------------------------
(***************************************************************************)
(* Validates what the library took for the classes of rules like           *)
(* ".TEXT{...}", one record each:                                          *)
(*   text   TEXT, as code points                                           *)
(*   extra  other classes of the selector                                  *)
(*   names  the classes that have the rule afterwards                      *)
(***************************************************************************)
EXTENDS Ident, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == i \in DOMAIN Trace \cap 1..64
Next == i + 64 \in DOMAIN Trace /\ i' = i + 64
Spec == Init /\ [][Next]_i

R == Trace[i]
Returned == R.crash = ""
Defined == LET s == ReadAll(R.text)
           IN (Returned /\ Accepts(s)) => /\ ~R.err
                                          /\ Range(R.names) = {NameOf(s)} \cup Range(R.extra)
================================================================================
