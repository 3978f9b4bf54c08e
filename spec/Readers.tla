-------------------------------- MODULE Readers --------------------------------
(***************************************************************************)
(* The behaviours of a reader that holds a stylesheet of some rules, each  *)
(* in two parts: every call of Read delivers some parts, perhaps none, and *)
(* perhaps an error, perhaps both at once.  Only the end of the file makes *)
(* the stylesheet complete; any other error means that nothing happens.    *)
(*                                                                         *)
(* Next to it the way AddRules takes: read until an error, then either     *)
(* register all rules or none.                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Rules, Calls
Parts == 2 * Rules
\* errors a reader may end with; the last ones merely look like the end of the file
Errors == {"eof", "error", "unexpected", "wrapped", "empty", "is"}

VARIABLES pos,      \* parts delivered
          script,   \* the calls of Read: <<parts, error>>
          ended,    \* the error it ended with, or ""
          table     \* <<"running", 0>>, then <<"before", 0>> or <<"after", the parts registered>>
vars == <<pos, script, ended, table>>

Init == pos = 0 /\ script = <<>> /\ ended = "" /\ table = <<"running", 0>>

Idle == Len(script) > 0 /\ script[Len(script)] = <<0, "">>

Read(k, e) ==
  /\ ended = "" /\ Len(script) < Calls
  /\ pos + k <= Parts
  /\ (k = 0 /\ e = "") => ~Idle
  /\ pos' = pos + k
  /\ script' = Append(script, <<k, e>>)
  /\ ended' = e
  /\ UNCHANGED table

\* AddRules has all the data, or an error
Finish == /\ ended # "" /\ table[1] = "running"
          /\ table' = IF ended = "eof" THEN <<"after", pos>> ELSE <<"before", 0>>
          /\ UNCHANGED <<pos, script, ended>>

Next == Finish \/ \E k \in 0..2, e \in {""} \cup Errors : Read(k, e)
Spec == Init /\ [][Next]_vars

\* all or nothing
AllOrNothing == table[1] # "running" => IF ended = "eof" THEN table = <<"after", pos>> ELSE table = <<"before", 0>>
\* nothing is delivered twice or left out
Sum == LET RECURSIVE S(_)
           S(n) == IF n = 0 THEN 0 ELSE script[n][1] + S(n - 1)
       IN pos = S(Len(script))

\* what ends within a rule is left out
Emit == (table[1] # "running" /\ ~(ended = "eof" /\ pos % 2 = 1)) => PrintT(<<"READER", ToJson([script |-> script, rules |-> IF ended = "eof" THEN pos \div 2 ELSE 0, ok |-> ended = "eof"])>>)
================================================================================
