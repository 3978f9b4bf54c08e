------------------------------- MODULE History -------------------------------
(***************************************************************************)
(* Judges recorded histories of concurrent calls on one Merger: is there   *)
(* an order of the calls, each taking effect at one moment between its     *)
(* call and its return, in which every result is what Cascade says?        *)
(*                                                                         *)
(* A history is a sequence of events k = "call" | "ret" of processes p.    *)
(* A call says which it is, and already what came of it:                   *)
(*   op = "merge", in, out;   op = "add", sheet (number in SHEETS), err    *)
(* The specification keeps all configurations that are possible so far:    *)
(* the stylesheets in effect, in their order, and the pending calls that   *)
(* have taken effect.                                                      *)
(***************************************************************************)
EXTENDS Cascade, Json, IOUtils

Trace  == ndJsonDeserialize(IOEnv.TRACE)
Sheets == JsonDeserialize(IOEnv.SHEETS)
Tables == [i \in DOMAIN Sheets |-> TableOf(Sheets[i])]

RECURSIVE TableFor(_)
TableFor(s) == IF s = <<>> THEN NoTable ELSE Extend(TableFor(Front(s)), Tables[Last(s)])

VARIABLES h, step, confs, pending
vars == <<h, step, confs, pending>>

Ev == Trace[h].ev[step + 1]

Init == /\ h \in DOMAIN Trace
        /\ step = 0
        /\ confs = {[sheets |-> <<>>, done |-> {}]}
        /\ pending = [p \in {} |-> 0]

Result(sheets, in, out) ==
  IF Trace[h].ks \/ Len(in) < 2 THEN out = Merged(TableFor(sheets), in)
  ELSE Range(out) = Kept(TableFor(sheets), in) /\ Len(out) = Cardinality(Range(out))

\* the configurations after the pending call of p took effect in one of C
Effect(C, p) ==
  LET e == pending[p]
      open == {c \in C : p \notin c.done}
  IN IF e.op = "add"
     THEN {[sheets |-> IF e.err THEN c.sheets ELSE Append(c.sheets, e.sheet), done |-> c.done \cup {p}] : c \in open}
     ELSE {[c EXCEPT !.done = @ \cup {p}] : c \in {d \in open : Result(d.sheets, e.in, e.out)}}

RECURSIVE Closure(_)
Closure(C) == LET D == C \cup UNION {Effect(C, p) : p \in DOMAIN pending}
              IN IF D = C THEN C ELSE Closure(D)

Invoke == /\ Ev.k = "call"
          /\ pending' = [p \in DOMAIN pending \cup {Ev.p} |-> IF p = Ev.p THEN Ev ELSE pending[p]]
          /\ UNCHANGED confs

Return == /\ Ev.k = "ret"
          /\ confs' = {[c EXCEPT !.done = @ \ {Ev.p}] : c \in {d \in Closure(confs) : Ev.p \in d.done}}
          /\ pending' = [p \in DOMAIN pending \ {Ev.p} |-> pending[p]]

Next == /\ confs # {}
        /\ step < Len(Trace[h].ev)
        /\ step' = step + 1
        /\ Invoke \/ Return
        /\ UNCHANGED h

Spec == Init /\ [][Next]_vars

Linearizable == confs # {}
\* every call returned
Returned == Trace[h].crash = ""
==============================================================================
