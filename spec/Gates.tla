-------------------------------- MODULE Gates --------------------------------
(***************************************************************************)
(* The schedules of MergerSys that can be forced on the real code from     *)
(* outside: a process stops where it calls the cache or the reader, and    *)
(* goes on when the schedule says so.  As in variant "free" of MergerSys   *)
(* there is no lock, so all orders are enumerated, those included that     *)
(* only a wrong implementation would let happen; on the real code a        *)
(* process that waits for the lock does not use its turn.                  *)
(*                                                                         *)
(*   Merge:     call | Get | (after a miss) lock, compute | Set, return    *)
(*   AddRules:  call, lock | Clear | read, update, return                  *)
(*                                                                         *)
(* Every behaviour ends with a line "SCHEDULE <<p1, p2, ...>>".            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Programs,   \* as in MergerSys
          Cached      \* the lists whose results are in the cache at the beginning

Procs == DOMAIN Programs

ASSUME PrintT(<<"PROGRAM", ToJson(Programs)>>)

VARIABLES cache, gate, at, sched
vars == <<cache, gate, at, sched>>

Call(p) == Programs[p][at[p]]

Init == /\ cache = Cached
        /\ gate = [p \in Procs |-> "call"]
        /\ at = [p \in Procs |-> 1]
        /\ sched = <<>>

Goto(p, g) == gate' = [gate EXCEPT ![p] = g] /\ UNCHANGED at
Ret(p) == gate' = [gate EXCEPT ![p] = "call"] /\ at' = [at EXCEPT ![p] = @ + 1]

Step(p) ==
  /\ at[p] <= Len(Programs[p])
  /\ LET c == Call(p) IN
     CASE gate[p] = "call" -> Goto(p, IF c[1] = "merge" THEN "get" ELSE "clear") /\ UNCHANGED cache
       [] gate[p] = "get"  -> (IF c[2] \in cache THEN Ret(p) ELSE Goto(p, "got")) /\ UNCHANGED cache
       [] gate[p] = "got"  -> Goto(p, "set") /\ UNCHANGED cache
       [] gate[p] = "set"  -> Ret(p) /\ cache' = cache \cup {c[2]}
       [] gate[p] = "clear" -> Goto(p, "read") /\ cache' = {}
       [] gate[p] = "read" -> Ret(p) /\ UNCHANGED cache
  /\ sched' = Append(sched, p)

Finished == \A p \in Procs : at[p] > Len(Programs[p])
Next == \E p \in Procs : Step(p)
Spec == Init /\ [][Next]_vars

Emit == Finished => PrintT(<<"SCHEDULE", sched>>)

M(l) == <<"merge", l>>
A == <<"add">>
F == <<"fail">>
Readers == << <<M(1)>>, <<A>>, <<M(1)>> >>
Stale   == << <<A>>, <<M(1), M(2)>> >>
StaleFail == << <<F>>, <<M(1), M(2)>>, <<A>> >>
Writers == << <<A>>, <<A>>, <<M(1)>> >>
Failing == << <<A>>, <<F>>, <<M(2)>> >>
Chain   == << <<A, M(1)>>, <<M(1), M(2)>> >>
Both    == << <<A, A>>, <<M(1), M(1)>> >>
==============================================================================
