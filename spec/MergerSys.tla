------------------------------ MODULE MergerSys ------------------------------
(***************************************************************************)
(* A Merger with a cache, used by several processes at once.               *)
(*                                                                         *)
(* Each process executes a program, a sequence of calls:                   *)
(*   <<"merge", l>>   Merge of list l                                      *)
(*   <<"add">>        AddRules of a good stylesheet                        *)
(*   <<"fail">>       AddRules whose reader fails                          *)
(* Rules are represented by the number of good stylesheets added so far;   *)
(* the right result of Merge(l) with v of them is <<v, l>>.                *)
(*                                                                         *)
(* Calls are broken into the steps between which others can interfere.     *)
(* Variant "code" is how the library does it; the others are ways to get   *)
(* it wrong, which must violate the properties below (they show that the   *)
(* properties are able to tell); "free" takes every step at any time, and  *)
(* serves to enumerate schedules for the real code.                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Programs,  \* sequence of programs, one for each process
          Variant,
          Record     \* record the schedule

Procs == DOMAIN Programs
Locked == Variant # "free"

VARIABLES
  version,    \* number of good stylesheets
  cache,      \* list -> result
  writer,     \* process that holds the lock exclusively, 0 if none
  waiting,    \* processes that wait to do so: they keep new readers out
  readers,    \* processes that share the lock
  pc, at,     \* where each process is: step and number of the call
  reg,        \* the result a process has computed
  added,      \* the version a process has made
  \* history
  floor,      \* version that must be in effect when the current call of each process began:
              \* that of the adds that had returned, and of the results that had been returned
  settled,    \* the same for calls that begin now
  seen,       \* results: <<floor, last, result, list>> of every Merge that has returned
  sched
vars == <<version, cache, writer, waiting, readers, pc, at, reg, added, floor, settled, seen, sched>>

Empty == [l \in {} |-> <<0, 0>>]
Call(p) == Programs[p][at[p]]
Kind(p) == Call(p)[1]
List(p) == Call(p)[2]

Init == /\ version = 0 /\ cache = Empty
        /\ writer = 0 /\ waiting = {} /\ readers = {}
        /\ pc = [p \in Procs |-> "idle"]
        /\ at = [p \in Procs |-> 1]
        /\ reg = [p \in Procs |-> <<0, 0>>]
        /\ added = [p \in Procs |-> 0]
        /\ floor = [p \in Procs |-> 0]
        /\ settled = 0 /\ seen = {} /\ sched = <<>>

Log(p) == sched' = IF Record THEN Append(sched, p) ELSE sched
Goto(p, l) == pc' = [pc EXCEPT ![p] = l]

\* a call begins
Max(S) == CHOOSE x \in S : \A y \in S : y <= x

Begin(p) ==
  /\ pc[p] = "idle" /\ at[p] <= Len(Programs[p])
  /\ floor' = [floor EXCEPT ![p] = settled]
  /\ Goto(p, CASE Kind(p) = "merge" -> (IF Variant = "get inside" THEN "rlock" ELSE "get")
               [] Variant = "clear before lock" -> "clear"
               [] OTHER -> "lock")
  /\ UNCHANGED <<version, cache, writer, waiting, readers, at, reg, added, settled, seen>>

\* a call returns
Return(p) ==
  /\ pc[p] = "return"
  /\ Goto(p, "idle")
  /\ at' = [at EXCEPT ![p] = @ + 1]
  /\ seen' = IF Kind(p) = "merge" THEN seen \cup {<<floor[p], version, reg[p], List(p)>>} ELSE seen
  /\ settled' = CASE Kind(p) = "add" -> Max({settled, added[p]})
                  [] Kind(p) = "merge" -> Max({settled, reg[p][1]})
                  [] OTHER -> settled
  /\ UNCHANGED <<version, cache, writer, waiting, readers, reg, added, floor>>

\* ---- Merge
Get(p) ==
  /\ pc[p] = "get"
  /\ IF List(p) \in DOMAIN cache
     THEN reg' = [reg EXCEPT ![p] = cache[List(p)]] /\ Goto(p, IF Variant = "get inside" THEN "runlock" ELSE "return")
     ELSE Goto(p, IF Variant = "get inside" THEN "compute" ELSE "rlock") /\ UNCHANGED reg
  /\ UNCHANGED <<version, cache, writer, waiting, readers, at, added, floor, settled, seen>>

RLock(p) ==
  /\ pc[p] = "rlock"
  /\ Locked => writer = 0 /\ waiting = {}
  /\ readers' = readers \cup {p}
  /\ Goto(p, IF Variant = "get inside" THEN "get" ELSE "compute")
  /\ UNCHANGED <<version, cache, writer, waiting, at, reg, added, floor, settled, seen>>

\* the rules are read
Compute(p) ==
  /\ pc[p] = "compute"
  /\ reg' = [reg EXCEPT ![p] = <<version, List(p)>>]
  /\ Goto(p, IF Variant = "set after unlock" THEN "runlock" ELSE "set")
  /\ UNCHANGED <<version, cache, writer, waiting, readers, at, added, floor, settled, seen>>

Set(p) ==
  /\ pc[p] = "set"
  /\ cache' = [l \in DOMAIN cache \cup {List(p)} |-> IF l = List(p) THEN reg[p] ELSE cache[l]]
  /\ Goto(p, IF Variant = "set after unlock" THEN "return" ELSE "runlock")
  /\ UNCHANGED <<version, writer, waiting, readers, at, reg, added, floor, settled, seen>>

RUnlock(p) ==
  /\ pc[p] = "runlock"
  /\ readers' = readers \ {p}
  /\ Goto(p, IF Variant = "set after unlock" /\ List(p) \notin DOMAIN cache THEN "set" ELSE "return")
  /\ UNCHANGED <<version, cache, writer, waiting, at, reg, added, floor, settled, seen>>

\* ---- AddRules
Ask(p) ==  \* ask for the lock
  /\ pc[p] = "lock"
  /\ waiting' = waiting \cup {p}
  /\ Goto(p, "locking")
  /\ UNCHANGED <<version, cache, writer, readers, at, reg, added, floor, settled, seen>>

Lock(p) ==
  /\ pc[p] = "locking"
  /\ Locked => writer = 0 /\ readers = {}
  /\ writer' = p
  /\ waiting' = waiting \ {p}
  /\ Goto(p, CASE Variant \in {"clear before lock", "clear after update", "clear after unlock", "no clear"} -> "read" [] OTHER -> "clear")
  /\ UNCHANGED <<version, cache, readers, at, reg, added, floor, settled, seen>>

Clear(p) ==
  /\ pc[p] = "clear"
  /\ cache' = Empty
  /\ Goto(p, CASE Variant = "clear before lock" -> "lock"
               [] Variant = "clear after update" -> "unlock"
               [] Variant = "clear after unlock" -> "return"
               [] OTHER -> "read")
  /\ UNCHANGED <<version, writer, waiting, readers, at, reg, added, floor, settled, seen>>

\* the stylesheet is read; this may take any time
Read(p) ==
  /\ pc[p] = "read"
  /\ Goto(p, CASE Kind(p) = "add" -> (IF Variant = "unlock early" THEN "unlock" ELSE "update")
               [] Variant = "fail keeps lock" -> "return"
               [] OTHER -> "unlock")
  /\ UNCHANGED <<version, cache, writer, waiting, readers, at, reg, added, floor, settled, seen>>

Update(p) ==
  /\ pc[p] = "update"
  /\ version' = version + 1
  /\ added' = [added EXCEPT ![p] = version + 1]
  /\ Goto(p, CASE Variant = "clear after update" -> "clear" [] Variant = "unlock early" -> "return" [] OTHER -> "unlock")
  /\ UNCHANGED <<cache, writer, waiting, readers, at, reg, floor, settled, seen>>

Unlock(p) ==
  /\ pc[p] = "unlock"
  /\ writer' = 0
  /\ Goto(p, CASE Variant = "clear after unlock" -> "clear"
               [] Variant = "unlock early" /\ Kind(p) = "add" -> "update"
               [] OTHER -> "return")
  /\ UNCHANGED <<version, cache, waiting, readers, at, reg, added, floor, settled, seen>>

Step(p) == /\ \/ Begin(p) \/ Return(p) \/ Get(p) \/ RLock(p) \/ Compute(p) \/ Set(p) \/ RUnlock(p)
              \/ Ask(p) \/ Lock(p) \/ Clear(p) \/ Read(p) \/ Update(p) \/ Unlock(p)
           /\ Log(p)

Finished == \A p \in Procs : pc[p] = "idle" /\ at[p] > Len(Programs[p])
Next == (\E p \in Procs : Step(p)) \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p))

----------------------------------------------------------------------------
\* Merge returns what it would at some moment between its start and its end.  (As stylesheets are
\* added one after another, that moment exists for all calls together if no result is older than
\* what had been returned before the call.)
Linearizable == \A s \in seen : s[3][2] = s[4] /\ s[3][1] \in s[1]..s[2]

\* while no stylesheet is being added, the cache agrees with the rules
Coherent == writer = 0 /\ waiting = {} /\ (\A p \in Procs : pc[p] \notin {"lock", "locking", "clear", "read", "update", "unlock"})
              => \A l \in DOMAIN cache : cache[l] = <<version, l>>

\* no two processes at the rules if one of them changes them (no data race)
Exclusive == \A p, q \in Procs : p # q /\ pc[p] = "update" => pc[q] \notin {"compute", "update"}

\* the lock is what it is meant to be
LockOK == writer # 0 => readers = {}

\* every call returns
Ends == <>Finished
==============================================================================
