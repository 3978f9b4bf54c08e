----------------------------- MODULE CacheHistory -----------------------------
(***************************************************************************)
(* Judges recorded histories of concurrent calls on one cache: is there an *)
(* order of the calls, each taking effect at one moment between its call   *)
(* and its return, in which the cache is one map?                          *)
(*                                                                         *)
(* Calls: op = "get", key, ok, val (what it returned);                     *)
(*        op = "set", key, val;  op = "clear".                             *)
(* init: what is in the cache at the beginning, as <<key, value>>.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, step, confs, pending
vars == <<h, step, confs, pending>>

Ev == Trace[h].ev[step + 1]

Start(i) == [k \in {Trace[i].init[j][1] : j \in DOMAIN Trace[i].init} |->
               Trace[i].init[CHOOSE j \in DOMAIN Trace[i].init : Trace[i].init[j][1] = k][2]]

Init == /\ h \in DOMAIN Trace
        /\ step = 0
        /\ confs = {[m |-> Start(h), done |-> {}]}
        /\ pending = [p \in {} |-> 0]

Has(m, e) == IF e.key \in DOMAIN m THEN e.ok /\ e.val = m[e.key] ELSE ~e.ok /\ e.val = ""

Effect(C, p) ==
  LET e == pending[p]
      open == {c \in C : p \notin c.done}
  IN CASE e.op = "get"   -> {[c EXCEPT !.done = @ \cup {p}] : c \in {d \in open : Has(d.m, e)}}
       [] e.op = "set"   -> {[m |-> [k \in DOMAIN c.m \cup {e.key} |-> IF k = e.key THEN e.val ELSE c.m[k]],
                              done |-> c.done \cup {p}] : c \in open}
       [] e.op = "clear" -> {[m |-> [k \in {} |-> ""], done |-> c.done \cup {p}] : c \in open}

RECURSIVE Closure(_)
Closure(C) == LET D == C \cup UNION {Effect(C, p) : p \in DOMAIN pending}
              IN IF D = C THEN C ELSE Closure(D)

Invoke == /\ Ev.k = "call"
          /\ pending' = [p \in DOMAIN pending \cup {Ev.p} |-> IF p = Ev.p THEN Ev ELSE pending[p]]
          /\ UNCHANGED confs

Return == /\ Ev.k = "ret"
          /\ confs' = {[c EXCEPT !.done = @ \ {Ev.p}] : c \in {d \in Closure(confs) : Ev.p \in d.done}}
          /\ pending' = [p \in DOMAIN pending \ {Ev.p} |-> pending[p]]

Next == /\ confs # {}
        /\ step < Len(Trace[h].ev)
        /\ step' = step + 1
        /\ Invoke \/ Return
        /\ UNCHANGED h

Spec == Init /\ [][Next]_vars

Linearizable == confs # {}
Returned == Trace[h].crash = ""
===============================================================================
