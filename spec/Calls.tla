-------------------------------- MODULE Calls --------------------------------
(***************************************************************************)
(* Sequential histories of a few calls: all of a given length, as          *)
(* behaviours of a small machine.  Mergers have rules and a cache; the     *)
(* machine follows what the cache holds, which must never be out of date.  *)
(*                                                                         *)
(* Calls are <<what, number, merger>>: "add" a stylesheet, "fail" to add   *)
(* one, "merge" a list, "forget": the cache drops an entry.                *)
(* Every behaviour ends with a line "CALLS ...".                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Alphabet,  \* the calls
          Length

Mergers == {c[3] : c \in Alphabet}

VARIABLES rules,   \* merger -> the stylesheets added, in order
          cache,   \* merger -> function from lists to the rules their results were computed with
          last,    \* the rules the last result was computed with
          calls
vars == <<rules, cache, last, calls>>

Init == /\ rules = [m \in Mergers |-> <<>>]
        /\ cache = [m \in Mergers |-> [l \in {} |-> <<>>]]
        /\ last = <<>>
        /\ calls = <<>>

Do(c) ==
  LET m == c[3] IN
  /\ calls' = Append(calls, c)
  /\ CASE c[1] = "add"  -> /\ rules' = [rules EXCEPT ![m] = Append(@, c[2])]
                           /\ cache' = [cache EXCEPT ![m] = [l \in {} |-> <<>>]]
                           /\ UNCHANGED last
       [] c[1] = "fail" -> /\ cache' = [cache EXCEPT ![m] = [l \in {} |-> <<>>]]
                           /\ UNCHANGED <<rules, last>>
       [] c[1] = "forget" -> /\ DOMAIN cache[m] # {}
                             /\ \E l \in DOMAIN cache[m] : cache' = [cache EXCEPT ![m] = [k \in DOMAIN @ \ {l} |-> @[k]]]
                             /\ UNCHANGED <<rules, last>>
       [] c[1] = "merge" -> LET hit == c[2] \in DOMAIN cache[m]
                                with == IF hit THEN cache[m][c[2]] ELSE rules[m]
                            IN /\ last' = <<m, with>>
                               /\ cache' = [cache EXCEPT ![m] = [l \in DOMAIN @ \cup {c[2]} |-> IF l = c[2] THEN with ELSE @[l]]]
                               /\ UNCHANGED rules

Next == Len(calls) < Length /\ \E c \in Alphabet : Do(c)
Spec == Init /\ [][Next]_vars

\* what the cache holds, and so every result, is of the present rules
UpToDate == \A m \in Mergers : \A l \in DOMAIN cache[m] : cache[m][l] = rules[m]
Fresh == (calls # <<>> /\ calls[Len(calls)][1] = "merge") => last = <<calls[Len(calls)][3], rules[calls[Len(calls)][3]]>>

Emit == Len(calls) = Length => PrintT(<<"CALLS", ToJson(calls)>>)

A(i, m) == <<"add", i, m>>
F(i, m) == <<"fail", i, m>>
M(i, m) == <<"merge", i, m>>
Cached == {A(2, 1), A(3, 1), F(2, 1), M(1, 1), M(2, 1), M(3, 1), <<"forget", 1, 1>>}
Extended == {A(i, 1) : i \in 1..5} \cup {F(1, 1), F(3, 1)}
Independent == {A(2, 1), A(3, 2), F(3, 1), M(1, 1), M(1, 2), M(2, 2)}
Steady == {M(1, 1), M(2, 1), M(3, 1), M(1, 2), M(2, 2)}
==============================================================================
