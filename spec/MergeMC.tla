------------------------------- MODULE MergeMC -------------------------------
(***************************************************************************)
(* Merging as an algorithm, one class at a time, over every small rule     *)
(* table and class list; checked against Cascade, which has no algorithm,  *)
(* and against what styles are for: the style the classes give an element. *)
(*                                                                         *)
(* World picks the tables: which entries a class may have.                 *)
(***************************************************************************)
EXTENDS Cascade

CONSTANTS Classes,    \* names of the classes (strings)
          World,      \* the name of a set of entries, see Entries
          MaxLen      \* longest list

P == {"p", "q"}                      \* two ordinary properties
C == {"--x", "--y"}                  \* two custom ones

None == [ctx |-> 0, e |-> TRUE, n |-> {}, ni |-> {}, c |-> {}, u |-> {}, iu |-> {}, cu |-> {}]
Nothing == {None}

Plain(ctx, n, ni) == [None EXCEPT !.ctx = ctx, !.e = (n \cup ni = {}), !.n = n \cup ni, !.ni = ni]

Entries ==
  CASE World = "plain"         -> {Plain(1, n, {}) : n \in SUBSET (P \cup {"r"})}
    [] World = "important"     -> {Plain(1, n, ni) : n \in SUBSET P, ni \in SUBSET P}
    [] World = "circumstances" -> {Plain(x, n, ni) : x \in {1, 2}, n \in SUBSET P, ni \in SUBSET {"p"}}
    [] World \in {"custom", "custom 1"} ->
         \* p set (perhaps through --x or --y), custom properties defined (perhaps through each other)
         {[None EXCEPT !.ctx = x, !.e = (n = {} /\ c = {}), !.n = n, !.c = c,
                       !.u = n \X uv, !.cu = (c \cap {"--x"}) \X cv]
            : x \in (IF World = "custom" THEN {1, 2} ELSE {1}), n \in SUBSET {"p"}, c \in SUBSET C, uv \in {{}, {"--x"}, {"--y"}}, cv \in {{}, {"--y"}}}
    [] World = "important custom" ->
         {[None EXCEPT !.ctx = 1, !.e = (n = {} /\ c = {}), !.n = n, !.ni = i \cap (n \cup c), !.c = c,
                       !.u = n \X uv, !.iu = (n \cap i) \X uv]
            : n \in SUBSET {"p"}, c \in SUBSET {"--x"}, i \in SUBSET {"p", "--x"}, uv \in {{}, {"--x"}}}

\* "a" may also be undefined
Tables == UNION {[D -> {[rule |-> r, decls |-> <<>>] : r \in Entries}] : D \in {Classes, Classes \ {CHOOSE c \in Classes : TRUE}}}
Lists == UNION {[1..k -> Classes] : k \in 0..MaxLen}

VARIABLES table, list, pos,
          normal, imp, custom,  \* <<property, circumstance>> -> the class that set it last
          kept, todo,           \* classes kept so far; custom properties whose definitions are needed
          phase
vars == <<table, list, pos, normal, imp, custom, kept, todo, phase>>

Empty == [k \in {} |-> ""]
Put(f, keys, c) == [k \in DOMAIN f \cup keys |-> IF k \in keys THEN c ELSE f[k]]

Init == /\ table \in Tables
        /\ list \in Lists
        /\ pos = 0
        /\ normal = Empty /\ imp = Empty /\ custom = Empty
        /\ kept = {} /\ todo = {}
        /\ phase = "scan"

\* read the next class
Scan == /\ phase = "scan" /\ pos < Len(list)
        /\ pos' = pos + 1
        /\ LET c == list[pos + 1] IN
           IF ~Known(table, list, pos + 1)
           THEN kept' = kept \cup {c} /\ UNCHANGED <<normal, imp, custom>>
           ELSE LET r == table[c].rule
                    keys(ps) == ps \X {r.ctx}
                IN /\ normal' = Put(normal, keys(r.n), c)
                   /\ imp'    = Put(imp, keys(r.ni), c)
                   /\ custom' = Put(custom, keys(r.c), c)
                   /\ UNCHANGED kept
        /\ UNCHANGED <<table, list, todo, phase>>

\* the last setters stay, and the custom properties they use are needed
Settle == /\ phase = "scan" /\ pos = Len(list)
          /\ kept' = kept \cup Range(normal) \cup Range(imp)
          /\ todo' = UNION {{x[2] : x \in {y \in table[normal[k]].rule.u : y[1] = k[1]}} : k \in DOMAIN normal}
                \cup UNION {{x[2] : x \in {y \in table[imp[k]].rule.iu : y[1] = k[1]}} : k \in DOMAIN imp}
          /\ phase' = "custom"
          /\ UNCHANGED <<table, list, pos, normal, imp, custom>>

\* fetch the definitions of one needed custom property
Fetch(v) == /\ phase = "custom" /\ v \in todo
            /\ LET ks == {k \in DOMAIN custom : k[1] = v} IN
               /\ kept' = kept \cup {custom[k] : k \in ks}
               /\ todo' = (todo \ {v}) \cup UNION {{x[2] : x \in {y \in table[custom[k]].rule.cu : y[1] = v}} : k \in ks}
               /\ custom' = [k \in DOMAIN custom \ ks |-> custom[k]]
            /\ UNCHANGED <<table, list, pos, normal, imp, phase>>

Finish == /\ phase = "custom" /\ todo = {}
          /\ phase' = "done"
          /\ UNCHANGED <<table, list, pos, normal, imp, custom, kept, todo>>

Next == Scan \/ Settle \/ Finish \/ \E v \in C : Fetch(v)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
(* What the algorithm returns is what Cascade says, in whatever order the  *)
(* custom properties are fetched; and it ends.                             *)
Result == InOrder(list, kept)
Refines == phase = "done" /\ Len(list) >= 2 => Result = Merged(table, list)
Ends == <>(phase = "done")

\* while scanning, the maps say who wins the list read so far
Prefix == SubSeq(list, 1, pos)
ScanOK == phase = "scan" =>
   \A i \in DOMAIN Prefix : Known(table, Prefix, i) =>
      /\ \A p \in Wins(table, Prefix, i) : normal[<<p, table[Prefix[i]].rule.ctx>>] = Prefix[i]
      /\ \A p \in WinsImp(table, Prefix, i) : imp[<<p, table[Prefix[i]].rule.ctx>>] = Prefix[i]

----------------------------------------------------------------------------
(* What the result is good for (stated over Cascade alone; evaluated once  *)
(* per table and list)                                                     *)

\* the class whose declaration of p takes effect in circumstance x, for the classes L in this order
Effective(t, L, x, p) ==
  LET S(k) == {i \in DOMAIN L : Known(t, L, i) /\ t[L[i]].rule.ctx = x /\ p \in (IF k THEN t[L[i]].rule.ni ELSE t[L[i]].rule.n \cup t[L[i]].rule.c)}
      last(s) == CHOOSE i \in s : \A j \in s : j <= i
  IN IF S(TRUE) # {} THEN L[last(S(TRUE))] ELSE IF S(FALSE) # {} THEN L[last(S(FALSE))] ELSE ""

Out == Merged(table, list)
Start == phase = "done" /\ Len(list) >= 2     \* (any one state of the run would do)

\* the style of the element is the same: every ordinary property, in every circumstance ...
StyleKept == Start => \A x \in {1, 2}, p \in P \cup {"r"} : Effective(table, Out, x, p) = Effective(table, list, x, p)
\* ... and every custom property that one in effect uses, directly or not
RECURSIVE Needed(_, _, _)
Needed(t, L, U) ==
  LET V == U \cup UNION {{y[2] : y \in {z \in t[Effective(t, L, x, v)].rule.cu : z[1] = v}}
                          : <<x, v>> \in {w \in {1, 2} \X U : Effective(t, L, w[1], w[2]) # ""}}
  IN IF V = U THEN U ELSE Needed(t, L, V)
UsedBy(t, L) ==
  Needed(t, L, UNION {{y[2] : y \in {z \in t[Effective(t, L, w[1], w[2])].rule.u : z[1] = w[2]}}
                       : w \in {w \in {1, 2} \X P : Effective(t, L, w[1], w[2]) # ""}})
VarsKept == Start => \A x \in {1, 2} : \A v \in UsedBy(table, list) :
                Effective(table, Out, x, v) = Effective(table, list, x, v)

Idempotent == Start => Merged(table, Out) = Out
\* any prefix may be merged first, provided there are no custom properties
Staged == Start /\ (\A c \in DOMAIN table : table[c].rule.c = {}) =>
            \A k \in 0..Len(list) :
               Merged(table, Merged(table, SubSeq(list, 1, k)) \o SubSeq(list, k + 1, Len(list))) = Out
\* no class without custom properties could be left out besides, without losing the last
\* setting of something
Minimal == Start => \A c \in Range(Out) :
             (c \in DOMAIN table /\ ~table[c].rule.e /\ table[c].rule.c = {}) =>
               LET rest == SelectSeq(list, LAMBDA d : d # c)
                   last(L, x, p, k) == LET s == {i \in DOMAIN L : Known(table, L, i) /\ table[L[i]].rule.ctx = x
                                                    /\ p \in (IF k THEN table[L[i]].rule.ni ELSE table[L[i]].rule.n)}
                                       IN IF s = {} THEN "" ELSE L[CHOOSE i \in s : \A j \in s : j <= i]
               IN \E x \in {1, 2}, p \in P \cup {"r"}, k \in BOOLEAN : last(rest, x, p, k) # last(list, x, p, k)
Unknowns == Start => Unknown(table, list) \subseteq Range(Out)
\* repeating a class does not matter but for where it counts: its last occurrence
Repeats == Start /\ Cardinality(Range(list)) >= 2 => Out = Merged(table, InOrder(list, Range(list)))
=============================================================================
