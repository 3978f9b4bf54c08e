------------------------------- MODULE Cascade -------------------------------
(***************************************************************************)
(* The meaning of Merge, stated without an algorithm: which classes of a   *)
(* list stay, given a rule table (see Sheet), and in which order.          *)
(***************************************************************************)
EXTENDS Sheet

\* the class at position i is defined and sets something
Known(t, L, i) == L[i] \in DOMAIN t /\ ~t[L[i]].rule.e
Unknown(t, L) == {L[i] : i \in {j \in DOMAIN L : ~Known(t, L, j)}}

\* the later positions that apply in the circumstance of position i
Rivals(t, L, i) == {j \in (i+1)..Len(L) : Known(t, L, j) /\ t[L[j]].rule.ctx = t[L[i]].rule.ctx}

\* what position i is the last to set
Wins(t, L, i)       == IF Known(t, L, i) THEN t[L[i]].rule.n  \ UNION {t[L[j]].rule.n  : j \in Rivals(t, L, i)} ELSE {}
WinsImp(t, L, i)    == IF Known(t, L, i) THEN t[L[i]].rule.ni \ UNION {t[L[j]].rule.ni : j \in Rivals(t, L, i)} ELSE {}
WinsCustom(t, L, i) == IF Known(t, L, i) THEN t[L[i]].rule.c  \ UNION {t[L[j]].rule.c  : j \in Rivals(t, L, i)} ELSE {}

\* custom properties used by what wins ...
Roots(t, L) ==
  UNION { {x[2] : x \in {y \in t[L[i]].rule.u  : y[1] \in Wins(t, L, i)}}
     \cup {x[2] : x \in {y \in t[L[i]].rule.iu : y[1] \in WinsImp(t, L, i)}}
          : i \in {j \in DOMAIN L : Known(t, L, j)} }

\* ... and, transitively, by the last definitions of those
RECURSIVE Reach(_, _, _)
Reach(t, L, U) ==
  LET V == U \cup UNION { {x[2] : x \in {y \in t[L[i]].rule.cu : y[1] \in U /\ y[1] \in WinsCustom(t, L, i)}}
                          : i \in {j \in DOMAIN L : Known(t, L, j)} }
  IN IF V = U THEN U ELSE Reach(t, L, V)

\* classes that stay for an ordinary or important property, and those that stay for a custom one
Winners(t, L) == {L[i] : i \in {j \in DOMAIN L : Wins(t, L, j) # {} \/ WinsImp(t, L, j) # {}}}
Providers(t, L) ==
  LET custom == {i \in DOMAIN L : WinsCustom(t, L, i) # {}} IN
  IF custom = {} THEN {}
  ELSE LET used == Reach(t, L, Roots(t, L)) IN {L[i] : i \in {j \in custom : WinsCustom(t, L, j) \cap used # {}}}

Kept(t, L) == Unknown(t, L) \cup Winners(t, L) \cup Providers(t, L)

\* the classes of K in the order of their last occurrences in L
InOrder(L, K) ==
  IF Cardinality(Range(L)) = Len(L) THEN SelectSeq(L, LAMBDA c : c \in K) ELSE  \* no class twice
  LET lasts == {i \in DOMAIN L : L[i] \in K /\ \A j \in (i+1)..Len(L) : L[j] # L[i]}
      idx == SetToSortSeq(lasts, <)
  IN [k \in DOMAIN idx |-> L[idx[k]]]

\* the result of Merge with keepSort
Merged(t, L) == IF Len(L) < 2 THEN L ELSE InOrder(L, Kept(t, L))
=============================================================================
