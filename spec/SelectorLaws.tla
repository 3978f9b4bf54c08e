----------------------------- MODULE SelectorLaws -----------------------------
(***************************************************************************)
(* Laws of matching and of specificity that follow from module Selectors,  *)
(* checked in all documents of a few nodes: the specification says what it *)
(* should.                                                                 *)
(***************************************************************************)
EXTENDS SelectorWorlds

VARIABLE d

Init == done = 0 /\ d \in Docs(1, Labels, Labels)
Next == /\ Len(d) <= n /\ UNCHANGED done
        /\ \E l \in Labels, p \in ({Len(d)} \cup Ancestors(d, Len(d))) \ {1} : d' = Append(d, Put(l, p))
Laws == Init /\ [][Next]_<<d, done>>

M(s) == Matches(d, s)
All == Elements(d)
Root == 2

ListLaws == \A x, y \in Simple :
  /\ M(Fn("is", <<x, y>>)) = M(x) \cup M(y)
  /\ M(Fn("where", <<x, y>>)) = M(Fn("is", <<x, y>>))
  /\ M(Fn("not", <<x, y>>)) = All \ (M(x) \cup M(y))
  /\ M(Fn("has", <<x, y>>)) = M(Fn("has", <<x>>)) \cup M(Fn("has", <<y>>))
  /\ M(Cmp(<<x, y>>)) = M(x) \cap M(y)

CombinatorLaws == \A x, y \in Few :
  /\ M(Comb(">", x, y)) \subseteq M(Comb(" ", x, y))
  /\ M(Comb("+", x, y)) \subseteq M(Comb("~", x, y))
  /\ \A c \in Combinators : M(Comb(c, x, y)) \subseteq M(y)
  /\ M(Comb(" ", x, y)) = M(y) \cap M(Fn("is", <<Comb(" ", x, Star)>>))
  \* x > * * and x * * : descent step by step
  /\ M(Comb(" ", x, y)) = M(Comb(">", x, y)) \cup M(Comb(" ", Comb(">", x, Star), y))
  /\ M(Comb("~", x, y)) = M(Comb("+", x, y)) \cup M(Comb("~", Comb("+", x, Star), y))

HasLaws == \A x, y \in Few :
  /\ M(Fn("has", <<x>>)) = {m \in All : \E k \in M(x) : m \in Ancestors(d, k)}
  /\ M(Fn("haschild", <<x>>)) = {Parent(d, k) : k \in M(x)} \ {1}
  /\ M(Fn("haschild", <<x>>)) \subseteq M(Fn("has", <<x>>))
  \* with a descendant of the element in front, not just any
  /\ M(Fn("has", <<Comb(" ", x, y)>>)) = M(Fn("has", <<Cmp(<<x, Fn("has", <<y>>)>>)>>))
  /\ M(Fn("has", <<Comb(">", x, y)>>)) = M(Fn("has", <<Cmp(<<x, Fn("haschild", <<y>>)>>)>>))

StructureLaws == \A l, o \in Bool :
  /\ M(NthS(2, 0, l, o)) \cup M(NthS(2, 1, l, o)) = All
  /\ M(NthS(2, 0, l, o)) \cap M(NthS(2, 1, l, o)) = {}
  /\ M(NthS(1, 0, l, o)) = All
  /\ M(NthS(-1, 3, l, o)) = M(NthS(0, 1, l, o)) \cup M(NthS(0, 2, l, o)) \cup M(NthS(0, 3, l, o))
  /\ M(NthS(3, -1, l, o)) = M(NthS(3, 2, l, o))
  /\ M(PsC(IF o THEN "only-of-type" ELSE "only-child")) = M(NthS(0, 1, FALSE, o)) \cap M(NthS(0, 1, TRUE, o))
  /\ M(PsC("root")) = {Root}
  /\ M(PsC("empty")) = All \ M(Fn("has", <<Star>>))

SpecificityLaws == \A x, y \in {<<a, b, c>> : a, b, c \in 0..2} :
  /\ ~Less(x, x)
  /\ Less(x, y) => ~Less(y, x)
  /\ x = y \/ Less(x, y) \/ Less(y, x)
  /\ \A z \in {<<a, b, c>> : a, b, c \in 0..1} : Less(x, y) => Less(Plus(x, z), Plus(y, z))
===============================================================================
