------------------------------ MODULE Structures ------------------------------
(***************************************************************************)
(* All selectors up to a size, by structure: what may stand where in a     *)
(* compound, on the sides of combinators, in :is(), :where(), :not() and   *)
(* :has().  Every class is a hole "#".  The harness makes rules of each:   *)
(* for every hole two with different classes in it (and the same classes   *)
(* in the others) and two with one class in all of them, lets the library  *)
(* read them, and records the rules registered and what Merge makes of all *)
(* the classes; Session judges.                                            *)
(***************************************************************************)
EXTENDS Sheet, Json, IOUtils

Hole == [k |-> "class", v |-> "#"]
Ps(v) == [k |-> "ps", v |-> v]
Cmp(ps, pe) == IF Len(ps) = 1 /\ pe = "" THEN ps[1] ELSE [k |-> "cmp", parts |-> ps, pe |-> pe]
Fn(v, args) == [k |-> "fn", v |-> v, args |-> args]
Comb(c, l, r) == [k |-> "comb", c |-> c, l |-> l, r |-> r]
Attr(key) == [k |-> "attr", key |-> key, op |-> "", val |-> "", i |-> FALSE]
Text == [k |-> "attr", key |-> "title", op |-> "=", val |-> ".#", i |-> FALSE] \* a string with the text of the class of one of the two rules
Tag(v) == [k |-> "tag", v |-> v]
Star == [k |-> "cmp", parts |-> <<>>, pe |-> ""]

Functions == {"is", "where", "not", "has"}
Combinators == {" ", ">", "+", "~"}

Simple == {Hole, Ps("hover"), Attr("open"), Text, Tag("p")}
\* arguments of functional pseudo-classes
Args0 == { <<Hole>>, <<Tag("p")>>, <<Ps("hover")>>, <<Hole, Hole>>, <<Text, Hole>>, <<Ps("focus"), Hole>>,
           <<Cmp(<<Hole, Hole>>, "")>>, <<Cmp(<<Hole, Ps("hover")>>, "")>>, <<Cmp(<<Ps("hover"), Ps("focus")>>, "")>> }
   \cup { <<Comb(c, Hole, Hole)>> : c \in Combinators }
   \cup { <<Comb(" ", Hole, Star)>>, <<Comb(" ", Star, Hole)>>, <<Comb(">", Tag("p"), Hole)>>, <<Comb(" ", Hole, Comb(">", Hole, Hole))>>,
          <<Comb(" ", Comb(">", Hole, Hole), Hole)>>, <<Hole, Comb("~", Hole, Ps("hover"))>> }
Fns0 == { Fn(f, a) : f \in Functions, a \in Args0 }
Args1 == { <<x>> : x \in { y \in Fns0 : Len(y.args) = 1 } } \cup { <<Cmp(<<Hole, x>>, "")>> : x \in Fns0 } \cup { <<Comb(" ", x, Hole)>> : x \in Fns0 }
Fns1 == { Fn(f, a) : f \in Functions, a \in Args1 }

\* a type selector only comes first
Pairs(A, B) == { <<a, b>> : a \in A, b \in B \ {Tag("p")} }
Few == {Hole, Ps("hover"), Fn("is", <<Hole>>), Fn("where", <<Comb(" ", Hole, Hole)>>), Fn("not", <<Hole>>), Fn("is", <<Ps("focus")>>), Attr("open"), Text}
Elements == {"", "before", "placeholder"}

Compounds == { Cmp(<<x>>, pe) : x \in Simple \cup Fns0, pe \in Elements }
        \cup { Cmp(p, "") : p \in Pairs(Simple \cup Fns0, Simple) \cup Pairs(Simple, Fns0) \cup Pairs(Few, Few) }
        \cup { Cmp(<<p[1], p[2], x>>, pe) : p \in Pairs(Few, Few), x \in Few, pe \in {"", "after"} }
Deep == { Cmp(<<x>>, "") : x \in Fns1 } \cup { Cmp(<<Hole, x>>, "") : x \in Fns1 }
Two == { Comb(c, l, r) : c \in Combinators, l \in Simple \cup Fns0, r \in Few \cup {Star} }
  \cup { Comb(c, l, r) : c \in {">"}, l \in Few, r \in Simple \cup Fns0 }
  \cup { Comb(" ", l, Cmp(<<r>>, "before")) : l \in Few, r \in Few }
Three == { Comb(c, Comb(d, x, y), z) : c \in {" ", ">"}, d \in {" ", "~"}, x \in Few, y \in Few, z \in Few }

\* large ones: long compounds, lists of arguments and chains, deep nesting, with the class at the end, at the start, in the middle or in two places
Rep(v, n) == [i \in 1..n |-> v]
RECURSIVE Chain(_, _, _), Nest(_, _, _)
Chain(c, l, n) == IF n = 0 THEN l ELSE Comb(c, Chain(c, l, n - 1), Tag("p"))
Nest(f, s, n) == IF n = 0 THEN s ELSE Fn(f, <<Nest(f, s, n - 1)>>)
Sizes == {7, 8, 9, 15, 16, 17, 31, 33, 64, 65}
Sides(v, n) == { Rep(v, n) \o <<Hole>>, <<Hole>> \o Rep(v, n), Rep(v, n) \o <<Hole>> \o Rep(v, n), <<Hole>> \o Rep(v, n) \o <<Hole>> }
Large == { Cmp(p, pe) : p \in UNION { Sides(v, n) : v \in {Ps("hover"), Attr("open")}, n \in Sizes }, pe \in {"", "before"} }
    \cup { Cmp(Rep(Hole, n), "") : n \in {7, 9} }
    \cup { Fn(f, a) : f \in {"is", "where"}, a \in UNION { Sides(v, n) : v \in {Tag("p"), Ps("focus")}, n \in Sizes } }
    \cup { Cmp(<<Hole, Fn(f, Rep(Tag("p"), n))>>, "") : f \in {"not", "has"}, n \in Sizes }
    \cup { Chain(c, x, n) : c \in Combinators, x \in {Hole, Comb(" ", Tag("p"), Hole)}, n \in Sizes }
    \cup { Comb(c, Chain(c, Tag("p"), n), Hole) : c \in Combinators, n \in Sizes }
    \cup { Comb(">", Chain(c, Hole, n), Hole) : c \in Combinators, n \in Sizes }
    \cup { Nest(f, x, n) : f \in {"is", "where"}, x \in {Hole, Comb(" ", Hole, Tag("p")), Cmp(<<Ps("hover"), Hole>>, "")}, n \in {n \in Sizes : n < 20} }

HasHole(s) == LET RECURSIVE H(_)
                  H(x) == CASE x.k = "class" -> TRUE
                            [] x.k = "cmp" -> \E i \in DOMAIN x.parts : H(x.parts[i])
                            [] x.k = "fn"  -> \E i \in DOMAIN x.args : H(x.args[i])
                            [] x.k = "comb" -> H(x.l) \/ H(x.r)
                            [] OTHER -> FALSE
              IN H(s)

All == [compounds |-> Compounds, deep |-> Deep, two |-> Two, three |-> Three, large |-> Large]
Wanted == { s \in All[IOEnv.WORLD] : HasHole(s) }
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(Wanted))
ASSUME PrintT(<<"SELECTORS", Cardinality(Wanted)>>)

VARIABLE x
Spec == x = 0 /\ [][UNCHANGED x]_x
===============================================================================
