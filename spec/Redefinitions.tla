----------------------------- MODULE Redefinitions -----------------------------
(***************************************************************************)
(* A class that is defined twice.  All pairs of definitions that differ in *)
(* a little: in the at-rule around them, in the selector, in one           *)
(* declaration, in a value, in the importance.  The harness adds the first *)
(* and the second, in one stylesheet and in two, and merges the class with *)
(* others; Session knows that only the second definition counts.           *)
(* And definitions of other classes that look like definitions of this     *)
(* one: they change nothing.                                               *)
(***************************************************************************)
EXTENDS Sheet, Json, IOUtils

Rule(sels, decls) == [t |-> "rule", sels |-> sels, decls |-> decls]
At(kind, cond, it) == [t |-> "at", kind |-> kind, cond |-> cond, body |-> <<it>>]
D(p) == [p |-> p, i |-> FALSE, vars |-> <<>>, val |-> ""]
DI(p) == [p |-> p, i |-> TRUE, vars |-> <<>>, val |-> ""]
DV(p, v) == [p |-> p, i |-> FALSE, vars |-> <<v>>, val |-> ""]
Class(c) == [k |-> "class", v |-> c]
Ps(v) == [k |-> "ps", v |-> v]
Cmp(ps, pe) == [k |-> "cmp", parts |-> ps, pe |-> pe]
Fn(v, args) == [k |-> "fn", v |-> v, args |-> args]
Comb(c, l, r) == [k |-> "comb", c |-> c, l |-> l, r |-> r]

Wide == "(min-width:640px)"
Basic == <<D("color"), D("width")>>
Selectors(c) == {<<Class(c)>>, <<Cmp(<<Class(c), Ps("hover")>>, "")>>, <<Cmp(<<Class(c)>>, "before")>>, <<Comb(" ", Class("dark"), Class(c))>>,
                 <<Fn("is", <<Class(c)>>)>>, <<Class(c), Class("z")>>, <<Class("z"), Class(c)>>, <<Class(c), Cmp(<<Class(c), Ps("hover")>>, "")>>,
                 <<Cmp(<<Class(c), Class(c)>>, "")>>, <<Cmp(<<Class("z"), Class(c)>>, "")>>}
Declared == {<<>>, <<D("color")>>, <<D("width")>>, <<D("width"), D("color")>>, <<DI("color"), D("width")>>, <<D("color"), DI("width")>>, <<DV("color", "--x"), D("width")>>,
             <<D("--x")>>, <<D("--x"), D("color")>>, Basic \o Basic, <<DI("color"), D("width"), D("color")>>, <<D("border")>>, <<D("border-color")>>}

Variants(c) ==
  {Rule(<<Class(c)>>, Basic), At("media", Wide, Rule(<<Class(c)>>, Basic)), At("media", "print", Rule(<<Class(c)>>, Basic)), At("supports", Wide, Rule(<<Class(c)>>, Basic)),
   At("media", Wide, At("media", "print", Rule(<<Class(c)>>, Basic))), At("media", "", Rule(<<Class(c)>>, Basic)),
   At("media", Wide, Rule(<<Class(c)>>, <<DI("color"), D("width")>>)), At("media", Wide, Rule(<<Cmp(<<Class(c), Ps("hover")>>, "")>>, Basic))}
  \cup {Rule(s, Basic) : s \in Selectors(c)} \cup {Rule(<<Class(c)>>, ds) : ds \in Declared}

\* what mentions the class and does not define it, or defines another one
Others(c) ==
  {Rule(<<Class("A")>>, <<D("height")>>), Rule(<<Fn("not", <<Class(c)>>)>>, <<D("height")>>), Rule(<<Cmp(<<Class("z"), Fn("has", <<Class(c)>>)>>, "")>>, <<D("height")>>),
   Rule(<<Class(c \o c)>>, <<D("height")>>), Rule(<<[k |-> "id", v |-> c]>>, <<D("height")>>), Rule(<<[k |-> "tag", v |-> c]>>, <<D("height")>>)}

\* the classes it meets
Context ==
  <<Rule(<<Class("b")>>, <<D("color")>>), Rule(<<Class("c")>>, <<D("width")>>), At("media", Wide, Rule(<<Class("d")>>, Basic)),
    Rule(<<Cmp(<<Class("e"), Ps("hover")>>, "")>>, Basic), Rule(<<Class("f")>>, <<D("--x")>>), Rule(<<Class("g")>>, <<DI("color"), DI("width")>>),
    Rule(<<Cmp(<<Class("h")>>, "before")>>, Basic), Rule(<<Comb(" ", Class("dark"), Class("i"))>>, Basic), Rule(<<Class("j")>>, <<D("border-color"), D("color"), D("width")>>),
    Rule(<<Class("k")>>, <<DV("height", "--x")>>), At("media", "print", Rule(<<Class("l")>>, Basic))>>

Pairs == Variants("a") \X (Variants("a") \cup Others("a"))
ASSUME JsonSerialize(IOEnv.OUT, [context |-> Context, pairs |-> SetToSeq(Pairs), classes |-> <<"b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l">>])

VARIABLE x
Spec == x = 0 /\ [][UNCHANGED x]_x
================================================================================
