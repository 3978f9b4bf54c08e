-------------------------------- MODULE Worlds --------------------------------
(***************************************************************************)
(* Small worlds, to be tried exhaustively on the real library: all rules   *)
(* that can be made of a few ingredients, one class each.  TLC writes them *)
(* to a file; the harness lets the library merge every list of their       *)
(* classes up to some length, and Session judges the results.              *)
(***************************************************************************)
EXTENDS Sheet, Json, IOUtils

Decl(p, i, vars) == [p |-> p, i |-> i, vars |-> vars, val |-> ""]
Rule(s, ds) == [t |-> "rule", sels |-> <<s>>, decls |-> ds]
Within(kind, cond, it) == [t |-> "at", kind |-> kind, cond |-> cond, body |-> <<it>>]
Class(c) == [k |-> "class", v |-> c]
Ps(v) == [k |-> "ps", v |-> v]
Cmp(ps, pe) == IF Len(ps) = 1 /\ pe = "" THEN ps[1] ELSE [k |-> "cmp", parts |-> ps, pe |-> pe]
Fn(v, args) == [k |-> "fn", v |-> v, args |-> args]
Comb(c, l, r) == [k |-> "comb", c |-> c, l |-> l, r |-> r]
Attr(key) == [k |-> "attr", key |-> key, op |-> "", val |-> "", i |-> FALSE]
Tag(v) == [k |-> "tag", v |-> v]
Star(pe) == [k |-> "cmp", parts |-> <<>>, pe |-> pe]

----------------------------------------------------------------------------
(* Declarations: all choices of one alternative for each property *)

RECURSIVE Options(_)
Options(alts) == IF alts = <<>> THEN {<<>>}
                 ELSE {Head(alts)[k] \o r : k \in DOMAIN Head(alts), r \in Options(Tail(alts))}

N(p) == <<Decl(p, FALSE, <<>>)>>
I(p) == <<Decl(p, TRUE, <<>>)>>
V(p, v) == <<Decl(p, FALSE, v)>>
IV(p, v) == <<Decl(p, TRUE, v)>>
No == <<>>

DeclWorlds ==
  [ plain     |-> Options(<< <<No, N("margin-top")>>, <<No, N("margin")>>, <<No, N("margin-left")>>, <<No, N("color")>> >>),
    overlap   |-> Options(<< <<No, N("border-top-color")>>, <<No, N("border-color")>>, <<No, N("border-top")>>, <<No, N("border")>> >>),
    deep      |-> Options(<< <<No, N("background-position-x")>>, <<No, N("background-position")>>, <<No, N("background")>>, <<No, N("background-color")>> >>),
    important |-> Options(<< <<No, N("color"), I("color"), N("color") \o I("color"), I("color") \o N("color")>>,
                             <<No, N("width"), I("width")>> >>),
    shortimp  |-> Options(<< <<No, N("border"), I("border")>>, <<No, N("border-top"), I("border-top")>>,
                             <<No, N("border-top-width"), I("border-top-width")>> >>),
    custom    |-> Options(<< <<No, N("color"), V("color", <<"--x">>), V("color", <<"--y">>)>>,
                             <<No, N("--x"), V("--x", <<"--y">>)>>,
                             <<No, N("--y")>> >>),
    cycle     |-> Options(<< <<No, V("color", <<"--x">>), V("color", <<"--x", "--y">>)>>,
                             <<No, N("--x"), V("--x", <<"--y">>), V("--x", <<"--x">>)>>,
                             <<No, N("--y"), V("--y", <<"--x">>)>> >>),
    customimp |-> Options(<< <<No, V("color", <<"--x">>), IV("color", <<"--x">>)>>,
                             <<No, V("width", <<"--x">>)>>,
                             <<No, N("--x"), I("--x"), N("--x") \o I("--x")>> >>),
    longvars  |-> {V("color", <<"--a">>), V("color", <<"--d">>), N("color"), V("--a", <<"--b">>), N("--a"), V("--b", <<"--c">>), V("--c", <<"--d">>),
                   N("--d"), V("--d", <<"--a">>), IV("color", <<"--b">>)} ]

Number(S) == SetToSeq(S)

Names == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
Name(i) == Names[((i - 1) % 26) + 1] \o IF i > 26 THEN ToString((i - 1) \div 26) ELSE ""

OfDecls(S) == LET s == Number(S \ {<<>>}) IN [i \in DOMAIN s |-> Rule(Class(Name(i)), s[i])]

----------------------------------------------------------------------------
(* Circumstances: one property, in every circumstance of a few ingredients *)

Stacks == {<<>>} \cup {<<a>> : a \in {"A", "B", "S"}} \cup {<<a, b>> : a \in {"A", "B", "S"}, b \in {"A", "B", "S"}}
Wrap1(x, it) == CASE x = "A" -> Within("media", "(min-width:640px)", it)
                  [] x = "B" -> Within("media", "print", it)
                  [] x = "S" -> Within("supports", "(min-width:640px)", it)
                  [] x = "" -> Within("media", "", it)
RECURSIVE Wrap(_, _)
Wrap(st, it) == IF st = <<>> THEN it ELSE Wrap1(Head(st), Wrap(Tail(st), it))

Pseudos == {<<>>, <<Ps("hover")>>, <<Ps("focus")>>, <<Ps("hover"), Ps("focus")>>, <<Ps("focus"), Ps("hover")>>,
            <<Ps("hover"), Ps("hover")>>, <<Fn("not", <<Ps("hover")>>)>>, <<Fn("is", <<Ps("hover")>>)>>,
            <<Fn("is", <<Ps("hover"), Ps("focus")>>)>>}
Pel(v) == [k |-> "pel", v |-> v]
PelPseudos == {<<Pel("-webkit-scrollbar")>>, <<Ps("hover"), Pel("-webkit-scrollbar")>>, <<Pel("-webkit-scrollbar"), Ps("hover")>>,
               <<Pel("-webkit-scrollbar"), Ps("hover"), Ps("focus")>>, <<Pel("-webkit-scrollbar"), Ps("focus"), Ps("hover")>>,
               <<Ps("focus"), Pel("-webkit-scrollbar"), Ps("hover")>>, <<Pel("-webkit-scrollbar-thumb")>>,
               <<Pel("-moz-placeholder")>>, <<Ps("-moz-placeholder")>>, <<Ps("hover")>>, <<Ps("focus"), Ps("hover"), Pel("-webkit-scrollbar")>>,
               <<Ps("hover"), Ps("focus"), Pel("-webkit-scrollbar")>>, <<>>}
Elements == {"", "before", "after"}

Plains(i) == {Wrap(st, Rule(Cmp(<<Class(Name(i))>> \o ps, pe), N("color"))) : st \in Stacks, ps \in Pseudos, pe \in Elements}

Forms(c) ==
  LET x == Class(c) IN
  { Comb(" ", Class("dark"), x), Comb(">", Class("dark"), x), Comb(" ", x, Class("dark")),
    Comb(" ", Class("group"), x), Comb(" ", Cmp(<<Class("group"), Ps("hover")>>, ""), x),
    Comb(" ", Class("dark"), Cmp(<<x, Ps("hover")>>, "")), Comb(" ", Cmp(<<Class("dark"), Ps("hover")>>, ""), x),
    Comb(" ", Class("dark"), Cmp(<<x>>, "before")), Comb(" ", x, Star("before")),
    Comb(">", x, Tag("p")), Comb("+", x, Tag("p")), Comb("~", x, Tag("p")), Comb(" ", x, Tag("p")),
    Comb(">", x, Comb(" ", Tag("p"), Tag("b"))),
    Cmp(<<x, Class("open")>>, ""), Cmp(<<Class("open"), x>>, ""), Cmp(<<Tag("p"), x>>, ""), Cmp(<<x, Attr("open")>>, ""),
    Cmp(<<x, Attr("open")>>, "before"), Cmp(<<x, Attr("open"), Ps("hover")>>, ""), Cmp(<<x, Ps("hover"), Attr("open")>>, ""),
    Fn("is", <<Comb(" ", Class("dark"), x)>>), Fn("where", <<Comb(" ", Class("dark"), x)>>),
    Fn("where", <<x>>), Fn("is", <<x>>), Cmp(<<x, Fn("not", <<Class("dark")>>)>>, ""), Cmp(<<x, Fn("has", <<Class("dark")>>)>>, ""),
    Cmp(<<x, Fn("is", <<Comb(" ", Class("dark"), Star(""))>>)>>, ""),
    Cmp(<<Fn("is", <<Class("dark"), x>>), Ps("hover")>>, ""),
    Comb(">", Comb(" ", Class("dark"), Tag("div")), x), Comb(" ", Comb(">", Class("dark"), Tag("div")), x),
    Comb(">", x, Star("")), Cmp(<<Fn("not", <<Attr("hidden")>>), x>>, ""), Cmp(<<x, Fn("not", <<Attr("hidden")>>)>>, "") }

Circumstances(stacks, pseudos, elements) ==
  LET S == Number({<<st, ps, pe>> : st \in stacks, ps \in pseudos, pe \in elements})
  IN [i \in 1..Len(S) |-> Wrap(S[i][1], Rule(Cmp(<<Class(Name(i))>> \o S[i][2], S[i][3]), N("color")))]

Structures(stacks) ==
  LET F == Number(Forms("HOLE"))
      RECURSIVE Put(_, _)
      Put(s, c) == LET P(y) == Put(y, c) IN
         CASE s.k = "class" -> IF s.v = "HOLE" THEN Class(c) ELSE s
           [] s.k = "cmp"   -> [s EXCEPT !.parts = MapSeq(P, s.parts)]
           [] s.k = "comb"  -> [s EXCEPT !.l = Put(s.l, c), !.r = Put(s.r, c)]
           [] s.k = "fn"    -> [s EXCEPT !.args = MapSeq(P, s.args)]
           [] OTHER -> s
      St == Number(stacks)
      n == Len(F)
  IN [i \in 1..(2 * n * Len(St)) |->
        LET f == F[((i - 1) % n) + 1]
            st == St[(((i - 1) \div n) % Len(St)) + 1]
        IN Wrap(st, Rule(Put(f, Name(i)), N("color")))]

\* the same few declarations in each of a few circumstances
Crossed(S, stacks, pseudos) ==
  LET T == Number({<<ds, st, ps>> : ds \in S, st \in stacks, ps \in pseudos})
  IN [i \in 1..Len(T) |-> Wrap(T[i][2], Rule(Cmp(<<Class(Name(i))>> \o T[i][3], ""), T[i][1]))]

----------------------------------------------------------------------------
(* Conditions that look much alike; each twice, with different classes      *)

Features == <<"(min-width:640px)", "(min-width:641px)", "(min-width:640em)", "(max-width:640px)", "(min-height:640px)", "(min-width:64px)", "(min-width:6400px)",
              "(width:640px)", "(width>=640px)", "(width<=640px)", "(width>640px)", "(color)", "(min-color:1)", "(orientation:portrait)", "(orientation:landscape)">>
Queries == <<"print", "screen", "all", "not print", "not screen", "only screen", "print,screen", "print,not screen", "not print,screen", "(color)and (hover)", "(color),(hover)", "(color)or (hover)",
             "not (color)", "not all and (color)", "print and (color)", "screen and (color)", "not print and (color)", "print and (color)and (hover)", "print,(color)",
             "(not (color))and (hover)", "not ((color)and (hover))", "((color)or (hover))and (width:1px)", "(color)or ((hover)and (width:1px))">>
Declared == <<"(a:b)", "(a:B)", "(a:b c)", "(a:bc)", "(a:b,c)", "(ab:c)", "not (a:b)", "(a:b)and (c:d)", "(a:b)or (c:d)", "(not (a:b))and (c:d)", "not ((a:b)and (c:d))", "(--a:b)", "(--A:b)", "(--a:B)",
              "(a:'b c')", "(a:'b  c')", "(a:'bc')", "(a:'b')", "(a:b)and (c:d)and (e:f)", "((a:b)and (c:d))or (e:f)", "(a:b)and ((c:d)or (e:f))",
              "(a:#b)", "(a:#B)", "(a:url(b))", "(a:url(B))", "(a:1)", "(a:-1)", "(a:1 -1)", "(a:1.0)", "(a:1%)", "(a:'(')", "(a:')')", "(a:'{')", "(a:'}')">>
Selected == <<".x", ".X", "#x", "x", "[x]", ":x", "::x", ".x .y", ".x.y", ".x>.y", ".x+.y", ".x~.y", ".x *", ".x,.y", ".y .x", "[x=y]", "[x='y']", "[x='Y']", "[x='y z']", "[x='yz']", "[x=y i]",
              ":is(.x .y)", ":is(.x.y)", ":is(.x,.y)", ":not(.x,.y)", ":is(.x) .y", ":is(.x).y", ":nth-child(2n+1)", ":nth-child(2n -1)", "x y", "xy", ".\\78", ".x *:hover", ".x:hover", ".x *::before", ".x::before">>
Conditions ==
  LET item(n, k, c) == Within(k, c, Rule(Class(n), N("color")))
      twice(tag, k, cs) == [i \in 1..2 * Len(cs) |-> item(tag \o ToString(i), k, cs[(i + 1) \div 2])]
  IN twice("m", "media", Features \o Queries \o <<"(a:b)", "selector(.x)">>) \o twice("s", "supports", Declared \o <<"(min-width:640px)", "(color)">>)
     \o twice("t", "supports", [i \in DOMAIN Selected |-> "selector(" \o Selected[i] \o ")"])

----------------------------------------------------------------------------
(* Large rules: many declarations, uses, selectors, conditions, parts       *)

Sizes == <<9, 17, 33, 65, 130, 260>>
P(k) == "p" \o ToString(k)
Many(n, F(_)) == [k \in 1..n |-> F(k)]
LargeRules ==
  LET r(c, n, ds) == Rule(Class(c \o ToString(n)), ds)
      each(n) == << r("s", n, Many(n, LAMBDA k : Decl(P(k), FALSE, <<>>))),
                    r("l", n, N(P(n))), r("i", n, Many(n, LAMBDA k : Decl(P(k), k = n, <<>>))), r("j", n, Many(n, LAMBDA k : Decl(P(n + 1 - k), k = n, <<>>))),
                    r("r", n, Many(n, LAMBDA k : Decl("color", FALSE, <<>>)) \o N(P(n))), r("t", n, Many(n, LAMBDA k : Decl("color", k = n, <<>>))) >>
  IN FlattenSeq(MapSeq(each, Sizes)) \o << Rule(Class("c"), N("color")), Rule(Class("q"), I("color")) >>
LargeUses ==
  LET C(k) == "--c" \o ToString(k)
      r(c, n, ds) == Rule(Class(c \o ToString(n)), ds)
      each(n) == << r("u", n, V("color", Many(n, C))), r("d", n, N(C(n))), r("m", n, Many(n, LAMBDA k : Decl(C(k), FALSE, <<C(k + 1)>>))),
                    r("n", n, Many(n, LAMBDA k : Decl(C(n + 1 - k), FALSE, <<C(n + 2 - k)>>))), r("e", n, N(C(n + 1))) >>
  IN FlattenSeq(MapSeq(each, SubSeq(Sizes, 1, 5)))
LargeChain ==
  LET C(k) == "--c" \o ToString(k)
  IN << Rule(Class("u"), V("color", <<C(1)>>)), Rule(Class("v"), V("width", <<C(1)>>)), Rule(Class("w"), N("width")) >>
     \o [k \in 1..140 |-> Rule(Class("c" \o ToString(k)), V(C(k), <<C(k + 1)>>))]
LargeLists ==
  LET many(n, c) == [t |-> "rule", sels |-> [k \in 1..n |-> IF k = n THEN Class(c \o ToString(n)) ELSE Class("x" \o ToString(k))], decls |-> N("color")]
      is(n, c) == Rule(Cmp(<<Fn("is", [k \in 1..n |-> IF k = n THEN Class(c \o ToString(n)) ELSE Class("y" \o ToString(k))])>>, ""), N("width"))
  IN FlattenSeq(MapSeq(LAMBDA n : <<many(n, "a"), is(n, "b"), many(n, "c"), is(n, "d")>>, Sizes))
RECURSIVE Deep(_, _, _)
Deep(k, n, it) == IF k > n THEN it ELSE Within("media", "(width:" \o ToString(k) \o "px)", Deep(k + 1, n, it))
RECURSIVE Nested(_, _, _)
Nested(n, f, s) == IF n = 0 THEN s ELSE Nested(n - 1, f, Fn(f, <<s>>))
LargeNests ==
  LET parts(n, c) == Cmp(<<Class(c \o ToString(n))>> \o Many(n, LAMBDA k : Fn("not", <<Class("x" \o ToString(k))>>)), "")
      back(n, c) == Cmp(<<Class(c \o ToString(n))>> \o Many(n, LAMBDA k : Fn("not", <<Class("x" \o ToString(n + 1 - k))>>)), "")
      RECURSIVE row(_, _)
      row(n, s) == IF n = 0 THEN s ELSE row(n - 1, Comb(">", s, Tag("p")))
      each(n) == << Deep(1, n, Rule(Class("a" \o ToString(n)), N("color"))), Deep(1, n, Rule(Class("b" \o ToString(n)), N("color"))),
                    Rule(parts(n, "c"), N("color")), Rule(parts(n, "d"), N("color")), Rule(back(n, "e"), N("color")),
                    Rule(Cmp(<<Class("f" \o ToString(n)), Nested(n, "not", Ps("hover"))>>, ""), N("color")), Rule(Cmp(<<Class("g" \o ToString(n)), Nested(n, "not", Ps("hover"))>>, ""), N("color")),
                    Rule(Nested(n, "is", Class("h" \o ToString(n))), N("color")), Rule(Nested(n, "is", Class("i" \o ToString(n))), N("color")),
                    Rule(row(n, Class("j" \o ToString(n))), N("color")), Rule(row(n, Class("k" \o ToString(n))), N("color")) >>
  IN FlattenSeq(MapSeq(each, <<8, 9, 17, 33, 65>>))

----------------------------------------------------------------------------
Worlds ==
  [ w \in DOMAIN DeclWorlds |-> OfDecls(DeclWorlds[w]) ] @@
  [ media      |-> Circumstances(Stacks \cup {<<"">>, <<"", "A">>}, {<<>>, <<Ps("hover")>>}, {""}),
    pseudo     |-> Circumstances({<<>>, <<"A">>}, Pseudos, Elements),
    scrollbars |-> Circumstances({<<>>, <<"A">>}, PelPseudos, {""}),
    customctx  |-> Crossed({V("color", <<"--x">>), N("color"), N("--x"), V("--x", <<"--y">>), N("--y")}, {<<>>, <<"A">>}, {<<>>, <<Ps("hover")>>}),
    mixed      |-> Crossed({N("color"), I("color"), N("color") \o I("width"), N("width") \o I("color"), I("width")},
                           {<<>>, <<"A">>}, {<<>>, <<Ps("hover")>>}),
    conditions |-> Conditions,
    large      |-> LargeRules,
    uses       |-> LargeUses,
    chain      |-> LargeChain,
    lists      |-> LargeLists,
    nests      |-> LargeNests,
    structures |-> Structures({<<>>}),
    nested     |-> Structures({<<>>, <<"A">>}) ]

RECURSIVE ClassOf(_)
ClassOf(it) == IF it.t = "at" THEN ClassOf(it.body[1]) ELSE
               LET cs == ClassesOf(it.sels[Len(it.sels)])
                   own == SelectSeq(cs, LAMBDA c : c \notin {"dark", "group", "open"})
               IN own[Len(own)]

Wanted == IOEnv.WORLD
ASSUME JsonSerialize(IOEnv.OUT, [sheet |-> Worlds[Wanted], classes |-> MapSeq(ClassOf, Worlds[Wanted])])

VARIABLE x
Spec == x = 0 /\ [][UNCHANGED x]_x
===============================================================================
