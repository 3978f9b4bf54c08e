------------------------------ MODULE Spellings ------------------------------
(***************************************************************************)
(* A few stylesheets as sequences of slots.  Every slot has all the ways   *)
(* to fill it that mean the same; the first is the plain one.  The harness *)
(* fills single slots and pairs of slots in all ways; whatever it puts     *)
(* there, Merge must do the same.                                          *)
(***************************************************************************)
EXTENDS Sheet, Json, IOUtils

Rule(sels, decls) == [t |-> "rule", sels |-> sels, decls |-> decls]
At(kind, cond, body) == [t |-> "at", kind |-> kind, cond |-> cond, body |-> body]
D(p) == [p |-> p, i |-> FALSE, vars |-> <<>>, val |-> ""]
DI(p) == [p |-> p, i |-> TRUE, vars |-> <<>>, val |-> ""]
DV(p, vs) == [p |-> p, i |-> FALSE, vars |-> vs, val |-> ""]
Class(c) == [k |-> "class", v |-> c]
Ps(v) == [k |-> "ps", v |-> v]
Attr(key, val) == [k |-> "attr", key |-> key, op |-> "=", val |-> val, i |-> FALSE]
Cmp(ps, pe) == [k |-> "cmp", parts |-> ps, pe |-> pe]
Comb(c, l, r) == [k |-> "comb", c |-> c, l |-> l, r |-> r]
Fn(v, args) == [k |-> "fn", v |-> v, args |-> args]

----------------------------------------------------------------------------
Comments == <<"/**/", "/* a */", "/*;}*/", "/*\"*/", "/*'*/", "/*{*/", "/***/", "/*\n*/", "/**//**/", "/*é*/", "/*\\*/", "/*/*/", "/*.a{color:red}*/">>
Spaces == <<" ", "\n", "\t", "\f", "\r", "\r\n", " \n ", "  ">>
Mixed == <<" /**/", "/**/ ", " /* x */ ", "\n/* ; */\r\n", "\f/*}*/\f">>

F(x) == <<x>>                                   \* fixed
O == <<"">> \o Spaces \o Comments \o Mixed       \* may be empty
S == <<" ">> \o Spaces \o Mixed                  \* whitespace is needed (descendants)
W == <<" ">> \o Spaces                           \* the same, no comments
OW == <<"">> \o Spaces                           \* no comments
M == <<" ">> \o Spaces \o Comments \o Mixed      \* something that separates words
Empty == <<".zz{}", "q{}", ".zz{ }", ".zz{/**/}", ".zz{;}", ".zz{}.zy{}", ".zz:hover{}", ".zz,.zy{}">>
B == O \o Empty \o <<" .zz{}\n", "/**/.zz{}", "@media print{}", "@media x{.zz{}}", "@supports (a:b){ }">>  \* between rules
Semi == <<";", ";;", " ;", "; ;", ";/**/;", "/**/;", ";\n", ";\r\n;", "\f;">>
EndS == <<"">> \o Semi \o <<" ", "/**/">>
Imp == <<"!important", " !important", "! important", "!IMPORTANT", "!Important", " ! important", "!\nimportant", "!/**/important", " /**/! /**/important", "!\timportant ", "!\r\nimportant\r\n", "! importanT", "!important/**/">>
K(xs) == xs                                      \* case

\* stylesheets: what they mean, and their slots
One ==
  [ sheet |-> <<At("media", "(min-width:640px)", <<Rule(<<Cmp(<<Class("a"), Ps("hover")>>, "")>>, <<D("color"), DI("width")>>)>>),
                Rule(<<Class("b"), Class("c")>>, <<D("width"), D("margin-top")>>),
                At("supports", "(display:grid)", <<At("media", "(min-width:640px)", <<Rule(<<Class("d")>>, <<D("color")>>), Rule(<<Cmp(<<Class("e"), Ps("hover")>>, "")>>, <<D("color"), D("width")>>)>>)>>),
                At("media", "(min-width:640px)", <<Rule(<<Cmp(<<Class("f"), Ps("hover")>>, "")>>, <<DI("color"), D("width")>>)>>),
                Rule(<<Class("g")>>, <<D("margin"), DI("width")>>)>>,
    slots |-> << B, K(<<"@media", "@MEDIA", "@Media", "@mediA">>), M, F("("), OW, F("min-width"), OW, F(":"), OW, F("640px"), OW, F(")"), O, F("{"), B, F(".a:hover"), O, F("{"), O,
                 K(<<"color", "COLOR", "Color", "cOLOR">>), O, F(":"), O, F("red"), O, Semi, O, K(<<"width", "WIDTH", "Width">>), O, F(":"), O, F("1px"), Imp, EndS, F("}"), B, F("}"), B,
                 F(".b"), O, F(","), O, F(".c"), O, F("{"), O, F("width:2px"), Semi, O, F("margin-top:"), O, F("0"), EndS, F("}"), B,
                 K(<<"@supports", "@SUPPORTS", "@Supports">>), M, F("(display"), OW, F(":"), OW, F("grid"), OW, F(")"), O, F("{"), B, F("@media"), M, F("(min-width:640px)"), O, F("{"), B,
                 F(".d"), O, F("{"), O, F("color:blue"), EndS, F("}"), B, F(".e:hover{color:red;width:1px}"), B, F("}"), B, F("}"), B,
                 F("@media (min-width:640px){.f:hover{color:blue"), Imp, Semi, F("width:3px}}"), B, F(".g{"), O, K(<<"margin", "MARGIN", "Margin">>), F(":"), O, F("0 auto"), Semi, F("width:0"), Imp, EndS, F("}"), B >> ]

Two ==
  [ sheet |-> <<Rule(<<Comb(" ", Class("dark"), Cmp(<<Class("a"), Attr("title", "x")>>, "before"))>>, <<D("color")>>),
                Rule(<<Comb(">", Cmp(<<Class("dark"), Class("b")>>, ""), [k |-> "tag", v |-> "p"]), Comb("~", Class("c"), Class("c2"))>>, <<D("width"), D("color")>>),
                Rule(<<Fn("is", <<Comb(" ", Class("dark"), Class("d")), Class("e")>>)>>, <<D("color")>>),
                Rule(<<Cmp(<<Class("f"), Fn("not", <<Ps("hover"), Ps("focus")>>), Ps("active")>>, "")>>, <<D("width")>>),
                Rule(<<Comb(" ", Class("dark"), Cmp(<<Class("g"), Attr("title", "x")>>, "before"))>>, <<D("color")>>),
                Rule(<<Comb(">", Cmp(<<Class("dark"), Class("h")>>, ""), [k |-> "tag", v |-> "p"])>>, <<D("width"), D("color")>>),
                Rule(<<Cmp(<<Class("i"), Ps("active"), Fn("not", <<Ps("hover"), Ps("focus")>>)>>, "")>>, <<D("width")>>)>>,
    slots |-> << B, F(".dark"), S, F(".a["), OW, F("title"), OW, F("="), OW, <<"\"x\"", "'x'", "x", "\"\\78\"", "'\\78 '">>, OW, F("]::before"), O, F("{color:red}"), B,
                 F(".dark.b"), O, F(">"), O, F("p"), O, F(","), O, F(".c"), O, F("~"), O, F(".c2"), O, F("{width:1px;"), O, F("color:red}"), B,
                 F(":is("), OW, F(".dark"), W, F(".d"), OW, F(","), OW, F(".e"), OW, F(")"), O, F("{color:red}"), B,
                 F(".f:not("), OW, F(":hover"), OW, F(","), OW, F(":focus"), OW, F("):active"), O, F("{width:1px}"), B,
                 F(".dark"), S, F(".g[title="), <<"\"x\"", "'x'", "x">>, F("]::before"), O, F("{color:blue}"), B,
                 F(".dark.h>p{width:2px;color:blue}"), B, F(".i:active:not(:hover,:focus){width:2px}"), B >> ]

Three ==
  [ sheet |-> <<Rule(<<Class("a")>>, <<DV("color", <<"--x">>), D("content")>>), Rule(<<Class("b")>>, <<D("--x")>>), Rule(<<Class("c")>>, <<DV("--x", <<"--y">>)>>),
                Rule(<<Class("d")>>, <<D("--y"), D("content")>>), Rule(<<Class("e")>>, <<D("--x"), D("background-image")>>), Rule(<<Class("f")>>, <<DI("color")>>),
                Rule(<<Class("g")>>, <<D("background")>>)>>,
    slots |-> << B, F(".a{color"), O, F(":"), O, F("var("), O, F("--x"), O, F(")"), O, Semi, O, F("content:"), O, <<"\"a;}\"", "'a;}'", "\"a;\\7d\"">>, EndS, F("}"), B,
                 F(".b{--x:"), OW, F("1px"), OW, Semi, F("}"), B, F(".c"), O, F("{"), O, F("--x:"), OW, F("calc(1px"), M, F("+"), M, F("var(--y"), OW, F(")"), OW, F(")"), <<";", " ;", ";;", "", " ">>, F("}"), B,
                 F(".d{--y:{a:b};"), O, F("content:'x'}"), B, F(".e{--x:;"), O, F("background-image:"), O, <<"url(a.png)", "url( a.png )", "url(\"a.png\")", "url('a.png')", "URL(a.png)", "url( 'a.png' )">>, EndS, F("}"), B,
                 F(".f{color:rgb("), O, F("0"), O, F(","), O, F("0"), O, F(","), O, F("0"), O, F(")"), Imp, EndS, F("}"), B, F(".g{background"), O, F(":"), O, F("0 0"), EndS, F("}"), B >> ]

Nth(a, b) == [k |-> "nth", a |-> a, b |-> b, last |-> FALSE, of |-> FALSE]
AttrI(key, val) == [k |-> "attr", key |-> key, op |-> "=", val |-> val, i |-> TRUE]
Tag(v) == [k |-> "tag", v |-> v]
Its == <<"\"it's\"", "'it\\'s'", "\"it\\27s\"", "'it\\000027s'", "\"it\\27 s\"", "\"i\\74 's\"", "'it\\27\ns'", "\"it\\'s\"", "\"i\\\nt's\"", "it\\'s", "it\\27s">>
OddStrings == <<"\"]{}; \\\"/*\"", "']{}; \"/*'", "\"]{}; \\22/*\"", "']{}\\3b  \"/*'", "\"\\]{}\\; \\22 /*\"">>
Four ==
  LET odd == "]{}; \"/*" IN
  [ sheet |-> <<Rule(<<Cmp(<<Class("a"), Attr("title", "it's"), Ps("hover")>>, "")>>, <<D("color")>>), Rule(<<Cmp(<<Class("b"), Attr("title", "it's"), Ps("hover")>>, "")>>, <<D("color")>>),
                Rule(<<Cmp(<<Class("c"), Attr("data-x", odd)>>, "")>>, <<D("width")>>), Rule(<<Cmp(<<Class("d"), Attr("data-x", odd)>>, "")>>, <<D("width")>>),
                Rule(<<Comb(">", Cmp(<<Class("e"), Nth(2, 1)>>, ""), Tag("p"))>>, <<D("color")>>), Rule(<<Comb(">", Cmp(<<Class("f"), Nth(2, 1)>>, ""), Tag("p"))>>, <<D("color")>>),
                Rule(<<Cmp(<<Class("g"), Ps("focus")>>, "before")>>, <<D("color")>>), Rule(<<Cmp(<<Class("h"), Ps("focus")>>, "before")>>, <<D("color")>>),
                Rule(<<Comb(" ", Cmp(<<Tag("div"), Class("i")>>, ""), Tag("a"))>>, <<D("color")>>), Rule(<<Comb(" ", Cmp(<<Tag("div"), Class("j")>>, ""), Tag("a"))>>, <<D("color")>>),
                Rule(<<Cmp(<<Class("k"), AttrI("lang", "en")>>, "")>>, <<D("color")>>), Rule(<<Cmp(<<Class("l"), AttrI("lang", "en")>>, "")>>, <<D("color")>>),
                Rule(<<Class("m:p-1.5")>>, <<D("padding")>>), Rule(<<Cmp(<<Class("m:p-1.5"), Fn("is", <<Class("o")>>), Fn("not", <<Fn("where", <<Ps("hover")>>)>>)>>, "")>>, <<D("padding")>>),
                Rule(<<Cmp(<<Class("n"), Fn("is", <<Class("o")>>), Fn("not", <<Fn("where", <<Ps("hover")>>)>>)>>, "")>>, <<D("padding")>>)>>,
    slots |-> << B, F(".a["), OW, K(<<"title", "TITLE", "Title", "\\74itle">>), OW, F("="), OW, Its, OW, F("]"), K(<<":hover", ":HOVER", ":Hover", ":\\68over">>), O, F("{color:red}"), B,
                 F(".b["), K(<<"title", "tiTle">>), F("="), Its, F("]:hover{color:blue}"), B,
                 F(".c[data-x="), OddStrings, OW, F("]{width:1px}"), B, F(".d[data-x="), OddStrings, F("]{width:2px}"), B,
                 F(".e:"), K(<<"nth-child", "NTH-CHILD", "Nth-Child">>), F("("), OW, K(<<"2n+1", "2N+1", "2n + 1", "2n +1", "2n+ 1", "+2n+1">>), OW, F(")"), O, F(">"), O, K(<<"p", "P">>), O, F("{color:red}"), B,
                 F(".f:nth-child("), K(<<"2n+1", "2n\n+\n1">>), F(")>p{color:blue}"), B,
                 F(".g:focus"), K(<<"::before", ":before", "::BEFORE", ":Before">>), O, F("{color:red}"), B, F(".h"), K(<<":focus", ":FOCUS">>), K(<<"::before", ":before">>), F("{color:blue}"), B,
                 K(<<"div", "DIV", "Div", "\\64iv">>), F(".i"), S, K(<<"a", "A", "\\61">>), O, F("{color:red}"), B, K(<<"div", "dIv">>), F(".j"), S, F("a{color:blue}"), B,
                 F(".k["), K(<<"lang", "LANG">>), F("="), K(<<"en", "'en'", "\"en\"">>), W, K(<<"i", "I">>), OW, F("]{color:red}"), B, F(".l[lang="), <<"en i", "\"en\"i", "'en'I", "en I ">>, F("]{color:blue}"), B,
                 K(<<".m\\:p-1\\.5", ".m\\3ap-1\\2e 5", ".m\\3A p-1\\.5", ".m\\00003Ap-1\\00002e5", ".\\6d\\:p\\-1\\.5", ".m\\3a\tp-1\\2e\n5">>), O, F("{padding:0}"), B,
                 K(<<".m\\:p-1\\.5", ".m\\3ap-1\\2e 5", ".m\\:\\70-1\\.5">>), K(<<":is", ":IS">>), F("("), OW, F(".o"), OW, F("):"), K(<<"not", "NOT">>), F("("), OW, F(":"), K(<<"where", "WHERE">>), F("("), OW, F(":hover"), OW, F(")"), OW, F(")"), O, F("{"), K(<<"padding", "p\\61 dding", "PADDING", "\\70\\61 dding">>), O, F(":1px}"), B,
                 F(".n:is(.o):not(:where(:hover)){padding:2px}"), B >> ]

World == <<One, Two, Three, Four>>
ASSUME JsonSerialize(IOEnv.OUT, World)

VARIABLE x
Spec == x = 0 /\ [][UNCHANGED x]_x
==============================================================================
