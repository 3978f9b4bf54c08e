-------------------------------- MODULE Tokens --------------------------------
(***************************************************************************)
(* Stylesheets as sequences of pieces of text ("tokens"), and a machine    *)
(* that reads them.  While the pieces fit together (the sequence is        *)
(* regular) the machine builds the items the text means; once they do not, *)
(* the text is anything at all, of which only is known that it must be     *)
(* survived.                                                               *)
(*                                                                         *)
(* Next to it runs the machine of the implementation (ExtractRules), fed   *)
(* with the grammar events of the pieces.  It must come to the same rules. *)
(***************************************************************************)
EXTENDS Cascade

Class(c) == [k |-> "class", v |-> c]
Hover(c) == [k |-> "cmp", parts |-> <<Class(c), [k |-> "ps", v |-> "hover"]>>, pe |-> ""]
Bad == [k |-> "bad", v |-> ""]
Decl(p, i, vars, val) == [p |-> p, i |-> i, vars |-> vars, val |-> val]

\* rules, by the piece that opens them
Openers == [ x \in {"a{", "b{", "ab{", "ah{", "p{", "x{", "xb{", "ax{", "axb{"} |->
  CASE x = "a{"  -> <<Class("a")>>
    [] x = "b{"  -> <<Class("b")>>
    [] x = "ab{" -> <<Class("a"), Class("b")>>
    [] x = "ah{" -> <<Hover("a")>>
    [] x = "p{"  -> <<[k |-> "tag", v |-> "p"]>>
    [] x = "x{"  -> <<Bad>>
    [] x = "xb{" -> <<Bad, Class("b")>>
    [] x = "ax{" -> <<Class("a"), Bad>>
    [] x = "axb{" -> <<Class("a"), Bad, Class("b")>> ]
\* at-rules that count, that are empty of meaning, that have to be skipped
Conds == [ x \in {"m{", "s{", "e{"} |->
  CASE x = "m{" -> <<"media", "print">> [] x = "s{" -> <<"supports", "(x:y)">> [] x = "e{" -> <<"media", "">> ]
Skips == {"f{", "g{", "l{", "k{", "u{"}
DeclSkips == {"f{", "g{"}      \* contain declarations
Decls == [ x \in {"red", "width", "imp", "def", "use"} |->
  CASE x = "red"   -> Decl("color", FALSE, <<>>, "red")
    [] x = "width" -> Decl("width", FALSE, <<>>, "1px")
    [] x = "imp"   -> Decl("color", TRUE, <<>>, "blue!important")
    [] x = "def"   -> Decl("--x", FALSE, <<>>, "1")
    [] x = "use"   -> Decl("color", FALSE, <<"--x">>, "var(--x)") ]

\* how each piece is written
Regular ==
     ("a{" :> ".a{") @@ ("b{" :> ".b {") @@ ("ab{" :> ".a, .b{") @@ ("ah{" :> ".a:hover{") @@ ("p{" :> "p{")
  @@ ("x{" :> ".a:zz{") @@ ("xb{" :> ".a:zz,.b{") @@ ("ax{" :> ".a,.b::zz{") @@ ("axb{" :> ".a,:zz,.b{")
  @@ ("m{" :> "@media print{") @@ ("s{" :> "@supports (x:y) {") @@ ("e{" :> "@media{")
  @@ ("f{" :> "@font-face{") @@ ("g{" :> "@page :first{") @@ ("l{" :> "@layer x{") @@ ("k{" :> "@keyframes k{") @@ ("u{" :> "@zz (x) y{")
  @@ ("red" :> "color:red;") @@ ("width" :> "width:1px;") @@ ("imp" :> "color:blue!important;") @@ ("def" :> "--x:1;") @@ ("use" :> "color:var(--x);")
  @@ ("}" :> "}") @@ (";" :> ";") @@ ("i;" :> "@import \"x\";") @@ ("c" :> "/*}*/")

Wild == {"{", "(", ")", "[", "]", "\"", "'", "\n", "/*", "*/", "/", "\\", "\\\n", "<!--", "-->", "<!", "color", "color:", ":", ",", "!", "!important",
         "@", "@media", "@media ", "@supports(", "@font-face", ".", ".a", ".a.", "#", "*", "*color:1;", "url(", "url(\"", "var(", "u+", "%", "1", "-", "--", "--x", "--x:", "+", ">", "~", "&", "|", "=",
         ":is(", ":not(.a", "::before", ".a:hover:", "[x", ".\\61 ", "progid:", "filter:progid(", "\t", " ", "color:red", "{}", "}}", "(}", "[}", "é", "\\"}

\* where pieces may stand: a text before and one after; a piece may also be the end of the text
Contexts == { <<"", ".z{top:0}">>, <<".a", "{color:red}">>, <<".a ", " .b{color:red}">>, <<".a, ", ", .b{color:red}">>, <<".a:not(", "){color:red}">>, <<".a:is(.b ", "){color:red}">>,
              <<".a:nth-child(", "){color:red}">>, <<".a:contains(", "){color:red}">>, <<".a:matches(", "){color:red}">>, <<".a:lang(", "){color:red}">>,
              <<".a[", "]{color:red}">>, <<".a[x=", "]{color:red}">>, <<".a[x=\"", "\"]{color:red}">>, <<".a[x|=y", "]{color:red}">>, <<".a::", "{color:red}">>, <<".a:", "{color:red}">>,
              <<".a{", "}">>, <<".a{color:red;", "}">>, <<".a{color", ":red}">>, <<".a{color:", "}">>, <<".a{color:red", ";width:1px}">>, <<".a{color:rgb(", ")}">>, <<".a{color:\"", "\"}">>,
              <<".a{color:red!", "}">>, <<".a{--x", ":1}">>, <<".a{--x:", "}">>, <<".a{--x:1", ";color:red}">>, <<".a{--x:{", "}}">>, <<".a{color:var(--", ")}">>, <<".a{color:var(--x,", ")}">>,
              <<".a{background:url(", ")}">>, <<".a{background:url('", "')}">>, <<"@media ", "{.a{color:red}}">>, <<"@media (", "){.a{color:red}}">>, <<"@media x{", "}">>, <<"@media x{.a{color:red}", "}">>,
              <<"@supports ", "{.a{color:red}}">>, <<"@", "{.a{color:red}}">>, <<"@x ", ";.a{color:red}">>, <<"@x{", "}">>, <<"@x{.a{", "}}">>, <<"@font-face{", "}">>, <<"@font-face{a:b;", "}">>,
              <<"@page ", "{a:b}">>, <<"@keyframes k{from{", "}}">>, <<"/*", "*/">>, <<"<!--", "-->">>, <<"@media x{@media y{.a{color:", "}}}">>, <<".a{&:hover{", "}}">>, <<".a{color:red}}", ".b{color:red}">> }

Text(t) == IF t \in DOMAIN Regular THEN Regular[t] ELSE t
All == DOMAIN Regular \cup Wild

----------------------------------------------------------------------------
(* The machine.  A frame is an open block. *)

Frame(k, what) == [k |-> k, what |-> what, items |-> <<>>, decls |-> <<>>]
Start == [fr |-> <<Frame("top", "")>>, reg |-> TRUE]

Top(st) == st.fr[Len(st.fr)]
Push(st, f) == [st EXCEPT !.fr = Append(@, f)]
Upper(st, F(_)) == [st EXCEPT !.fr[Len(st.fr)] = F(@)]

\* the item a closed block is
ItemOf(f) ==
  CASE f.k = "rule" -> [t |-> "rule", sels |-> Openers[f.what], decls |-> f.decls]
    [] f.k = "at"   -> [t |-> "at", kind |-> Conds[f.what][1], cond |-> Conds[f.what][2], body |-> f.items]
    [] f.k = "skip" -> [t |-> "junk"]

Pop(st) ==
  LET f == Top(st)
      n == Len(st.fr) - 1
  IN [st EXCEPT !.fr = [SubSeq(st.fr, 1, n) EXCEPT ![n].items = Append(@, ItemOf(f))]]

\* what pieces fit where
InBlock(f) == f.k \in {"top", "at"} \/ (f.k = "skip" /\ f.what \notin DeclSkips)
InDecls(f) == f.k = "rule" \/ (f.k = "skip" /\ f.what \in DeclSkips)

Fits(f, t) ==
  \/ t = "c"
  \/ (t \in DOMAIN Openers \cup DOMAIN Conds \cup Skips \cup {"i;"}) /\ InBlock(f)
  \/ (t \in DOMAIN Decls \cup {";"}) /\ InDecls(f)
  \/ t = "}" /\ f.k # "top"

Read(st, t) ==
  IF ~st.reg \/ ~Fits(Top(st), t) THEN [st EXCEPT !.reg = FALSE]
  ELSE CASE t \in {"c", ";", "i;"} -> st
         [] t \in DOMAIN Openers -> Push(st, Frame("rule", t))
         [] t \in DOMAIN Conds   -> Push(st, Frame("at", t))
         [] t \in Skips          -> Push(st, Frame("skip", t))
         [] t \in DOMAIN Decls   -> LET Add(f) == [f EXCEPT !.decls = Append(@, Decls[t])] IN Upper(st, Add)
         [] t = "}"              -> Pop(st)

Complete(st) == st.reg /\ Len(st.fr) = 1
Items(st) == st.fr[1].items

ReadAll(toks) == FoldLeft(Read, Start, toks)

----------------------------------------------------------------------------
(* The implementation's machine, on the events of the css parser *)

\* the events of a piece
Events(t) ==
  CASE t \in DOMAIN Openers -> LET s == Openers[t] IN
          [i \in DOMAIN s |-> IF i < Len(s) THEN <<"qualified", s[i]>> ELSE <<"begin rule", s[i]>>]
    [] t \in DOMAIN Conds -> << <<"begin at", Conds[t]>> >>
    [] t \in Skips -> << <<"begin at", <<"">> >> >>
    [] t \in DOMAIN Decls -> << <<"decl", Decls[t]>> >>
    [] OTHER -> <<>>

Extract0 == [ignore |-> 0, skipped |-> 0, conds |-> <<>>, sels |-> <<>>, cur |-> <<>>, at |-> {}, decls |-> <<>>, rules |-> <<>>]

Extract(a, e) ==
  IF a.ignore > 0 THEN
     CASE e[1] = "begin at" -> [a EXCEPT !.ignore = @ + 1]
       [] e[1] = "end at"   -> [a EXCEPT !.ignore = @ - 1]
       [] OTHER -> a
  ELSE IF a.skipped > 0 THEN
     CASE e[1] = "begin rule" -> [a EXCEPT !.skipped = @ + 1]
       [] e[1] = "end rule"   -> [a EXCEPT !.skipped = @ - 1]
       [] OTHER -> a
  ELSE CASE e[1] = "begin at" -> IF e[2] = <<"">> THEN [a EXCEPT !.ignore = 1] ELSE [a EXCEPT !.conds = Append(@, e[2])]
         [] e[1] = "end at"   -> [a EXCEPT !.conds = SubSeq(@, 1, Len(@) - 1)]
         [] e[1] = "qualified" -> [a EXCEPT !.sels = Append(@, e[2])]
         [] e[1] = "begin rule" ->
              LET good == SelectSeq(Append(a.sels, e[2]), LAMBDA s : s.k # "bad")
              IN [a EXCEPT !.sels = <<>>, !.cur = good, !.decls = <<>>, !.skipped = IF good = <<>> THEN 1 ELSE 0,
                           !.at = {c \in Range(a.conds) : c[2] # ""}]
         [] e[1] = "decl" -> [a EXCEPT !.decls = Append(@, e[2])]
         [] e[1] = "end rule" -> [a EXCEPT !.rules = @ \o [i \in DOMAIN a.cur |-> <<a.cur[i], a.at, a.decls>>]]

\* the event of a closing brace depends on what it closes
EventsIn(st, t) == IF t = "}" THEN << <<IF Top(st).k = "rule" THEN "end rule" ELSE "end at">> >> ELSE Events(t)

\* both machines side by side
Both(x, t) == LET nx == Read(x.st, t)
              IN [st |-> nx, alg |-> IF nx.reg THEN FoldLeft(Extract, x.alg, EventsIn(x.st, t)) ELSE x.alg]

----------------------------------------------------------------------------
(* The stylesheets before and after *)

Rule(c, ds) == [t |-> "rule", sels |-> <<Class(c)>>, decls |-> ds]
Green == Decl("color", FALSE, <<>>, "green")
Thick == Decl("width", FALSE, <<>>, "9px")
Tall == Decl("height", FALSE, <<>>, "9px")
Base == <<Rule("a", <<Tall>>), Rule("b", <<Thick>>), Rule("g", <<Green>>), Rule("h", <<Thick>>)>>
Good == <<Rule("h", <<Green, Thick>>), Rule("g", <<Thick>>), Rule("b", <<Green>>), Rule("a", <<Tall, Green>>)>>
Lists == << <<"a", "b", "g", "h">>, <<"h", "g", "b", "a">>, <<"g", "a", "h", "b">>, <<"b", "a">>, <<"a", "b", "a", "g">> >>
===============================================================================
