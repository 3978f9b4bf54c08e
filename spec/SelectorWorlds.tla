---------------------------- MODULE SelectorWorlds ----------------------------
(***************************************************************************)
(* Small worlds of documents and selectors: all documents of a few nodes   *)
(* and all selectors of a few ingredients.  TLC writes them to a file; the *)
(* library matches every selector in every document, and SelectorTrace     *)
(* judges the results.  The constants Small and Large of a world are the   *)
(* numbers of nodes in the quick and in the thorough tier.                 *)
(***************************************************************************)
EXTENDS Selectors, Json, IOUtils

Class(c) == [k |-> "class", v |-> c]
Tag(v) == [k |-> "tag", v |-> v]
PsC(v) == [k |-> "ps", v |-> v]
Cmp(ps) == IF Len(ps) = 1 THEN ps[1] ELSE [k |-> "cmp", parts |-> ps, pe |-> ""]
Star == Cmp(<<>>)
Fn(v, args) == [k |-> "fn", v |-> v, args |-> args]
Comb(c, l, r) == [k |-> "comb", c |-> c, l |-> l, r |-> r]
AttrS(key, op, val, i) == [k |-> "attr", key |-> key, op |-> op, val |-> val, i |-> i]
NthS(a, b, last, of) == [k |-> "nth", a |-> a, b |-> b, last |-> last, of |-> of]

Combinators == {" ", ">", "+", "~"}

----------------------------------------------------------------------------
(* Documents: all ways to hang nodes with the given labels below a root *)

DocNode == [t |-> "doc", p |-> 0, tag |-> "", attrs |-> <<>>, text |-> ""]
El(tag, attrs) == [t |-> "el", tag |-> tag, attrs |-> attrs, text |-> ""]
Attr(k, v) == [k |-> k, v |-> v]
Text(s) == [t |-> "text", tag |-> "", attrs |-> <<>>, text |-> s]
Comment == [t |-> "comment", tag |-> "", attrs |-> <<>>, text |-> "c"]

Put(label, p) == [t |-> label.t, p |-> p, tag |-> label.tag, attrs |-> label.attrs, text |-> label.text]

RECURSIVE Docs(_, _, _)
Docs(n, roots, labels) ==
  IF n = 1 THEN {<<DocNode, Put(r, 1)>> : r \in roots}
  ELSE UNION {{Append(d, Put(l, p)) : l \in labels,
                 p \in {m \in ({Len(d)} \cup Ancestors(d, Len(d))) \ {1} : d[m].t = "el"}} : d \in Docs(n - 1, roots, labels)}

UpTo(n, roots, labels) == UNION {Docs(k, roots, labels) : k \in 1..n}

\* a document with the given children of the root
Flat(root, kids) == <<DocNode, Put(root, 1)>> \o [i \in DOMAIN kids |-> Put(kids[i], 2)]

----------------------------------------------------------------------------
Bool == {TRUE, FALSE}

Simple == {Tag("p"), Class("a"), Star, NthS(0, 1, FALSE, FALSE), NthS(0, 1, TRUE, FALSE), NthS(2, 0, FALSE, FALSE), NthS(0, 1, FALSE, TRUE),
           NthS(-1, 2, TRUE, TRUE), PsC("only-child"), PsC("only-of-type"), PsC("empty"), PsC("root"), PsC("hover")}
Few == {Tag("p"), Class("a"), Star, NthS(0, 1, FALSE, FALSE)}
Three == {Tag("p"), Class("a"), Star}

Pairs(S, T) == {Comb(c, x, y) : c \in Combinators, x \in S, y \in T}
Functions == {"is", "where", "not", "has", "haschild"}

Structure ==
  Simple \cup Pairs(Simple, Few) \cup Pairs(Few, Simple) \cup {Cmp(<<x, y>>) : x \in {Tag("p"), Class("a")}, y \in Simple \ {Tag("p"), Star}}
  \cup {Comb(c, x, y) : c \in Combinators, x \in Pairs(Three, Three), y \in {Class("a"), Star}}

Nested ==
  {Fn(f, <<x>>) : f \in Functions, x \in Simple \cup Pairs(Few, Few)}
  \cup {Fn(f, <<x, y>>) : f \in Functions, x \in Three, y \in Simple}
  \cup {Fn(f, <<Fn(g, <<x>>)>>) : f \in Functions, g \in Functions, x \in Few \cup Pairs({Class("a")}, {Tag("p")})}
  \cup {Comb(c, Fn(f, <<x>>), y) : c \in Combinators, f \in {"is", "not", "has"}, x \in Three \cup Pairs({Class("a")}, {Tag("p")}), y \in {Tag("p"), Star}}
  \cup {Comb(c, y, Fn(f, <<x>>)) : c \in Combinators, f \in {"is", "not", "has"}, x \in Three \cup Pairs({Class("a")}, {Tag("p")}), y \in {Tag("p"), Star}}
  \cup {Cmp(<<Class("a"), Fn(f, <<x>>), Fn(g, <<y>>)>>) : f \in {"not", "has"}, g \in {"is", "not"}, x \in Three, y \in Pairs(Three, {Star})}
  \cup {Fn("has", <<Comb(c, x, y)>>) : c \in Combinators, x \in Pairs({Class("a"), Star}, {Tag("p")}), y \in {Class("a"), Star}}

Labels == {El("p", <<>>), El("b", <<>>), El("p", <<Attr("class", "a")>>), El("b", <<Attr("class", "a")>>)}

Texts == {El("p", <<>>), Text(" \n"), Text("x"), Comment, Text(" ")}
TextSelectors == {PsC("empty"), NthS(0, 1, FALSE, FALSE), NthS(0, 1, TRUE, FALSE), PsC("only-child"), NthS(2, 0, FALSE, TRUE), PsC("root"), Star,
                  NthS(0, 2, FALSE, FALSE), NthS(0, 2, TRUE, TRUE), PsC("only-of-type"), NthS(2, 1, TRUE, FALSE)}
                 \cup {Comb(c, Star, Star) : c \in Combinators} \cup {Fn(f, <<Star>>) : f \in Functions}
                 \cup {Fn("has", <<PsC("empty")>>), Fn("not", <<PsC("empty")>>), Fn("haschild", <<PsC("empty")>>), Fn("has", <<Fn("not", <<PsC("empty")>>)>>)}

Off(tag) == El(tag, <<Attr("disabled", "")>>)
Fieldsets == {El("fieldset", <<>>), Off("fieldset"), El("legend", <<>>), El("input", <<>>), El("div", <<>>)}
Options == {El("select", <<>>), Off("select"), El("optgroup", <<>>), Off("optgroup"), El("option", <<>>), Off("option"), Off("fieldset")}
States == {PsC("enabled"), PsC("disabled")}
Boxes == {El(t, a \o b) : t \in {"input", "option", "button", "menuitem"},
            a \in {<<>>, <<Attr("checked", "")>>, <<Attr("selected", "")>>, <<Attr("disabled", "x")>>},
            b \in {<<>>, <<Attr("type", "checkbox")>>, <<Attr("type", "RADIO")>>, <<Attr("type", "text")>>}}
         \cup {El(t, a) : t \in {"a", "area", "p", "textarea", "select", "optgroup", "fieldset", "legend"},
                 a \in {<<>>, <<Attr("href", "")>>, <<Attr("disabled", "disabled")>>}}

Ops == {"=", "!=", "~=", "|=", "^=", "$=", "*="}
RECURSIVE Strings(_, _)
Strings(n, alphabet) == IF n = 0 THEN {""} ELSE {""} \cup {s \o c : s \in Strings(n - 1, alphabet), c \in alphabet}
\* elements with all values of the attribute, in sixteen documents
AttrDocs(S) == LET s == SetToSeq(S) IN
  {Flat(El("p", <<>>), [i \in 1..((Len(s) - r + 16) \div 16) |-> El("p", <<Attr("x", s[16 * (i - 1) + r])>>)]) : r \in 1..16}
AttrSels(S) == {AttrS("x", op, v, i) : op \in Ops, v \in S, i \in Bool} \cup {AttrS("x", "", "", FALSE), AttrS("y", "", "", FALSE), AttrS("y", "!=", "a", FALSE)}

\* elements, attributes, classes and ids with names that are easily confused
NameStrings(n) == {a \o b : a \in {"k", "K", "ſ", "s", "İ", "i", "ı", "é", "É", "ß", "_", "o", "º"}, b \in Strings(n - 1, {"k", "K", "ſ", "-", "É", "é", "1", "e", "́"})}
NameDocs(S) == LET s == SetToSeq(S) IN
  {Flat(El("p", <<>>), [i \in 1..Len(s) |-> El(s[i], <<>>)]), Flat(El("p", <<>>), [i \in 1..Len(s) |-> El("p", <<Attr(s[i], "")>>)]),
   Flat(El("p", <<>>), [i \in 1..Len(s) |-> El("p", <<Attr("id", s[i])>>)]), Flat(El("p", <<>>), [i \in 1..Len(s) |-> El("p", <<Attr("class", s[i])>>)])}
NameSels(S) == {Tag(v) : v \in S} \cup {Class(v) : v \in S} \cup {AttrS(v, "", "", FALSE) : v \in S} \cup {[k |-> "id", v |-> v] : v \in S}
               \cup {AttrS(v, "", "", FALSE) : v \in {"K", "ÉK", "S", "ſK", "kK"}} \cup {Tag(v) : v \in {"K", "ÉK", "S", "ſK", "kK"}}
               \cup {Class(v) : v \in {"K", "S", "kK"}} \cup {[k |-> "id", v |-> v] : v \in {"K", "S", "kK"}}

Types == <<El("p", <<>>), El("b", <<>>), Text("x")>>
NthDocs(n) == {Flat(El("div", <<>>), k) : k \in UNION {[1..m -> Range(Types)] : m \in 0..n}}
NthSels == {NthS(a, b, l, o) : a \in -3..3, b \in -4..4, l \in Bool, o \in Bool}

n == atoi(IOEnv.SIZE)
Worlds(name) ==
  CASE name = "structure" -> [docs |-> UpTo(n, Labels, Labels), sels |-> Structure]
    [] name = "nested"    -> [docs |-> UpTo(n, Labels, Labels), sels |-> Nested]
    [] name = "text"      -> [docs |-> UpTo(n, {El("p", <<>>)}, Texts), sels |-> TextSelectors]
    [] name = "fieldsets" -> [docs |-> UpTo(n, {El("p", <<>>), Off("fieldset")}, Fieldsets), sels |-> States]
    [] name = "legends"   -> [docs |-> UpTo(n, {Off("fieldset")}, {Off("fieldset"), El("legend", <<>>), El("input", <<>>)}), sels |-> States]
    [] name = "options"   -> [docs |-> UpTo(n, {El("p", <<>>), Off("fieldset")}, Options), sels |-> States]
    [] name = "boxes"     -> [docs |-> UpTo(2, {El("p", <<>>)}, Boxes), sels |-> States \cup {PsC("checked"), PsC("link"), PsC("input")}]
    [] name = "attrs"     -> [docs |-> AttrDocs(Strings(n, {"a", "A", "-", " "})), sels |-> AttrSels(Strings(n, {"a", "A", "-", " "}))]
    [] name = "odd attrs" -> [docs |-> AttrDocs(Strings(n, {"k", "é", "\t", "É", "'"})), sels |-> AttrSels(Strings(n, {"k", "é", "\t", "É", "'"}))]
    [] name = "names"     -> [docs |-> NameDocs(NameStrings(n)), sels |-> NameSels(NameStrings(n))]
    [] name = "nth"       -> [docs |-> NthDocs(n), sels |-> NthSels]

W == Worlds(IOEnv.WORLD)
ASSUME JsonSerialize(IOEnv.OUT, [docs |-> SetToSeq(W.docs), sels |-> SetToSeq(W.sels)])

VARIABLE done
Spec == done = 0 /\ [][UNCHANGED done]_done
===============================================================================
