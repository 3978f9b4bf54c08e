------------------------------ MODULE Selectors ------------------------------
(***************************************************************************)
(* What selectors mean: which elements of a document they match (Selectors *)
(* Level 4, HTML for the states of form controls), and their specificity.  *)
(*                                                                         *)
(* A document is the sequence of its nodes in document order, the first of *)
(* which is the document itself.  A node is a record                       *)
(*   t     "doc", "el", "text" or "comment"                                *)
(*   p     the index of its parent (0 for the document)                    *)
(*   tag   the name of an element                                          *)
(*   attrs its attributes, a sequence of records k, v                      *)
(*   text  the characters of a text                                        *)
(* Selectors are the trees of module Sheet, and "ext" v: an extension of   *)
(* the library with a matching of its own, such as :contains(x).           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Parent(d, n) == d[n].p
Elements(d) == {n \in DOMAIN d : d[n].t = "el"}
IsEl(d, n) == n > 0 /\ d[n].t = "el"

RECURSIVE Ancestors(_, _)
Ancestors(d, n) == IF n = 0 \/ Parent(d, n) = 0 THEN {} ELSE {Parent(d, n)} \cup Ancestors(d, Parent(d, n))
Children(d, n) == {m \in DOMAIN d : d[m].p = n}
Siblings(d, n) == {m \in Elements(d) : d[m].p = d[n].p}   \* with n itself
Before(d, n) == {m \in Siblings(d, n) : m < n}
After(d, n) == {m \in Siblings(d, n) : m > n}
Adjacent(d, n) == {m \in Before(d, n) : \A k \in Before(d, n) : k <= m}

----------------------------------------------------------------------------
(* Texts *)

Char(s, i) == SubSeq(s, i, i)
IsSpace(c) == c \in {" ", "\t", "\n", "\r", "\f"}
Blankish(s) == \A i \in 1..Len(s) : IsSpace(Char(s, i))

Upper == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Small == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
LowerOf == [c \in Range(Upper) |-> Small[CHOOSE i \in 1..26 : Upper[i] = c]]
RECURSIVE Lower(_)
Lower(s) == IF s = "" THEN "" ELSE
  LET c == Char(s, 1) IN (IF c \in DOMAIN LowerOf THEN LowerOf[c] ELSE c) \o Lower(SubSeq(s, 2, Len(s)))

\* the words of s that begin at or after position i
RECURSIVE Words(_, _)
Words(s, i) ==
  IF i > Len(s) THEN {}
  ELSE IF IsSpace(Char(s, i)) THEN Words(s, i + 1)
  ELSE LET ends == {j \in i..Len(s) : IsSpace(Char(s, j))}
           e == IF ends = {} THEN Len(s) + 1 ELSE CHOOSE j \in ends : \A k \in ends : j <= k
       IN {SubSeq(s, i, e - 1)} \cup Words(s, e)

IsPrefix2(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
IsSuffix2(a, b) == Len(a) <= Len(b) /\ SubSeq(b, Len(b) - Len(a) + 1, Len(b)) = a
Within(a, b) == \E i \in 1..(Len(b) - Len(a) + 1) : SubSeq(b, i, i + Len(a) - 1) = a

----------------------------------------------------------------------------
(* Attributes *)

Has(d, n, k) == \E i \in DOMAIN d[n].attrs : d[n].attrs[i].k = k
Value(d, n, k) == d[n].attrs[CHOOSE i \in DOMAIN d[n].attrs : d[n].attrs[i].k = k].v

\* the operators; v is the value of the attribute, w the one in the selector.
\* (The tests of the library want the last three to match no value of nothing but whitespace.)
Compare(op, v, w) ==
  CASE op = "="  -> v = w
    [] op = "~=" -> w \in Words(v, 1)
    [] op = "|=" -> v = w \/ IsPrefix2(w \o "-", v)
    [] op = "^=" -> w # "" /\ ~Blankish(v) /\ IsPrefix2(w, v)
    [] op = "$=" -> w # "" /\ ~Blankish(v) /\ IsSuffix2(w, v)
    [] op = "*=" -> w # "" /\ ~Blankish(v) /\ Within(w, v)

AttrMatch(d, n, s) ==
  LET k == Lower(s.key) IN
  CASE s.op = ""   -> Has(d, n, k)
    [] s.op = "!=" -> ~(Has(d, n, k) /\ (IF s.i THEN Lower(Value(d, n, k)) = Lower(s.val) ELSE Value(d, n, k) = s.val))
    [] OTHER       -> /\ Has(d, n, k)
                      /\ IF s.i THEN Compare(s.op, Lower(Value(d, n, k)), Lower(s.val))
                                ELSE Compare(s.op, Value(d, n, k), s.val)

----------------------------------------------------------------------------
(* Structure *)

\* n is the i-th of its siblings (of its type, from the end)
Position(d, n, last, of) ==
  LET S == IF last THEN After(d, n) ELSE Before(d, n)
  IN 1 + Cardinality({m \in S : ~of \/ d[m].tag = d[n].tag})

\* there is a k >= 0 with a * k + b = i
Nth(a, b, i) == IF a = 0 THEN i = b
                ELSE IF a > 0 THEN i >= b /\ (i - b) % a = 0
                ELSE b >= i /\ (b - i) % (-a) = 0

Empty(d, n) == \A m \in Children(d, n) : d[m].t = "comment" \/ (d[m].t = "text" /\ Blankish(d[m].text))

----------------------------------------------------------------------------
(* Form controls *)

FirstLegend(d, f) ==
  LET L == {m \in Children(d, f) : IsEl(d, m) /\ d[m].tag = "legend"}
  IN {m \in L : \A k \in L : m <= k}

InDisabledFieldset(d, n) ==
  \E f \in Ancestors(d, n) :
    /\ IsEl(d, f) /\ d[f].tag = "fieldset" /\ Has(d, f, "disabled")
    /\ FirstLegend(d, f) \cap (Ancestors(d, n) \cup {n}) = {}

Disabled(d, n) ==
  CASE d[n].tag \in {"button", "input", "select", "textarea", "fieldset"} -> Has(d, n, "disabled") \/ InDisabledFieldset(d, n)
    [] d[n].tag \in {"optgroup", "menuitem"} -> Has(d, n, "disabled")
    [] d[n].tag = "option" -> \/ Has(d, n, "disabled")
                              \/ LET g == Parent(d, n) IN IsEl(d, g) /\ d[g].tag = "optgroup" /\ Has(d, g, "disabled")
    [] OTHER -> FALSE

Controls == {"button", "input", "select", "textarea", "fieldset", "optgroup", "menuitem", "option"}
Enabled(d, n) ==
  CASE d[n].tag \in Controls -> ~Disabled(d, n)
    [] d[n].tag \in {"a", "area", "link"} -> Has(d, n, "href")      \* as in older versions of HTML
    [] OTHER -> FALSE

Checked(d, n) ==
  CASE d[n].tag \in {"input", "menuitem"} ->
         Has(d, n, "checked") /\ Has(d, n, "type") /\ Lower(Value(d, n, "type")) \in {"checkbox", "radio"}
    [] d[n].tag = "option" -> Has(d, n, "selected")
    [] OTHER -> FALSE

\* the pseudo-classes without arguments; those that depend on a user or a browser never apply to a document
Ps(d, n, v) ==
  CASE v = "empty"        -> Empty(d, n)
    [] v = "root"         -> d[Parent(d, n)].t = "doc"
    [] v = "only-child"   -> Siblings(d, n) = {n}
    [] v = "only-of-type" -> {m \in Siblings(d, n) : d[m].tag = d[n].tag} = {n}
    [] v = "enabled"      -> Enabled(d, n)
    [] v = "disabled"     -> Disabled(d, n)
    [] v = "checked"      -> Checked(d, n)
    [] v = "link"         -> d[n].tag \in {"a", "area", "link"} /\ Has(d, n, "href")
    [] v = "input"        -> d[n].tag \in {"input", "select", "textarea", "button"}
    [] OTHER              -> FALSE

----------------------------------------------------------------------------
(* Matching *)

\* whether s matches the node n; with a # 0 (in :has) its leftmost compound has to match a descendant of a
RECURSIVE MatchIn(_, _, _, _)
Match(d, n, s) == MatchIn(d, n, s, 0)
MatchIn(d, n, s, a) ==
  IF ~IsEl(d, n) THEN FALSE ELSE
  IF s.k = "comb" THEN
    /\ MatchIn(d, n, s.r, 0)
    /\ \E m \in (CASE s.c = " " -> Ancestors(d, n) [] s.c = ">" -> {Parent(d, n)}
                   [] s.c = "~" -> Before(d, n)    [] s.c = "+" -> Adjacent(d, n)) : MatchIn(d, m, s.l, a)
  ELSE
    /\ a # 0 => a \in Ancestors(d, n)
    /\ CASE s.k = "tag"   -> d[n].tag = Lower(s.v)
         [] s.k = "id"    -> Has(d, n, "id") /\ Value(d, n, "id") = s.v
         [] s.k = "class" -> Has(d, n, "class") /\ s.v \in Words(Value(d, n, "class"), 1)
         [] s.k = "attr"  -> AttrMatch(d, n, s)
         [] s.k = "nth"   -> Nth(s.a, s.b, Position(d, n, s.last, s.of))
         [] s.k = "ps"    -> Ps(d, n, s.v)
         [] s.k = "pel"   -> FALSE
         [] s.k = "cmp"   -> \A i \in DOMAIN s.parts : MatchIn(d, n, s.parts[i], 0)
         [] s.k = "fn" /\ s.v \in {"is", "where"} -> \E i \in DOMAIN s.args : MatchIn(d, n, s.args[i], 0)
         [] s.k = "fn" /\ s.v = "not" -> \A i \in DOMAIN s.args : ~MatchIn(d, n, s.args[i], 0)
         [] s.k = "fn" /\ s.v = "has" -> \E i \in DOMAIN s.args, m \in n..Len(d) :
                                            n \in Ancestors(d, m) /\ MatchIn(d, m, s.args[i], n)
         [] s.k = "fn" /\ s.v = "haschild" -> \E i \in DOMAIN s.args, m \in Children(d, n) : MatchIn(d, m, s.args[i], 0)

Matches(d, s) == {n \in DOMAIN d : Match(d, n, s)}

\* whether the matching of s is specified here
RECURSIVE Specified(_)
Specified(s) ==
  CASE s.k = "cmp"  -> \A i \in DOMAIN s.parts : Specified(s.parts[i])
    [] s.k = "comb" -> Specified(s.l) /\ Specified(s.r)
    [] s.k = "fn"   -> \A i \in DOMAIN s.args : Specified(s.args[i])
    [] OTHER        -> s.k # "ext"

----------------------------------------------------------------------------
(* Specificity *)

Less(x, y) == \/ x[1] < y[1]
              \/ x[1] = y[1] /\ x[2] < y[2]
              \/ x[1] = y[1] /\ x[2] = y[2] /\ x[3] < y[3]

Plus(x, y) == <<x[1] + y[1], x[2] + y[2], x[3] + y[3]>>
Most(S) == CHOOSE x \in S : \A y \in S : ~Less(x, y)

RECURSIVE Specificity(_)
Specificity(s) ==
  CASE s.k = "id"    -> <<1, 0, 0>>
    [] s.k \in {"class", "attr", "ps", "nth", "ext"} -> <<0, 1, 0>>
    [] s.k \in {"tag", "pel"} -> <<0, 0, 1>>
    [] s.k = "comb"  -> Plus(Specificity(s.l), Specificity(s.r))
    [] s.k = "cmp"   -> Plus(FoldLeft(LAMBDA x, p : Plus(x, Specificity(p)), <<0, 0, 0>>, s.parts),
                             IF s.pe = "" THEN <<0, 0, 0>> ELSE <<0, 0, 1>>)
    [] s.k = "fn"    -> IF s.v = "where" THEN <<0, 0, 0>>
                        ELSE Most({Specificity(s.args[i]) : i \in DOMAIN s.args})

\* the pseudo-element a selector is about
RECURSIVE Element(_)
Element(s) == CASE s.k = "comb" -> Element(s.r) [] s.k = "cmp" -> s.pe [] OTHER -> ""
==============================================================================
