-------------------------------- MODULE Sheet --------------------------------
(***************************************************************************)
(* What a stylesheet means to a Merger: the rule table.                    *)
(*                                                                         *)
(* A stylesheet is a sequence of items (records with a field "t"):         *)
(*   "rule"  sels: sequence of selectors, decls: sequence of declarations  *)
(*   "at"    kind: "media" | "supports", cond, body: sequence of items     *)
(*   other   anything that has to be ignored (unsupported at-rules, ...)   *)
(* A selector is a tree of records with a field "k":                       *)
(*   "class"/"tag"/"id" v;  "attr" key, op, val, i;  "ps" v;               *)
(*   "nth" a, b, last, of;  "fn" v: "is"|"where"|"not"|"has", args;        *)
(*   "pel" v: a pseudo-element that pseudo-classes may follow;             *)
(*   "cmp" parts, pe (pseudo-element or "");  "comb" c, l, r;              *)
(*   "bad" v: a selector that is not supported.                            *)
(* A declaration is a record p (property), i (important), vars (custom     *)
(* properties used), val (text).                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt, PropTable

MapSeq(F(_), s) == TLCEval([i \in DOMAIN s |-> F(s[i])])       \* (evaluated at once: nested calls would be exponential)

IsCustom(p) == Len(p) >= 2 /\ SubSeq(p, 1, 2) = "--"

----------------------------------------------------------------------------
(* Selectors *)

\* the classes a selector defines, in the order of the text
RECURSIVE ClassesOf(_)
ClassesOf(s) ==
  CASE s.k = "class" -> <<s.v>>
    [] s.k = "cmp"   -> FlattenSeq(MapSeq(ClassesOf, s.parts))
    [] s.k = "comb"  -> ClassesOf(s.l) \o ClassesOf(s.r)
    [] s.k = "fn" /\ s.v \in {"is", "where"} -> FlattenSeq(MapSeq(ClassesOf, s.args))
    [] OTHER -> <<>>

IsPseudo(s) == s.k \in {"ps", "nth", "fn", "pel"}

\* nothing but pseudo-classes, at any depth of :is() and :where()
RECURSIVE OnlyPseudo(_)
OnlyPseudo(s) ==
  CASE s.k = "cmp"  -> \A i \in DOMAIN s.parts : OnlyPseudo(s.parts[i])
    [] s.k = "comb" -> OnlyPseudo(s.l) /\ OnlyPseudo(s.r)
    [] s.k = "fn" /\ s.v \in {"is", "where"} -> \A i \in DOMAIN s.args : OnlyPseudo(s.args[i])
    [] OTHER -> IsPseudo(s)

\* a class with pseudo-classes and a pseudo-element, if any
IsPlain(s) ==
  \/ s.k = "class"
  \/ /\ s.k = "cmp"
     /\ Len(s.parts) > 0
     /\ s.parts[1].k = "class"
     /\ \A i \in 2..Len(s.parts) : OnlyPseudo(s.parts[i])

\* the selector without the first class c of those that it defines
RECURSIVE Blank(_, _)
Blank(s, c) ==
  LET Defines(x) == \E i \in DOMAIN ClassesOf(x) : ClassesOf(x)[i] = c
      First(q) == LET i == CHOOSE i \in DOMAIN q : Defines(q[i]) /\ \A j \in 1..(i - 1) : ~Defines(q[j])
                  IN [q EXCEPT ![i] = Blank(q[i], c)]
  IN CASE s.k = "class" -> [k |-> "hole"]
       [] s.k = "cmp"   -> [s EXCEPT !.parts = First(s.parts)]
       [] s.k = "fn"    -> [s EXCEPT !.args = First(s.args)]
       [] s.k = "comb"  -> IF Defines(s.l) THEN [s EXCEPT !.l = Blank(s.l, c)] ELSE [s EXCEPT !.r = Blank(s.r, c)]

Bag(s) == {<<x, Cardinality({i \in DOMAIN s : s[i] = x})>> : x \in Range(s)}

\* pseudo-classes may stand in any order, but not on the other side of a pseudo-element
RECURSIVE Segments(_)
Segments(s) ==
  IF \E i \in DOMAIN s : s[i].k = "pel"
  THEN LET i == CHOOSE i \in DOMAIN s : s[i].k = "pel" /\ \A j \in 1..(i - 1) : s[j].k # "pel"
       IN <<Bag(SubSeq(s, 1, i - 1)), s[i].v>> \o Segments(SubSeq(s, i + 1, Len(s)))
  ELSE <<Bag(s)>>

\* the circumstance in which class c of selector s applies, within the conditions conds (a set)
Circumstance(s, c, conds) ==
  IF s.k = "class" THEN <<"plain", conds, <<{}>>, "">>
  ELSE IF IsPlain(s) THEN <<"plain", conds, Segments(Tail(s.parts)), s.pe>>
  ELSE <<"within", conds, Blank(s, c)>>

----------------------------------------------------------------------------
(* Declarations: what a rule sets and uses *)

Entry(ctx, decls) ==
  LET D == Range(decls)
      Sets(d) == IF IsCustom(d.p) THEN {d.p} ELSE Longhands(d.p)
  IN [ ctx  |-> ctx,
       e    |-> decls = <<>>,
       \* ordinary longhands, those set !important (custom properties included), custom properties
       n    |-> UNION {Sets(d) : d \in {x \in D : ~IsCustom(x.p)}},
       ni   |-> UNION {Sets(d) : d \in {x \in D : x.i}},
       c    |-> {d.p : d \in {x \in D : IsCustom(x.p)}},
       \* <<what is set, custom property used to do so>>
       u    |-> UNION {Sets(d) \X Range(d.vars) : d \in {x \in D : ~IsCustom(x.p)}},
       iu   |-> UNION {Sets(d) \X Range(d.vars) : d \in {x \in D : x.i}},
       cu   |-> UNION {{d.p} \X Range(d.vars) : d \in {x \in D : IsCustom(x.p)}} ]

----------------------------------------------------------------------------
(* Stylesheets *)

\* the rules in the order of the text, each as <<selector, conditions, declarations>>
RECURSIVE Flat(_, _)
Flat(items, conds) ==
  LET One(it) ==
        CASE it.t = "rule" ->
               LET good == SelectSeq(it.sels, LAMBDA s : s.k # "bad")
               IN [i \in DOMAIN good |-> <<good[i], conds, it.decls>>]
          [] it.t = "at" ->
               Flat(it.body, IF it.cond = "" THEN conds ELSE conds \cup {<<it.kind, it.cond>>})
          [] OTHER -> <<>>
  IN FlattenSeq(MapSeq(One, items))

\* <<class, entry, declarations>> in the order of the text
Definitions(items) ==
  LET OfRule(r) == LET cs == ClassesOf(r[1])
                   IN [i \in DOMAIN cs |-> <<cs[i], Entry(Circumstance(r[1], cs[i], r[2]), r[3]), r[3]>>]
  IN FlattenSeq(MapSeq(OfRule, Flat(items, {})))

\* the table a stylesheet alone defines: the last definition of each class counts
TableOf(items) ==
  LET defs == Definitions(items)
      last == [c \in {defs[i][1] : i \in DOMAIN defs} |->
                 CHOOSE i \in DOMAIN defs : defs[i][1] = c /\ \A j \in DOMAIN defs : j > i => defs[j][1] # c]
  IN [c \in DOMAIN last |-> [rule |-> defs[last[c]][2], decls |-> defs[last[c]][3]]]

NoTable == [c \in {} |-> 0]

\* adding a stylesheet to a table
Extend(t, u) == [c \in DOMAIN t \cup DOMAIN u |-> IF c \in DOMAIN u THEN u[c] ELSE t[c]]
=============================================================================
