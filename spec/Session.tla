------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* Validates recorded sessions of the real library.  A session is a        *)
(* sequence of calls on some Mergers with what they returned; the          *)
(* specification runs along, keeping the rule table of each Merger, and    *)
(* collects in dev in which ways the results deviate from what Sheet and   *)
(* Cascade say.                                                            *)
(*                                                                         *)
(* Events (field op):                                                      *)
(*   new    m, ks (keepSort), g (grouping of Mergers, see "unsteady")      *)
(*   add    m, sheet, want: "ok" | "fail" | "any", err: error returned     *)
(*   merge  m, in, out (classes), short: the text of a list of fewer than  *)
(*          two classes came back unchanged                                *)
(*   stage  in, out, at: the merge event of the whole list, pre: the merge *)
(*          event of a prefix of it, whose result takes its place here     *)
(*   again  in, out, at: the merge event whose result is merged again here *)
(*   rules  m, rules: the registered rules as <<class, declarations>>      *)
(*   print  m, into, c: the rule of class c of m is printed as CSS and added *)
(*          to the Merger into; err: error returned                        *)
(*   same   m, before, after: texts that must be equal                     *)
(* Every event has crash: "" or how the call ended instead of returning.   *)
(***************************************************************************)
EXTENDS Cascade, Json, IOUtils

CONSTANT Relevant     \* the deviations that break the property under check

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sid, step, mergers, memo, dev
vars == <<sid, step, mergers, memo, dev>>

Ev == Trace[sid].ev[step + 1]

Init == /\ sid \in DOMAIN Trace
        /\ step = 0
        /\ mergers = <<>>
        /\ memo = [k \in {} |-> 0]
        /\ dev = {}

----------------------------------------------------------------------------
(* How the result of one Merge deviates *)

Ordinary(t, c) == t[c].rule.c = {}
CustomOnly(t, c) == t[c].rule.n = {} /\ t[c].rule.ni = {}
IsKnown(t, c) == c \in DOMAIN t /\ ~t[c].rule.e

Deviations(t, ks, L, out, short) ==
  IF Len(L) < 2
  THEN (IF out # L THEN {"short"} ELSE {}) \cup (IF ~short THEN {"short"} ELSE {})
  ELSE
  LET got == Range(out)
      exp == Kept(t, L)
      lost == exp \ got
      left == (got \cap Range(L)) \ exp
  IN IF got = exp /\ Len(out) = Cardinality(got) /\ (ks => out = InOrder(L, exp)) THEN {}
     ELSE (IF lost \cap Winners(t, L) # {} THEN {"lost"} ELSE {})
     \cup (IF lost \cap Unknown(t, L) # {} THEN {"unknown lost"} ELSE {})
     \cup (IF lost \cap (Providers(t, L) \ Winners(t, L)) # {} THEN {"custom lost"} ELSE {})
     \cup (IF \E c \in left : Ordinary(t, c) THEN {"left"} ELSE {})
     \cup (IF \E c \in left : CustomOnly(t, c) THEN {"custom left"} ELSE {})
     \cup (IF \E c \in left : ~Ordinary(t, c) /\ ~CustomOnly(t, c) THEN {"mixed left"} ELSE {})
     \cup (IF got \subseteq Range(L) THEN {} ELSE {"foreign"})
     \cup (IF Len(out) # Cardinality(got) THEN {"twice"} ELSE {})
     \cup (IF ks /\ got \subseteq Range(L) /\ Len(out) = Cardinality(got) /\ out # InOrder(L, got)
           THEN {"order"} ELSE {})

\* how a result deviates from the other results for the same list and rules
Unsteady(key, out) == IF key \in DOMAIN memo /\ memo[key] # out THEN {"unsteady"} ELSE {}

\* the text of a value spells the tokens: where whitespace separates two of them there is a single space,
\* elsewhere there may be one
RECURSIVE SpellsFrom(_, _, _, _)
SpellsFrom(raw, at, toks, k) ==
  IF k > Len(toks) THEN at = Len(raw) + 1
  ELSE IF toks[k] = " " THEN at <= Len(raw) /\ SubSeq(raw, at, at) = " " /\ SpellsFrom(raw, at + 1, toks, k + 1)
  ELSE LET n == Len(toks[k])
           here(x) == x + n - 1 <= Len(raw) /\ SubSeq(raw, x, x + n - 1) = toks[k]
       IN \/ here(at) /\ SpellsFrom(raw, at + n, toks, k + 1)
          \/ /\ k > 1 /\ toks[k - 1] # " " /\ at <= Len(raw) /\ SubSeq(raw, at, at) = " "
             /\ here(at + 1) /\ SpellsFrom(raw, at + 1 + n, toks, k + 1)
Spells(raw, toks) == SpellsFrom(raw, 1, toks, 1)

RulesDeviations(t, rules) ==
  LET got == [c \in {rules[i].c : i \in DOMAIN rules} |->
                (CHOOSE i \in DOMAIN rules : rules[i].c = c)]
      Same(ds, es) == /\ Len(ds) = Len(es)
                      /\ \A i \in DOMAIN ds : ds[i].p = es[i].p /\ ds[i].val = es[i].val
      \* and the whitespace: single spaces
      Spaced(ds, es) == Len(ds) = Len(es) => \A i \in DOMAIN ds : ds[i].val = es[i].val => Spells(ds[i].raw, es[i].toks)
  IN (IF DOMAIN t \subseteq DOMAIN got THEN {} ELSE {"rule missing"})
     \cup (IF DOMAIN got \subseteq DOMAIN t THEN {} ELSE {"rule invented"})
     \cup (IF \A c \in DOMAIN got \cap DOMAIN t : Same(rules[got[c]].decls, t[c].decls)
           THEN {} ELSE {"declarations"})
     \cup (IF \A c \in DOMAIN got \cap DOMAIN t : Spaced(rules[got[c]].decls, t[c].decls)
           THEN {} ELSE {"spaces"})

----------------------------------------------------------------------------
Crashed == Ev.crash # ""

New == /\ Ev.op = "new"
       /\ mergers' = [m \in DOMAIN mergers \cup {Ev.m} |->
                        IF m = Ev.m THEN [ks |-> Ev.ks, t |-> NoTable] ELSE mergers[m]]
       /\ dev' = dev \cup (IF Crashed THEN {"crash"} ELSE {})
       /\ UNCHANGED memo

Add == /\ Ev.op = "add"
       /\ LET m == mergers[Ev.m]
              good == ~Ev.err /\ ~Crashed
          IN /\ mergers' = IF good THEN [mergers EXCEPT ![Ev.m].t = Extend(m.t, TableOf(Ev.sheet))] ELSE mergers
             /\ dev' = dev \cup (IF Crashed THEN {"crash"} ELSE {})
                           \cup (IF Ev.want = "ok" /\ Ev.err THEN {"refused"} ELSE {})
                           \cup (IF Ev.want = "fail" /\ ~Ev.err THEN {"accepted"} ELSE {})
       /\ UNCHANGED memo

Merge == /\ Ev.op = "merge"
         /\ LET m == mergers[Ev.m]
                key == <<1, m.ks, m.t, Ev.in>>  \* the result as a list
                set == <<2, m.t, Ev.in>>        \* and as a set, whatever keepSort
            IN IF Crashed THEN dev' = dev \cup {"crash"} /\ UNCHANGED memo
               ELSE /\ dev' = dev \cup Deviations(m.t, m.ks, Ev.in, Ev.out, Ev.short) \cup Unsteady(key, Ev.out)
                                  \cup Unsteady(set, Range(Ev.out))
                    /\ memo' = IF Trace[sid].steady
                               THEN [k \in DOMAIN memo \cup {key, set} |->
                                       IF k \in DOMAIN memo THEN memo[k] ELSE IF k = key THEN Ev.out ELSE Range(Ev.out)]
                               ELSE memo
         /\ UNCHANGED mergers

\* a list whose prefix was merged before, compared with the same list merged at once
Stage == /\ Ev.op = "stage"
         /\ LET whole == Trace[sid].ev[Ev.at]
                pre   == Trace[sid].ev[Ev.pre]
                rest  == SubSeq(whole.in, Len(pre.in) + 1, Len(whole.in))
            IN dev' = dev
                 \cup (IF Crashed THEN {"crash"} ELSE {})
                 \cup (IF SubSeq(whole.in, 1, Len(pre.in)) # pre.in \/ Ev.in # pre.out \o rest THEN {"harness"} ELSE {})
                 \cup (IF Ev.out # whole.out THEN {"staged"} ELSE {})
         /\ UNCHANGED <<mergers, memo>>

\* a result merged again
Again == /\ Ev.op = "again"
         /\ dev' = dev
              \cup (IF Crashed THEN {"crash"} ELSE {})
              \cup (IF Trace[sid].ev[Ev.at].out # Ev.in THEN {"harness"} ELSE {})
              \cup (IF Ev.out # Ev.in THEN {"not idempotent"} ELSE {})
         /\ UNCHANGED <<mergers, memo>>

Rules == /\ Ev.op = "rules"
         /\ dev' = dev \cup (IF Crashed THEN {"crash"} ELSE RulesDeviations(mergers[Ev.m].t, Ev.rules))
         /\ UNCHANGED <<mergers, memo>>

\* the last rule that defines the class, as <<selector, conditions, declarations>>
SourceOf(m, c) ==
  LET E == Trace[sid].ev
      defs(i) == Flat(E[i].sheet, {})
      has(i) == \E k \in DOMAIN defs(i) : c \in Range(ClassesOf(defs(i)[k][1]))
      adds == {i \in 1..step : E[i].op = "add" /\ E[i].m = m /\ ~E[i].err /\ E[i].crash = "" /\ has(i)}
      latest(S) == CHOOSE i \in S : \A j \in S : j <= i
      d == defs(latest(adds))
  IN d[latest({k \in DOMAIN d : c \in Range(ClassesOf(d[k][1]))})]

\* a rule as text: the rule without the at-rules around it
Printed == /\ Ev.op = "print"
           /\ IF Ev.c \in DOMAIN mergers[Ev.m].t
              THEN LET src == SourceOf(Ev.m, Ev.c)
                       rule == [t |-> "rule", sels |-> <<src[1]>>, decls |-> src[3]]
                   IN /\ mergers' = [mergers EXCEPT ![Ev.into].t = Extend(@, TableOf(<<rule>>))]
                      /\ dev' = dev \cup (IF Crashed THEN {"crash"} ELSE {}) \cup (IF Ev.err THEN {"refused"} ELSE {})
              ELSE UNCHANGED mergers /\ dev' = dev \cup {"rule invented"}
           /\ UNCHANGED memo

Same == /\ Ev.op = "same"
        /\ dev' = dev \cup (IF Ev.before # Ev.after THEN {"changed"} ELSE {})
        /\ UNCHANGED <<mergers, memo>>

Next == /\ step < Len(Trace[sid].ev)
        /\ step' = step + 1
        /\ New \/ Add \/ Merge \/ Stage \/ Again \/ Rules \/ Printed \/ Same
        /\ UNCHANGED sid

Spec == Init /\ [][Next]_vars

\* no relevant deviation, and the harness kept to its part
Conforms == dev \cap (Relevant \cup {"harness"}) = {}
=============================================================================
