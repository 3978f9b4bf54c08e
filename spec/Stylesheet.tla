------------------------------ MODULE Stylesheet ------------------------------
(***************************************************************************)
(* Validates what the library made of stylesheets given as sequences of    *)
(* pieces (see Tokens), one record each:                                   *)
(*   toks, err, crash  the stylesheet, and how AddRules ended              *)
(*   rules, extra      the rules of the classes of Base afterwards, and    *)
(*                     the number of other classes                         *)
(*   outs              what Merge made of Lists                            *)
(*   gerr, grules, gouts   the same after Good has been added              *)
(* Before, the Merger had the rules of Base and no others.                 *)
(***************************************************************************)
EXTENDS Tokens, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
\* the records one after another, in 64 strands
Init == i \in DOMAIN Trace \cap 1..64
Next == i + 64 \in DOMAIN Trace /\ i' = i + 64
Spec == Init /\ [][Next]_i

R == Trace[i]
BaseT == TableOf(Base)
GoodT == TableOf(Good)
Names == DOMAIN BaseT

SameDecls(ds, es) == Len(ds) = Len(es) /\ \A k \in DOMAIN ds : ds[k].p = es[k].p /\ ds[k].val = es[k].val
RulesAre(t, rules) ==
  /\ \A c \in Names : \E k \in DOMAIN rules : rules[k].c = c
  /\ \A k \in DOMAIN rules : rules[k].c \in DOMAIN t /\ SameDecls(rules[k].decls, t[rules[k].c].decls)
OutsAre(t, outs) == \A k \in DOMAIN Lists : outs[k] = Merged(t, Lists[k])

\* every call returned
Returned == R.crash = ""
\* a failed AddRules changed nothing
Unchanged == (Returned /\ R.err) => RulesAre(BaseT, R.rules) /\ OutsAre(BaseT, R.outs) /\ R.extra = 0
\* a good stylesheet takes effect, whatever came before
Usable == Returned => ~R.gerr /\ RulesAre(GoodT, R.grules) /\ OutsAre(GoodT, R.gouts)
\* a regular stylesheet means what it says
Means == Returned =>
  LET st == ReadAll(R.toks)
  IN (Complete(st) /\ ~R.inline) =>
        LET t == Extend(BaseT, TableOf(Items(st)))
        IN ~R.err /\ RulesAre(t, R.rules) /\ OutsAre(t, R.outs) /\ R.extra = 0
===============================================================================
