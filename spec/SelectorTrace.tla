----------------------------- MODULE SelectorTrace -----------------------------
(***************************************************************************)
(* Judges recorded uses of selectors.  A record has a document, and a      *)
(* sequence of uses: the tree and the text of a selector, and two reports, *)
(* on the selector the library made of the text, and on the one it made of *)
(* the String() of the first.                                              *)
(*  report: err (the text was refused), str, spec, pe,                     *)
(*          all    the nodes that match (in the order of Filter),          *)
(*          query  the first match below the node from (0: none),          *)
(*          below  the result of QueryAll from there                       *)
(* Of a document of a world, the matches of all selectors of the world are *)
(* recorded instead: found, with all and again (of the printed selector),  *)
(* query and below.                                                        *)
(*  less: the results of Less for all pairs of uses (indices that are less)*)
(***************************************************************************)
EXTENDS Selectors, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE i
\* the records one after another, in 64 strands
Init == i \in DOMAIN Trace \cap 1..64
Next == i + 64 \in DOMAIN Trace /\ i' = i + 64
Spec == Init /\ [][Next]_i

World == IF IOEnv.WORLD = "" THEN [docs |-> <<>>, sels |-> <<>>] ELSE JsonDeserialize(IOEnv.WORLD)

Doc == IF "doc" \in DOMAIN Trace[i] THEN Trace[i].doc ELSE World.docs[Trace[i].d]
Uses == IF "uses" \in DOMAIN Trace[i] THEN Trace[i].uses ELSE <<>>
Found == IF "found" \in DOMAIN Trace[i] THEN Trace[i].found ELSE <<>>
From == Trace[i].from

InOrder(s) == \A k \in 1..(Len(s) - 1) : s[k] < s[k + 1]

\* all calls returned, and the selectors are supported
Returned == Trace[i].crash = ""
AcceptedUse(u) == u.a.err = ""
Accepted == \A u \in Range(Uses) : AcceptedUse(u)

\* C19: String() parses again, with the same meaning
RoundTripUse(u) ==
  /\ u.b.err = ""
  /\ u.b.str = u.a.str
  /\ u.b.spec = u.a.spec
  /\ u.b.pe = u.a.pe
  /\ u.b.all = u.a.all
  /\ u.b.below = u.a.below
RoundTrip == \A u \in Range(Uses) : RoundTripUse(u)
SameFound == \A f \in Range(Found) : f.again = f.all

\* also the meaning the specification gives to the text
MeantUse(u) ==
  /\ u.b.pe = Element(u.sel)
  /\ Specified(u.sel) => Range(u.b.all) = Matches(Doc, u.sel)
Meant == \A u \in Range(Uses) : MeantUse(u)

\* C20: matching
MatchingUse(u) == Specified(u.sel) => Range(u.a.all) = Matches(Doc, u.sel)
Matching == \A u \in Range(Uses) : MatchingUse(u)
FoundMatching == \A k \in DOMAIN Found : Range(Found[k].all) = Matches(Doc, World.sels[k])

QueryOK(r) ==
  /\ InOrder(r.all)
  /\ InOrder(r.below)
  /\ Range(r.below) = {n \in Range(r.all) : From \in Ancestors(Doc, n)}
  /\ r.query = IF r.below = <<>> THEN 0 ELSE r.below[1]
Queries == (\A u \in Range(Uses) : QueryOK(u.a)) /\ \A f \in Range(Found) : QueryOK(f)

\* C21: specificity
SpecificityUse(u) == u.a.spec = Specificity(u.sel)
Specificities == \A u \in Range(Uses) : SpecificityUse(u)

Comparison == "less" \in DOMAIN Trace[i] =>
  Trace[i].less = [k \in DOMAIN Uses |->
     SetToSortSeq({m \in DOMAIN Uses : Less(Specificity(Uses[k].sel), Specificity(Uses[m].sel))}, <)]

\* for the report of a violation: the uses and selectors of a world that are wrong
Report == [i |-> i,
  uses |-> {k \in DOMAIN Uses : LET u == Uses[k] IN
              ~AcceptedUse(u) \/ ~RoundTripUse(u) \/ ~MeantUse(u) \/ ~MatchingUse(u) \/ ~QueryOK(u.a) \/ ~SpecificityUse(u)},
  sels |-> {k \in DOMAIN Found : Range(Found[k].all) # Matches(Doc, World.sels[k]) \/ ~QueryOK(Found[k]) \/ Found[k].again # Found[k].all}]
================================================================================
