------------------------------- MODULE TokensMC -------------------------------
(***************************************************************************)
(* All regular sequences of pieces up to a length: the two machines agree, *)
(* and the complete sequences are written out to be tried on the library.  *)
(***************************************************************************)
EXTENDS Tokens, Json, IOUtils

CONSTANTS Alphabet, Length

VARIABLES x, toks
vars == <<x, toks>>

Init == x = [st |-> Start, alg |-> Extract0] /\ toks = <<>>
\* a block that cannot be closed any more within the length is of no interest
Next == /\ Len(toks) < Length
        /\ \E t \in Alphabet :
             /\ Fits(Top(x.st), t)
             /\ x' = Both(x, t)
             /\ toks' = Append(toks, t)
             /\ Len(x'.st.fr) - 1 <= Length - Len(toks')
Spec == Init /\ [][Next]_vars

Stays == x.st.reg
\* the rules of the implementation are those of the stylesheet
Agree == Complete(x.st) => /\ x.alg.rules = Flat(Items(x.st), {})
                           /\ x.alg.ignore = 0 /\ x.alg.skipped = 0 /\ x.alg.conds = <<>> /\ x.alg.sels = <<>>
\* while the machine is inside of something it knows where
Where == LET kinds == [i \in DOMAIN x.st.fr |-> x.st.fr[i].k]
             skipped == \E i \in DOMAIN kinds : kinds[i] = "skip"
         IN /\ (x.alg.ignore > 0) <=> skipped
            /\ ~skipped => Len(x.alg.conds) = Cardinality({i \in DOMAIN kinds : kinds[i] = "at"})

Emit == (Complete(x.st) /\ toks # <<>>) => PrintT(<<"TOKENS", ToJson(toks)>>)

Full == DOMAIN Regular
\* a smaller alphabet for longer sequences
Blocks == {"a{", "xb{", "x{", "m{", "s{", "f{", "l{", "red", "width", "}"}

ASSUME JsonSerialize(IOEnv.OUT, [text |-> [t \in All |-> Text(t)], contexts |-> SetToSeq(Contexts), regular |-> SetToSeq(DOMAIN Regular),
                                 base |-> Base, good |-> Good, lists |-> Lists])
===============================================================================
