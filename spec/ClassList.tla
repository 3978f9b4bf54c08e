------------------------------ MODULE ClassList ------------------------------
(***************************************************************************)
(* Class lists as texts: a machine that reads a list character by          *)
(* character and splits it, and what the text of a result must look like.  *)
(*                                                                         *)
(* A text is a sequence of characters (strings of length one; bytes that   *)
(* are not UTF-8 stand for themselves as "\\xHH").                         *)
(* Sessions as in Session, with events new, add and                        *)
(*   text   m, in, out: the texts as sequences of characters               *)
(***************************************************************************)
EXTENDS Cascade, Json, IOUtils

CONSTANT Relevant    \* the deviations that break the property under check

Trace == ndJsonDeserialize(IOEnv.TRACE)

Separators == {" ", "\t", "\n", "\f", "\r"}

VARIABLES sid, step, mergers,
          pos, word, words,   \* how far the current text is read, the class being read, the classes read
          dev
vars == <<sid, step, mergers, pos, word, words, dev>>

Ev == Trace[sid].ev[step + 1]

Init == /\ sid \in DOMAIN Trace
        /\ step = 0 /\ mergers = <<>>
        /\ pos = 0 /\ word = "" /\ words = <<>>
        /\ dev = {}

More == step < Len(Trace[sid].ev)

New == /\ More /\ Ev.op = "new"
       /\ mergers' = [m \in DOMAIN mergers \cup {Ev.m} |->
                        IF m = Ev.m THEN [ks |-> Ev.ks, t |-> NoTable] ELSE mergers[m]]
       /\ step' = step + 1
       /\ UNCHANGED <<sid, pos, word, words, dev>>

Add == /\ More /\ Ev.op = "add"
       /\ mergers' = IF Ev.err THEN mergers ELSE [mergers EXCEPT ![Ev.m].t = Extend(@, TableOf(Ev.sheet))]
       /\ dev' = dev \cup (IF Ev.crash # "" THEN {"crash"} ELSE {}) \cup (IF Ev.err THEN {"refused"} ELSE {})
       /\ step' = step + 1
       /\ UNCHANGED <<sid, pos, word, words>>

\* read one character of the list
Read == /\ More /\ Ev.op = "text"
        /\ pos < Len(Ev.in)
        /\ LET c == Ev.in[pos + 1]
               ends == c \in Separators
           IN /\ word'  = IF ends THEN "" ELSE word \o c
              /\ words' = IF ends /\ word # "" THEN Append(words, word) ELSE words
        /\ pos' = pos + 1
        /\ UNCHANGED <<sid, step, mergers, dev>>

\* the text of a list of classes
Chars(s) == [k \in 1..Len(s) |-> SubSeq(s, k, k)]
RECURSIVE Text(_)
Text(L) == IF L = <<>> THEN "" ELSE IF Len(L) = 1 THEN L[1] ELSE L[1] \o " " \o Text(Tail(L))
Concat(cs) == FoldLeft(LAMBDA a, b : a \o b, "", cs)

\* the classes of a result, which has single spaces between them and nothing else
SplitResult(cs) ==
  LET step1(a, c) == IF c = " " THEN [ws |-> Append(a.ws, a.w), w |-> ""] ELSE [a EXCEPT !.w = @ \o c]
      f == FoldLeft(step1, [ws |-> <<>>, w |-> ""], cs)
  IN IF cs = <<>> THEN <<>> ELSE Append(f.ws, f.w)

Wrong(m, L, in, out) ==
  IF Len(L) < 2 THEN (IF out # in THEN {"short"} ELSE {})
  ELSE LET O == SplitResult(out)
           got == Range(O)
       IN (IF got \subseteq Range(L) THEN {} ELSE {"foreign"})     \* also empty ones
          \cup (IF Len(O) = Cardinality(got) THEN {} ELSE {"twice"})
          \cup (IF Unknown(m.t, L) \subseteq got THEN {} ELSE {"unknown lost"})
          \cup (IF got = Kept(m.t, L) THEN {} ELSE {"result"})
          \cup (IF m.ks /\ got \subseteq Range(L) /\ O # InOrder(L, got) THEN {"order"} ELSE {})

\* the list is read: compare the result
Judge == /\ More /\ Ev.op = "text"
         /\ pos = Len(Ev.in)
         /\ LET L == IF word = "" THEN words ELSE Append(words, word)
            IN dev' = dev \cup IF Ev.crash # "" THEN {"crash"} ELSE Wrong(mergers[Ev.m], L, Ev.in, Ev.out)
         /\ step' = step + 1
         /\ pos' = 0 /\ word' = "" /\ words' = <<>>
         /\ UNCHANGED <<sid, mergers>>

Next == New \/ Add \/ Read \/ Judge
Spec == Init /\ [][Next]_vars

Conforms == dev \cap Relevant = {}

\* the machine splits as the definition says: maximal runs without separators
SplitOK == More /\ Ev.op = "text" =>
             /\ \A k \in DOMAIN words : words[k] # ""
             /\ Concat(SelectSeq(SubSeq(Ev.in, 1, pos), LAMBDA c : c \notin Separators)) = Concat(words) \o word
=============================================================================
