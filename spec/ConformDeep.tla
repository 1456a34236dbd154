----------------------------- MODULE ConformDeep -----------------------------
(***************************************************************************)
(* Very deep and very wide expressions (C17).  The residuals of such an    *)
(* expression are as large as it is; membership of the recorded words is   *)
(* therefore decided layer by layer, as a behaviour of TLC: a state is     *)
(* (layer, the part of the word still to be matched, polarity).            *)
(*                                                                         *)
(* nest: layers ops[i] with byte cs[i] around byte base, outermost first:  *)
(*   cat: c X   tac: X c   opt: X?   not: ~X   or, ro: c | X               *)
(*   andn: X & ~c   all: ANY* & X   none: X | 0   eps: () X   one: X{1,1}  *)
(* Layered.tla checks that this evaluation agrees with RegexSem.           *)
(* wide: or / and / norm of literals (complemented for and, norm), cat of  *)
(* byte sets, rep of one byte, chain: beginnings of one word (or none).    *)
(* null: which layers of a deep expression match the empty string.         *)
(* meet: two sequences of sets, intersected.  count: repetitions of sets,  *)
(* intersected.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Layered

Cases == JsonDeserialize(IOEnv.CASES)
N == Len(Cases)

VARIABLES k,   \* case
          j,   \* word (0: the question of emptiness)
          e    \* evaluation: [i, lo, hi, pos, val]; val = 2 while undecided
vars == <<k, j, e>>
C == Cases[k]

Init == /\ k \in 1..N
        /\ j \in 0..Len(Cases[k].words)
        /\ e = [i |-> 1, lo |-> 1,
                hi |-> IF j = 0 THEN 0 ELSE Len(Cases[k].words[j]), pos |-> TRUE, val |-> 2]
\* null: does the layer match the empty string, if what is below it does (or not: e.pos)
NullStep ==
  CASE C.ops[e.i] = "base" -> C.ps[e.i]
    [] C.ops[e.i] \in {"cat", "and"} -> e.pos /\ C.ps[e.i]
    [] C.ops[e.i] = "or"  -> e.pos \/ C.ps[e.i]
    [] C.ops[e.i] = "not" -> ~e.pos
    [] C.ops[e.i] = "opt" -> TRUE
    [] C.ops[e.i] = "rep" -> e.pos
Next ==
  /\ C.panic = "" /\ e.val = 2
  /\ \/ j > 0 /\ C.kind = "nest"
     \/ j = 0 /\ C.kind \in {"meet", "null"}
  /\ e' = IF C.kind = "null" THEN [e EXCEPT !.i = @ + 1, !.pos = NullStep,
                                           !.val = IF e.i = Len(C.ops) THEN 1 ELSE 2]
          ELSE IF j > 0 THEN Layer(C.ops, C.cs, C.base, C.words[j], e)
          ELSE IF e.i > Len(C.s1) THEN [e EXCEPT !.val = 1]
          ELSE IF \E a \in 1..Len(C.s1[e.i]) : \E b \in 1..Len(C.s2[e.i]) :
                    C.s1[e.i][a] = C.s2[e.i][b]
          THEN [e EXCEPT !.i = @ + 1]
          ELSE [e EXCEPT !.val = 0]
  /\ UNCHANGED <<k, j>>
Spec == Init /\ [][Next]_vars

\* count: letters that all parts allow; lengths that all parts allow
CountLetters == {a \in 97..100 : \A p \in 1..Len(C.sets) :
                    \E x \in 1..Len(C.sets[p]) : C.sets[p][x] = a}
Max(f) == CHOOSE m \in {f[i] : i \in 1..Len(f)} : \A i \in 1..Len(f) : f[i] <= m
Min(f) == CHOOSE m \in {f[i] : i \in 1..Len(f)} : \A i \in 1..Len(f) : f[i] >= m
CountEmpty == \/ Max(C.mns) > Min(C.mxs)
              \/ CountLetters = {} /\ Max(C.mns) > 0
InSet(w) == \E i \in 1..Len(C.lits) : C.lits[i] = w
Member(w) ==
  CASE C.kind = "or" -> InSet(w)
    [] C.kind \in {"and", "norm"} -> ~InSet(w)
    [] C.kind = "cat" ->
         /\ Len(w) = Len(C.sets)
         /\ \A i \in 1..Len(w) : \E a \in 1..Len(C.sets[i]) : C.sets[i][a] = w[i]
    [] C.kind = "chain" ->
         LET in == /\ Len(w) <= Len(C.chain)
                   /\ \E i \in 1..Len(C.lens) : C.lens[i] = Len(w)
                   /\ \A i \in 1..Len(w) : w[i] = C.chain[i]
         IN in # C.neg
    [] C.kind = "count" ->
         /\ \A p \in 1..Len(C.sets) : Len(w) \in C.mns[p]..C.mxs[p]
         /\ \A i \in 1..Len(w) : w[i] \in CountLetters
    [] C.kind = "rep" -> /\ Len(w) \in C.mn..C.mx
                         /\ \A i \in 1..Len(w) : w[i] = 97

NoPanic == C.panic = ""
WideOK == C.panic = "" /\ j > 0 /\ C.kind \notin {"nest", "meet"} =>
            (C.acc[j] <=> Member(C.words[j]))
NestOK == j > 0 /\ C.kind = "nest" /\ e.val # 2 => (C.acc[j] <=> e.val = 1)
NullOK == C.panic = "" /\ C.kind = "null" /\ e.i > 1 =>
            \A a \in 1..Len(C.ans) : C.ans[a][1] = e.i - 1 => (C.ans[a][2] <=> e.pos)
MeetOK == j = 0 /\ C.kind = "meet" /\ e.val # 2 => (C.empty <=> e.val = 0)
CountOK == C.panic = "" /\ C.kind = "count" => (C.empty <=> CountEmpty)
\* what next_byte() says at the beginning holds of every accepted word
NextOK == C.panic = "" /\ j > 0 /\ C.acc[j] =>
  CASE C.nb[1] = 0 -> FALSE
    [] C.nb[1] = 1 -> C.words[j] = <<>>
    [] C.nb[1] = 2 -> C.words[j] # <<>> /\ C.words[j][1] = C.nb[2]
    [] OTHER -> TRUE
NextCountOK == C.panic = "" /\ C.kind = "count" =>
  CASE C.nb[1] = 0 -> CountEmpty
    [] C.nb[1] = 1 -> ~CountEmpty /\ (Min(C.mxs) = 0 \/ CountLetters = {})
    [] C.nb[1] = 2 -> ~CountEmpty /\ Max(C.mns) > 0 /\ CountLetters = {C.nb[2]}
    [] OTHER -> TRUE
\* none of the others is empty, except perhaps nests, which are not if a word is accepted
EmptyOK == C.panic = "" /\ C.empty =>
             \/ C.kind \in {"meet", "count"}
             \/ C.kind = "nest" /\ (j = 0 \/ e.val # 1)
=============================================================================
