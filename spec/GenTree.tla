------------------------------- MODULE GenTree -------------------------------
(* All ordered trees with at most SIZE nodes, as lists of children, numbered *)
(* from the root in pre-order.                                               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
SIZE == atoi(IOEnv.SIZE)
\* a tree is a sequence of trees
RECURSIVE Forest(_)
Forest(n) ==   \* forests of n nodes
  IF n = 0 THEN {<<>>}
  ELSE UNION {{<<f>> \o g : f \in Forest(m - 1), g \in Forest(n - m)} : m \in 1..n}
RECURSIVE Count(_), Kids(_, _)
Count(t) == 1 + FoldLeft(LAMBDA a, x : a + Count(x), 0, t)
\* children lists of the nodes of t, which is numbered from n
Kids(t, n) ==
  LET First(i) == n + 1 + FoldLeft(LAMBDA a, x : a + Count(x), 0, SubSeq(t, 1, i - 1))
  IN << [i \in 1..Len(t) |-> First(i)] >>
     \o FoldLeft(LAMBDA a, i : a \o Kids(t[i], First(i)), <<>>, [i \in 1..Len(t) |-> i])
ASSUME LET q == SetToSeq({Kids(t, 1) : t \in UNION {Forest(n) : n \in 0..(SIZE - 1)}})
       IN JsonSerialize(IOEnv.OUT, q) /\ PrintT(<<"GENERATED", Len(q)>>)
VARIABLE x
Spec == x = 0 /\ [][x' = x]_x
=============================================================================
