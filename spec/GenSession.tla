----------------------------- MODULE GenSession ------------------------------
(* All schedules of LEN calls: letters on two matchers (lower and upper     *)
(* case), queries, cloning, work on the builder.  Only schedules in which   *)
(* something was asked or stepped before and after the interference.        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Ops == {"a", "b", "A", "n", "N", "q", "Q", "c", "w", "z"}
LEN == atoi(IOEnv.LEN)
All == [1..LEN -> Ops]
Useful(f) ==
  /\ f[LEN] \notin {"c", "w", "z"}
  /\ \E i \in 1..LEN : f[i] \in {"a", "b", "A"}
ASSUME LET q == SetToSeq({f \in All : Useful(f)})
       IN JsonSerialize(IOEnv.OUT, q) /\ PrintT(<<"GENERATED", Len(q)>>)
VARIABLE x
Spec == x = 0 /\ [][x' = x]_x
=============================================================================
