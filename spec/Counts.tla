-------------------------------- MODULE Counts --------------------------------
(***************************************************************************)
(* Counted words: an expression is a sequence of items [len, lo, hi], item *)
(* i being at least lo and at most hi (-1: any number) copies of its word; *)
(* no letter occurs twice, so that a text can be read in one way only.     *)
(* The items after the first `la` are a look-ahead, which ends as soon as  *)
(* it can: items that may be absent at its end never count, and the last   *)
(* of the others has exactly lo copies.                                    *)
(*                                                                         *)
(* What was read is c (copies of each item), a (the item being read), gone *)
(* (an item came after a later one).                                       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

\* the last item that matters
Last(E) == LET ok == {i \in 1..Len(E.items) : i <= E.la \/ E.items[i].lo > 0}
           IN IF ok = {} THEN 0 ELSE CHOOSE m \in ok : \A i \in ok : i <= m
Lo(E, i) == E.items[i].lo
Hi(E, i) == IF i > E.la /\ i = Last(E) THEN E.items[i].lo ELSE E.items[i].hi
Below(E, n, i) == Hi(E, i) < 0 \/ n <= Hi(E, i)

\* nothing read so far rules a match out
Alive(E, c, a, gone) ==
  /\ ~gone /\ a <= Last(E)
  /\ \A i \in 1..Last(E) : Below(E, c[i], i) /\ (i < a => c[i] >= Lo(E, i))
Accepting(E, c, a, gone) ==
  Alive(E, c, a, gone) /\ \A i \in 1..Last(E) : c[i] >= Lo(E, i)
RECURSIVE Sum(_, _, _)
Sum(E, c, i) == IF i > Last(E) THEN 0 ELSE E.items[i].len * c[i] + Sum(E, c, i + 1)
Length(E, c, a, gone) == IF Accepting(E, c, a, gone) THEN Sum(E, c, E.la + 1) ELSE -1
=============================================================================
