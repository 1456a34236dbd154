------------------------------ MODULE MC_Counts -------------------------------
(***************************************************************************)
(* The arithmetic of Counts agrees with the look-ahead of LookAhead, for   *)
(* all expressions of at most three items with small counts, copies of one *)
(* or two letters, read copy by copy.  (C02 C03 C08)                       *)
(***************************************************************************)
EXTENDS LookAhead, IOUtils, TLC
K == INSTANCE Counts
TOP == atoi(IOEnv.TOP)
A == 1..6

Bounds == {<<lo, hi>> \in (0..TOP) \X ((0..TOP) \union {-1}) : hi >= lo \/ hi = -1}
\* item 2 has a word of two letters
Items(n) == {[i \in 1..n |-> [len |-> IF i = 2 THEN 2 ELSE 1, lo |-> f[i][1], hi |-> f[i][2]]] :
               f \in [1..n -> Bounds]}
Exprs == UNION {{[items |-> q, la |-> l] : q \in Items(n), l \in 1..n} : n \in 1..3}

Word(E, i) == MkCatSeq([j \in 1..E.items[i].len |-> <<"set", {2 * i + j - 2}>>])
Part(E, i) == MkRep(Word(E, i), E.items[i].lo, E.items[i].hi)
RECURSIVE Parts(_, _, _)
Parts(E, i, j) == IF i > j THEN Eps ELSE MkCat(Part(E, i), Parts(E, i + 1, j))

VARIABLES E, c, at, gone, x
vars == <<E, c, at, gone, x>>
Init == /\ E \in Exprs /\ c = [i \in 1..Len(E.items) |-> 0] /\ at = 0 /\ gone = FALSE
        /\ x = StartAlt(Parts(E, 1, E.la), Parts(E, E.la + 1, Len(E.items)), A)
RECURSIVE Reading(_, _, _)
Reading(y, i, j) == IF j > E.items[i].len THEN y
                    ELSE Reading(DerAlt(y, 2 * i + j - 2, A), i, j + 1)
Next == \E i \in 1..Len(E.items) :
          /\ c[i] <= TOP
          /\ c' = [c EXCEPT ![i] = @ + 1]
          /\ gone' = (gone \/ i < at)
          /\ at' = IF i > at THEN i ELSE at
          /\ x' = Reading(x, i, 1)
          /\ UNCHANGED E
Spec == Init /\ [][Next]_vars

Lens == LensOf(<<x>>, A)
AcceptOK == K!Accepting(E, c, at, gone) <=> Lens # {}
LengthOK == K!Length(E, c, at, gone) = LeastOf(Lens)
AliveOK == K!Alive(E, c, at, gone) <=> AliveAlt(x, A)
=============================================================================
