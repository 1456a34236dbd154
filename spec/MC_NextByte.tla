----------------------------- MODULE MC_NextByte ------------------------------
(***************************************************************************)
(* The next-byte analysis is sound for every expression of the file ASTS   *)
(* and all its residuals, and the join is a join (C07).                    *)
(***************************************************************************)
EXTENDS NextByte, Json, IOUtils, TLC

Exprs == JsonDeserialize(IOEnv.ASTS)
A == 1..3

VARIABLES i, r
Init == i \in 1..Len(Exprs) /\ r = FromJ(Exprs[i])
Next == \E c \in A : r' = Der(r, c, A) /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, r>>

SoundOK == Sound(Analyse(r, A), r, A)
\* a chain of single letters is forced all the way
Literal(x) == x = Eps \/ (x[1] = "set" /\ Cardinality(x[2]) = 1)
              \/ (x[1] = "cat" /\ \A n \in 1..Len(x[2]) : x[2][n][1] = "set" /\ Cardinality(x[2][n][2]) = 1)
ForcedOK == Literal(r) => Analyse(r, A) # Some

N == {Dead, End, Some} \union {Byte(b) : b \in A}
Leq(x, y) == Join(x, y) = y
ASSUME \A x, y \in N : Join(x, y) = Join(y, x) /\ Meet(x, y) = Meet(y, x)
ASSUME \A x, y, z \in N : /\ Join(x, Join(y, z)) = Join(Join(x, y), z)
                          /\ Meet(x, Meet(y, z)) = Meet(Meet(x, y), z)
ASSUME \A x, y \in N : Meet(x, Join(x, y)) = x /\ Join(x, Meet(x, y)) = x
ASSUME \A x, y \in N : Leq(x, y) <=> Meet(x, y) = x
\* joining sound answers is sound: a bigger answer claims less
ASSUME \A x \in N : Leq(Dead, x) /\ Leq(x, Some)
=============================================================================
