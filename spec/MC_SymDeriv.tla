----------------------------- MODULE MC_SymDeriv ------------------------------
(***************************************************************************)
(* Symbolic derivatives against residuals, for every expression of the     *)
(* file ASTS and every residual reachable from it; and the splitting into  *)
(* disjoint sets, which negation needs.                                    *)
(***************************************************************************)
EXTENDS SymDeriv, Json, IOUtils, TLC

Exprs == JsonDeserialize(IOEnv.ASTS)
A == 1..3

VARIABLES i, r
Init == i \in 1..Len(Exprs) /\ r = FromJ(Exprs[i])
Next == \E c \in A : r' = Der(r, c, A) /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, r>>

Same(x, y) == x = y \/ ~NonEmpty(MkOr({MkAnd({x, MkNot(y)}), MkAnd({y, MkNot(x)})}), A)
After(P, c) == MkOr({p[2] : p \in {q \in P : c \in q[1]}})

SymOK == LET P == Sym(r, A) IN \A c \in A : Same(After(P, c), Der(r, c, A))
\* for a complement, at most one pair applies to a letter
DisjointOK ==
  LET q == SetAsSeq(Sym(r, A))
      d == Disjoint(q)
  IN /\ \A m, n \in 1..Len(d) : m # n => d[m][1] \intersect d[n][1] = {}
     /\ \A m \in 1..Len(d) : d[m][1] # {}
     /\ \A c \in A : After(Range(d), c) = After(Range(q), c)
=============================================================================
