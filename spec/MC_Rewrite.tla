------------------------------- MODULE MC_Rewrite ------------------------------
(***************************************************************************)
(* The rewriting derivative of Rewrite.tla in lock step with the residuals *)
(* of RegexSem.tla, for every expression of the file ASTS (C01, C04, C12): *)
(* the flags are right in every state, and a state that is not flagged     *)
(* positive but accepts something is found by the search.                  *)
(***************************************************************************)
EXTENDS Rewrite, Json, IOUtils, TLC
LOCAL S == INSTANCE RegexSem

Exprs == JsonDeserialize(IOEnv.ASTS)
A == 1..3

VARIABLES i, r, q
vars == <<i, r, q>>
Init == i \in 1..Len(Exprs) /\ r = S!FromJ(Exprs[i]) /\ q = RFrom(Exprs[i], A)
Next == \E c \in A : r' = S!Der(r, c, A) /\ q' = RDer(q, c, A) /\ UNCHANGED i
Spec == Init /\ [][Next]_vars

NullableOK == q.n = S!Nullable(r, A)
PositiveOK == q.p => S!NonEmpty(r, A)
EmptyOK == RNonEmptyFrom({q}, {q}, A) = S!NonEmpty(r, A)
\* what is nullable is positive: the search relies on it
FlagsOK == q.n => q.p
=============================================================================
