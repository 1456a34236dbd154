------------------------------ MODULE MC_Regex ------------------------------
(***************************************************************************)
(* The residual construction used by all conformance modules is checked    *)
(* against the denotational definition: for every expression with at most  *)
(* SIZE operators and leaves and every word of at most LEN letters.        *)
(***************************************************************************)
EXTENDS RegexSem, Json, IOUtils, TLC

Exprs == JsonDeserialize(IOEnv.ASTS)
LEN == atoi(IOEnv.LEN)
A == 1..3
\* extensions of at most this length are enough for the prefix operator on
\* expressions of this size (each has an accepting run of at most that length)
K == 4

VARIABLES k, w, r
vars == <<k, w, r>>

Init == k \in 1..Len(Exprs) /\ w = <<-1>> /\ r = Eps
Load == w = <<-1>> /\ w' = <<>> /\ r' = FromJ(Exprs[k]) /\ UNCHANGED k
Step(c) == /\ w # <<-1>> /\ Len(w) < LEN
           /\ w' = Append(w, c)
           /\ r' = Der(r, c, A)
           /\ UNCHANGED k
Next == Load \/ \E c \in A : Step(c)
Spec == Init /\ [][Next]_vars

\* the meaning is taken of the expression as given, with no simplification
RECURSIVE Raw(_)
Raw(j) ==
  CASE j[1] = "set" -> <<"set", Range(j[2])>>
    [] j[1] = "cat" -> <<"cat", [i \in 1..Len(j[2]) |-> Raw(j[2][i])]>>
    [] j[1] \in {"or", "and"} -> <<j[1], {Raw(j[2][i]) : i \in 1..Len(j[2])}>>
    [] j[1] \in {"not", "pre"} -> <<j[1], Raw(j[2])>>
    [] j[1] = "rep" -> <<"rep", Raw(j[2]), j[3], j[4]>>
    [] OTHER -> j

ResidualOK == w # <<-1>> => (Nullable(r, A) <=> InLang(Raw(Exprs[k]), w, A, K))
PositiveOK == w # <<-1>> /\ Positive(r) => NonEmptyFrom({r}, <<r>>, A)
NonEmptyOK ==
  w = <<>> => (NonEmpty(r, A) <=> \E x \in Words(A, K) : InLang(Raw(Exprs[k]), x, A, K))
=============================================================================
