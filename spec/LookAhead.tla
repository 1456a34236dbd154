------------------------------- MODULE LookAhead -------------------------------
(***************************************************************************)
(* The meaning of expressions with a trailing lookahead (C03).             *)
(*                                                                         *)
(* An expression is a union of alternatives A_j LookAhead(B_j).  A text is *)
(* accepted iff for some j it is u v with u in A_j, v in B_j and no proper *)
(* prefix of v in B_j; the lookahead length is the least |v|.              *)
(*                                                                         *)
(* State of the specification, per alternative: the residual of A_j, and   *)
(* the set of runs of B_j under way - a residual of B_j with the number of *)
(* bytes consumed by the run (of runs with the same residual only the      *)
(* shortest matters).  A run that accepts ends there ("first match").      *)
(***************************************************************************)
EXTENDS RegexSem

Shortest(P) == {p \in P : \A q \in P : q[1] = p[1] => q[2] >= p[2]}

\* add the run that starts here
WithStart(a, b, P, Sigma) ==
  Shortest((IF b # None /\ Nullable(a, Sigma) THEN {<<b, 0>>} ELSE {}) \union P)

StartAlt(a, b, Sigma) == [a |-> a, b |-> b, P |-> WithStart(a, b, {}, Sigma)]

DerAlt(x, c, Sigma) ==
  LET a2 == Der(x.a, c, Sigma)
      P2 == {<<Der(p[1], c, Sigma), p[2] + 1>> : p \in {q \in x.P : ~Nullable(q[1], Sigma)}}
  IN [a |-> a2, b |-> x.b, P |-> WithStart(a2, x.b, {p \in P2 : p[1] # None}, Sigma)]

\* lengths of the lookaheads that end here
LensOf(r, Sigma) ==
  UNION {{p[2] : p \in {q \in r[j].P : Nullable(q[1], Sigma)}} : j \in 1..Len(r)}
LeastOf(S) == IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : x <= y

\* some continuation (perhaps none) is accepted
AliveAlt(x, Sigma) ==
  \/ \E p \in x.P : NonEmpty(p[1], Sigma)
  \/ NonEmpty(MkCat(x.a, x.b), Sigma)
=============================================================================
