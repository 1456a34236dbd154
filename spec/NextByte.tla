-------------------------------- MODULE NextByte ------------------------------
(***************************************************************************)
(* The lattice of next-byte answers and the syntactic analysis that gives  *)
(* them (nextbyte.rs, ast.rs), over specification expressions.             *)
(*   dead < byte b, end < some                                             *)
(***************************************************************************)
EXTENDS RegexSem

Dead == <<"dead">>
End == <<"end">>
Some == <<"some">>
Byte(b) == <<"byte", b>>

Join(x, y) == IF x = y THEN x ELSE IF x = Dead THEN y ELSE IF y = Dead THEN x ELSE Some
Meet(x, y) == IF x = y THEN x ELSE IF x = Some THEN y ELSE IF y = Some THEN x ELSE Dead

RECURSIVE Simple(_, _), JoinAll(_)
Simple(r, A) ==
  CASE r[1] = "eps"  -> End
    [] r[1] = "none" -> Dead
    [] r[1] = "set"  -> IF Cardinality(r[2]) = 1 THEN Byte(TheElem(r[2])) ELSE Some
    [] r[1] = "rep"  -> IF r[3] = 0 THEN Some ELSE Simple(r[2], A)
    [] r[1] = "cat"  -> IF Nullable(r[2][1], A) THEN Some ELSE Simple(r[2][1], A)
    [] OTHER -> Some
JoinAll(S) == IF S = {} THEN Dead ELSE LET x == TheElem(S) IN Join(x, JoinAll(S \ {x}))

Analyse(r, A) == IF r[1] = "or" THEN JoinAll({Simple(x, A) : x \in r[2]}) ELSE Simple(r, A)

\* what an answer claims
Sound(n, r, A) ==
  CASE n = Dead -> ~NonEmpty(r, A)
    [] n = End  -> Nullable(r, A) /\ \A c \in A : ~NonEmpty(Der(r, c, A), A)
    [] n = Some -> TRUE
    [] OTHER    -> ~Nullable(r, A) /\ \A c \in A \ {n[2]} : ~NonEmpty(Der(r, c, A), A)
=============================================================================
