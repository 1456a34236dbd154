------------------------------ MODULE MC_Unary --------------------------------
(***************************************************************************)
(* The arithmetic of Unary agrees with the residuals of RegexSem, for all  *)
(* small trees over progressions and ranges: after a^n, and after a word   *)
(* with another byte.  (C04 C05 C06 C12 C14)                               *)
(***************************************************************************)
EXTENDS RegexSem, IOUtils, TLC
U == INSTANCE Unary
P == atoi(IOEnv.P)
A == 1..2          \* the letter, any other byte

N(k, a, b, x) == [k |-> k, a |-> a, b |-> b, x |-> x]
Leaves == {N("prog", a, b, <<>>) : a \in 0..P, b \in 0..2}
          \union {N("range", a, b, <<>>) : a \in 0..2, b \in 1..3}
          \union {N("from", a, 0, <<>>) : a \in 0..2}
Un(S) == {N(k, 0, 0, <<x>>) : k \in {"not", "pre"}, x \in S}
Bin(S, T) == {N(k, 0, 0, <<x, y>>) : k \in {"and", "or"}, x \in S, y \in T}
Two == Un(Leaves) \union Bin(Leaves, Leaves)
Some == Bin({N("prog", 2, 1, <<>>), N("prog", 3, 0, <<>>)}, Two \union Un(Un(Leaves)))
Trees == Leaves \union Two \union Un(Two) \union Some \union Un(Some)

L == <<"set", {1}>>
RECURSIVE Expr(_)
Expr(t) ==
  CASE t.k = "prog" -> MkCat(MkRep(L, t.b, t.b),
                             IF t.a = 0 THEN Eps ELSE MkRep(MkRep(L, t.a, t.a), 0, Inf))
    [] t.k = "range" -> IF t.a > t.b THEN None ELSE MkRep(L, t.a, t.b)
    [] t.k = "from" -> MkRep(L, t.a, Inf)
    [] t.k = "and" -> MkAnd({Expr(t.x[i]) : i \in 1..Len(t.x)})
    [] t.k = "or" -> MkOr({Expr(t.x[i]) : i \in 1..Len(t.x)})
    [] t.k = "not" -> MkNot(Expr(t.x[1]))
    [] t.k = "pre" -> MkPre(Expr(t.x[1]))

\* t: tree; n: letters read (folded), or -1 after another byte; r: residual
VARIABLES t, n, r
Init == t \in Trees /\ n = 0 /\ r = Expr(t)
Next == /\ UNCHANGED t
        /\ \/ n >= 0 /\ n' = U!Fold(t, n + 1) /\ r' = Der(r, 1, A)
           \/ n < 0 /\ n' = n /\ r' = Der(r, 1, A)
           \/ n' = -1 /\ r' = Der(r, 2, A)
Spec == Init /\ [][Next]_<<t, n, r>>

MemberOK == Nullable(r, A) = IF n < 0 THEN U!Else(t) ELSE U!Table(t, U!Size(t))[n]
AliveOK == NonEmpty(r, A) =
  IF n < 0 THEN U!Else(t)
  ELSE U!Later(U!Table(t, U!Size(t)), U!Far(t), U!Per(t), n, U!Else(t))
EmptyOK == n = 0 => (U!Empty(t) <=> U!In(t, N("range", 2, 1, <<>>)))
=============================================================================
