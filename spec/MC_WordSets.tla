----------------------------- MODULE MC_WordSets ------------------------------
(***************************************************************************)
(* The set operations of WordSets agree with the residuals of RegexSem,    *)
(* for all trees of up to two operations on small sets of words.           *)
(* (C04 C10 C12 C13 C14)                                                   *)
(***************************************************************************)
EXTENDS RegexSem, IOUtils, TLC
W == INSTANCE WordSets
LEN == atoi(IOEnv.LEN)     \* length of the words in the sets
A == 1..2

N(k, w, x) == [k |-> k, w |-> w, x |-> x]
Base == {<<1>>, <<1, 1>>, <<1, 2>>, <<2, 1>>, <<>>}
Sets == {N("set", q, <<>>) : q \in {<<>>} \union {<<u>> : u \in Base}
                                  \union {<<u, v>> : u, v \in Base}
                                  \union {<<u, v, <<1, 2, 1>>>> : u, v \in Base}}
Un(S) == {N(k, <<>>, <<x>>) : k \in {"not", "pre"}, x \in S}
Bin(S, T) == {N(k, <<>>, <<x, y>>) : k \in {"and", "or"}, x \in S, y \in T}
Two == Un(Sets) \union Bin(Sets, Sets)
Trees == Sets \union Two \union Un(Two)
         \union Bin({N("set", <<<<1>>, <<1, 2>>>>, <<>>)}, Un(Un(Sets)))

RECURSIVE Word(_), Expr(_)
Word(w) == IF w = <<>> THEN Eps ELSE MkCat(<<"set", {Head(w)}>>, Word(Tail(w)))
Expr(t) ==
  CASE t.k = "set" -> MkOr({Word(t.w[i]) : i \in 1..Len(t.w)})
    [] t.k = "and" -> MkAnd({Expr(t.x[i]) : i \in 1..Len(t.x)})
    [] t.k = "or" -> MkOr({Expr(t.x[i]) : i \in 1..Len(t.x)})
    [] t.k = "not" -> MkNot(Expr(t.x[1]))
    [] t.k = "pre" -> MkPre(Expr(t.x[1]))

VARIABLES t, w, r
Init == t \in Trees /\ w = <<>> /\ r = Expr(t)
Next == /\ Len(w) < LEN /\ UNCHANGED t
        /\ \E c \in A : w' = Append(w, c) /\ r' = Der(r, c, A)
Spec == Init /\ [][Next]_<<t, w, r>>

V == W!Value(t)
MemberOK == Nullable(r, A) <=> W!MemberIn(V, w)
AliveOK == NonEmpty(r, A) <=> W!LiveIn(V, W!Prefixes(V.w), w)
=============================================================================
