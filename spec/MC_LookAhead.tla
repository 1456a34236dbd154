----------------------------- MODULE MC_LookAhead -----------------------------
(***************************************************************************)
(* The runs of LookAhead.tla against the definition by splitting: for all  *)
(* pairs A, B of small expressions, all words of at most LEN letters, and  *)
(* for unions of two such alternatives (B2 = B or A2 = A).                 *)
(***************************************************************************)
EXTENDS LookAhead, Json, IOUtils, TLC

Exprs == JsonDeserialize(IOEnv.ASTS)
LEN == atoi(IOEnv.LEN)
A == 1..3

VARIABLES i, j, w, r
vars == <<i, j, w, r>>
X == FromJ(Exprs[i])
Y == FromJ(Exprs[j])

Init == i \in 1..Len(Exprs) /\ j \in 1..Len(Exprs) /\ w = <<-1>> /\ r = <<>>
Load == /\ w = <<-1>> /\ w' = <<>>
        /\ r' = <<StartAlt(X, Y, A), StartAlt(MkCat(X, X), Y, A)>>
        /\ UNCHANGED <<i, j>>
Step(c) == /\ w # <<-1>> /\ Len(w) < LEN
           /\ w' = Append(w, c)
           /\ r' = [n \in 1..2 |-> DerAlt(r[n], c, A)]
           /\ UNCHANGED <<i, j>>
Next == Load \/ \E c \in A : Step(c)
Spec == Init /\ [][Next]_vars

\* lengths of rests that match B while none of their proper beginnings does
Splits(a, b) ==
  {n \in 0..Len(w) :
     LET v == SubSeq(w, Len(w) - n + 1, Len(w))
     IN /\ InLang(a, SubSeq(w, 1, Len(w) - n), A, 0)
        /\ InLang(b, v, A, 0)
        /\ \A p \in 0..(n - 1) : ~InLang(b, SubSeq(v, 1, p), A, 0)}
RunsOK ==
  w # <<-1>> =>
    /\ LensOf(<<r[1]>>, A) = {} <=> Splits(X, Y) = {}
    /\ LeastOf(LensOf(<<r[1]>>, A)) = LeastOf(Splits(X, Y))
    /\ LeastOf(LensOf(r, A)) =
         LeastOf(Splits(X, Y) \union Splits(<<"cat", <<X, X>>>>, Y))
=============================================================================
