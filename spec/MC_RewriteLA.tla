------------------------------ MODULE MC_RewriteLA -----------------------------
(***************************************************************************)
(* The same with a trailing lookahead (C03): A LookAhead(B), alone and in  *)
(* a union with a second alternative, against the runs of LookAhead.tla.   *)
(* In a union neither lookahead matches the empty string: a state that     *)
(* accepts without lookahead and at the end of one reports the latter's    *)
(* length (TLC shows it, without this condition, for .+(?P<stop>) and      *)
(* (?P<stop>.+)), and nothing says what else it should report.             *)
(***************************************************************************)
EXTENDS Rewrite, Json, IOUtils, TLC
LOCAL L == INSTANCE LookAhead

Exprs == JsonDeserialize(IOEnv.ASTS)
A == 1..3
MAXRUN == 4                 \* lengths of runs are followed up to here

VARIABLES i, j, two, r, q
vars == <<i, j, two, r, q>>
Start(x, y) == RCat(<<RFrom(x, A), RLook(RFrom(y, A), 0)>>)
Init == \E m, n \in 1..Len(Exprs) : \E b \in BOOLEAN :
  /\ i = m /\ j = n /\ two = b
  /\ b => m < n /\ ~RFrom(Exprs[m], A).n /\ ~RFrom(Exprs[n], A).n
  /\ r = IF b
         THEN <<L!StartAlt(L!FromJ(Exprs[m]), L!FromJ(Exprs[n]), A),
                L!StartAlt(L!FromJ(Exprs[n]), L!FromJ(Exprs[m]), A)>>
         ELSE <<L!StartAlt(L!FromJ(Exprs[m]), L!FromJ(Exprs[n]), A)>>
  /\ q = IF b THEN ROr({Start(Exprs[m], Exprs[n]), Start(Exprs[n], Exprs[m])}, A)
         ELSE Start(Exprs[m], Exprs[n])
Next == \E c \in A :
  /\ r' = [n \in 1..Len(r) |-> L!DerAlt(r[n], c, A)]
  /\ q' = RDer(q, c, A)
  /\ UNCHANGED <<i, j, two>>
Spec == Init /\ [][Next]_vars
Bounded == \A n \in 1..Len(r) : \A p \in r[n].P : p[2] <= MAXRUN

AcceptOK == q.n <=> L!LensOf(r, A) # {}
LengthOK == q.n => L!LeastOf(RLens(q)) = L!LeastOf(L!LensOf(r, A))
AliveOK == RNonEmptyFrom({q}, {q}, A) <=> \E n \in 1..Len(r) : L!AliveAlt(r[n], A)
=============================================================================
