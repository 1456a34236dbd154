------------------------------- MODULE SymDeriv -------------------------------
(***************************************************************************)
(* Symbolic derivatives, as relevance.rs computes them: a set of pairs     *)
(* <<S, r>> of a set of letters and an expression; the residual after      *)
(* letter c is the union of the r with c in S.  The sets may overlap.      *)
(***************************************************************************)
EXTENDS RegexSem

\* pairs with equal expressions are joined, then pairs with equal sets
BySet(P) == {<<S, MkOr({p[2] : p \in {q \in P : q[1] = S}})>> : S \in {p[1] : p \in P}}
ByExpr(P) == {<<UNION {p[1] : p \in {q \in P : q[2] = x}}, x>> : x \in {p[2] : p \in P}}
Simplify(P) == ByExpr(BySet(P))

\* Split overlapping sets until all are disjoint; the pairs in the order q.
\* One step of relevance.rs: cut the set a (with expression av) against the
\* first n entries of res.
RECURSIVE Cut(_, _, _, _, _), DisjointFrom(_, _)
Cut(res, i, n, a, av) ==
  IF i > n THEN Append(res, <<a, av>>)
  ELSE LET b == res[i][1]
           bv == res[i][2]
           ab == a \intersect b
           joined == [res EXCEPT ![i] = <<ab, MkOr({av, bv})>>]
           rest == IF b \ a = {} THEN joined ELSE Append(joined, <<b \ a, bv>>)
       IN IF a = b THEN joined
          ELSE IF ab = {} THEN Cut(res, i + 1, n, a, av)
          ELSE IF a \ ab = {} THEN rest
          ELSE Cut(rest, i + 1, n, a \ ab, av)
DisjointFrom(res, q) ==
  IF q = <<>> THEN res
  ELSE DisjointFrom(Cut(res, 1, Len(res), q[1][1], q[1][2]), Tail(q))
Disjoint(q) == DisjointFrom(<<>>, q)

RECURSIVE Sym(_, _), SymCat(_, _, _)
Meet(P, Q) == {p \in {<<x[1] \intersect y[1], MkAnd({x[2], y[2]})>> : x \in P, y \in Q} :
                 p[1] # {} /\ p[2] # None}
RECURSIVE MeetAll(_)
MeetAll(F) == IF Cardinality(F) = 1 THEN TheElem(F)
              ELSE LET P == TheElem(F) IN Meet(P, MeetAll(F \ {P}))
Sym(r, A) ==
  CASE r[1] \in {"eps", "none"} -> {}
    [] r[1] = "set" -> {<<r[2], Eps>>}
    [] r[1] = "and" -> Simplify(MeetAll({Sym(x, A) : x \in r[2]}))
    [] r[1] = "or"  -> Simplify(UNION {Sym(x, A) : x \in r[2]})
    [] r[1] = "not" ->
         LET P == Sym(r[2], A)
             Q == Range(Disjoint(SetAsSeq(P)))
             left == A \ UNION {p[1] : p \in P}
         IN Simplify({<<p[1], MkNot(p[2])>> : p \in Q}
                     \union (IF left = {} THEN {} ELSE {<<left, All>>}))
    [] r[1] = "pre" -> {<<p[1], MkPre(p[2])>> : p \in Sym(r[2], A)}
    [] r[1] = "rep" ->
         LET tail == MkRep(r[2], Dec(r[3]), DecMax(r[4]))
         IN Simplify({<<p[1], MkCat(p[2], tail)>> : p \in Sym(r[2], A)})
    [] r[1] = "cat" -> Simplify(SymCat(r[2], A, 1))
SymCat(q, A, i) ==
  IF i > Len(q) THEN {}
  ELSE {<<p[1], MkCat(p[2], CatOfSeq(SubSeq(q, i + 1, Len(q))))>> : p \in Sym(q[i], A)}
       \union (IF Nullable(q[i], A) THEN SymCat(q, A, i + 1) ELSE {})
=============================================================================
