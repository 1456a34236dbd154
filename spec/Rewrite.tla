-------------------------------- MODULE Rewrite --------------------------------
(***************************************************************************)
(* The rewriting constructors of simplify.rs and the derivative of         *)
(* deriv.rs, on expression trees: what is flattened, dropped, merged and   *)
(* short-cut, and the two flags every node carries -                       *)
(*   nullable, which must be exact, and                                    *)
(*   positive, which may only be set when some word is accepted.           *)
(* Hash-consing and the order of operands are abstracted away (sets); the  *)
(* factoring of alternations is in MC_Trie.tla.                            *)
(*                                                                         *)
(* A node is [t: tag, n: nullable, p: positive, a: arguments].             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Node(t, n, p, a) == [t |-> t, n |-> n, p |-> p, a |-> a]
REps == Node("eps", TRUE, TRUE, <<>>)
RNone == Node("none", FALSE, FALSE, <<>>)
RSet(S) == IF S = {} THEN RNone ELSE Node("set", FALSE, TRUE, S)
\* any byte string, and any but the empty one, are preallocated
RAllOf(A) == Node("rep", TRUE, TRUE, <<RSet(A), 0, -1>>)
RSomeOf(A) == Node("rep", FALSE, TRUE, <<RSet(A), 1, -1>>)

RECURSIVE Flat(_, _), FlatSeq(_)
Flat(t, S) == UNION {IF x.t = t THEN x.a ELSE {x} : x \in S}
FlatSeq(q) == IF q = <<>> THEN <<>>
              ELSE (IF q[1].t = "cat" THEN q[1].a ELSE IF q[1] = REps THEN <<>> ELSE <<q[1]>>)
                   \o FlatSeq(Tail(q))
Pick(S) == CHOOSE x \in S : TRUE

ROr(S, A) ==
  LET F == Flat("or", S) \ {RNone}
      sets == {x \in F : x.t = "set"}
      G == IF Cardinality(sets) > 1
           THEN (F \ sets) \union {RSet(UNION {x.a : x \in sets})} ELSE F
      las == {x \in G : x.t = "la"}
      \* of lookaheads with the same rest only the shortest
      H == {x \in G : x.t = "la" => \A y \in las : y.a[1] = x.a[1] => x.a[2] <= y.a[2]}
  IN IF RAllOf(A) \in F THEN RAllOf(A)
     ELSE IF H = {} THEN RNone
     ELSE IF Cardinality(H) = 1 THEN Pick(H)
     ELSE Node("or", \E x \in F : x.n, \E x \in F : x.p, H)

RAnd(S, A) ==
  LET F == Flat("and", S) \ {RAllOf(A)}
      null == \A x \in F : x.n
  IN IF RNone \in F THEN RNone
     ELSE IF F = {} THEN RAllOf(A)
     ELSE IF Cardinality(F) = 1 THEN Pick(F)
     ELSE IF REps \in F THEN IF null THEN REps ELSE RNone
     ELSE Node("and", null, null, F)

RCat(q) ==
  LET F == FlatSeq(q)
  IN IF F = <<>> THEN REps
     ELSE IF Len(F) = 1 THEN F[1]
     ELSE IF \E i \in 1..Len(F) : F[i] = RNone THEN RNone
     ELSE Node("cat", \A i \in 1..Len(F) : F[i].n, \A i \in 1..Len(F) : F[i].p, F)

RRep(x, mn, mx) ==
  IF x = RNone THEN IF mn = 0 THEN REps ELSE RNone
  ELSE IF x = REps \/ mx = 0 THEN REps
  ELSE IF mn = 1 /\ mx = 1 THEN x
  ELSE LET m == IF x.n THEN 0 ELSE mn
       IN Node("rep", m = 0, m = 0 \/ x.p, <<x, m, mx>>)

RNot(x, A) ==
  IF x = REps THEN RSomeOf(A)
  ELSE IF x = RSomeOf(A) THEN REps
  ELSE IF x = RAllOf(A) THEN RNone
  ELSE IF x = RNone THEN RAllOf(A)
  ELSE IF x.t = "not" THEN x.a[1]
  ELSE Node("not", ~x.n, ~x.n, <<x>>)

RLook(x, off) ==
  IF x = RNone THEN RNone
  ELSE Node("la", x.n, x.p, <<IF x.n THEN REps ELSE x, off>>)

RECURSIVE RDer(_, _, _), RNonEmptyFrom(_, _, _), RPre(_, _)
\* a prefix operator that matches nothing is no-match
RPre(x, A) ==
  IF x \in {RNone, REps} \/ x.t = "pre" THEN x
  ELSE IF ~x.p /\ ~RNonEmptyFrom({x}, {x}, A) THEN RNone
  ELSE Node("pre", TRUE, TRUE, <<x>>)
RNonEmptyFrom(seen, new, A) ==
  IF \E x \in new : x.p THEN TRUE
  ELSE LET nx == {RDer(x, c, A) : x \in new, c \in A} \ seen
       IN IF nx = {} THEN FALSE ELSE RNonEmptyFrom(seen \union nx, nx, A)

Less1(n) == IF n = -1 THEN -1 ELSE IF n = 0 THEN 0 ELSE n - 1
RDer(x, c, A) ==
  CASE x.t \in {"eps", "none"} -> RNone
    [] x.t = "set" -> IF c \in x.a THEN REps ELSE RNone
    [] x.t = "or"  -> ROr({RDer(y, c, A) : y \in x.a}, A)
    [] x.t = "and" -> RAnd({RDer(y, c, A) : y \in x.a}, A)
    [] x.t = "not" -> RNot(RDer(x.a[1], c, A), A)
    [] x.t = "pre" -> RPre(RDer(x.a[1], c, A), A)
    [] x.t = "rep" -> LET tail == RRep(x.a[1], Less1(x.a[2]), Less1(x.a[3]))
                      IN RCat(<<RDer(x.a[1], c, A), tail>>)
    [] x.t = "la"  -> IF x.a[1] = REps THEN RNone ELSE RLook(RDer(x.a[1], c, A), x.a[2] + 1)
    [] x.t = "cat" ->
         \* a first byte that cannot match decides at once
         IF x.a[1].t = "set" /\ c \notin x.a[1].a THEN RNone
         ELSE LET n == CHOOSE m \in 1..Len(x.a) :
                         /\ \A j \in 1..(m - 1) : x.a[j].n
                         /\ m = Len(x.a) \/ ~x.a[m].n
              IN ROr({RCat(<<RDer(x.a[m], c, A)>> \o SubSeq(x.a, m + 1, Len(x.a))) : m \in 1..n}, A)

\* Lookahead lengths of an accepting state: those of the lookaheads that have
\* ended, else 0.
RLens(x) == LET S == IF x.t = "or" THEN x.a ELSE {x}
                ended == {y.a[2] : y \in {z \in S : z.t = "la" /\ z.a[1] = REps}}
            IN IF ended = {} THEN {0} ELSE ended

RECURSIVE RFrom(_, _)
\* from the JSON form, bottom up
RFrom(j, A) ==
  CASE j[1] = "eps"  -> REps
    [] j[1] = "none" -> RNone
    [] j[1] = "set"  -> RSet({j[2][i] : i \in 1..Len(j[2])})
    [] j[1] = "cat"  -> RCat([i \in 1..Len(j[2]) |-> RFrom(j[2][i], A)])
    [] j[1] = "or"   -> ROr({RFrom(j[2][i], A) : i \in 1..Len(j[2])}, A)
    [] j[1] = "and"  -> RAnd({RFrom(j[2][i], A) : i \in 1..Len(j[2])}, A)
    [] j[1] = "not"  -> RNot(RFrom(j[2], A), A)
    [] j[1] = "rep"  -> RRep(RFrom(j[2], A), j[3], j[4])
    [] j[1] = "pre"  -> RPre(RFrom(j[2], A), A)
=============================================================================
