------------------------------ MODULE RegexSem ------------------------------
(***************************************************************************)
(* The language theory derivre implements: extended regular expressions    *)
(* over bytes (union, intersection, complement, bounded repetition,        *)
(* prefixes).  Two independent definitions of membership are given:        *)
(*                                                                         *)
(*   InLang  - denotational, by splitting the word (the meaning);          *)
(*   Der/Nullable - residuals modulo a few identities (a decision          *)
(*             procedure that is finite-state, so that TLC can explore it  *)
(*             in lock step with the implementation).                      *)
(*                                                                         *)
(* MC_Regex.tla checks with TLC that they agree on every small expression  *)
(* and word; the conformance modules then use the residuals as the state   *)
(* of the specification.                                                   *)
(*                                                                         *)
(* An expression is a tagged tuple:                                        *)
(*   <<"eps">> <<"none">> <<"set", S>> <<"cat", seq>> <<"or", set>>        *)
(*   <<"and", set>> <<"not", r>> <<"rep", r, min, max>> <<"pre", r>>       *)
(* with S a set of letters (integers) and max = -1 for "no upper bound".   *)
(* <<"ucls", R>> is one character out of the code point ranges R in its    *)
(* UTF-8 encoding, <<"u8", n, R>> the last n bytes of such an encoding.    *)
(* The parameter A of the operators is the alphabet (a set of letters).    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Inf == -1
Eps == <<"eps">>
None == <<"none">>
All == <<"not", None>>

MkSet(S) == IF S = {} THEN None ELSE <<"set", S>>

CatArgs(x) == IF x[1] = "cat" THEN x[2] ELSE IF x = Eps THEN <<>> ELSE <<x>>

CatOfSeq(q) == IF Len(q) = 0 THEN Eps ELSE IF Len(q) = 1 THEN q[1] ELSE <<"cat", q>>

MkCat(a, b) ==
  IF a = None \/ b = None THEN None
  ELSE IF a = Eps THEN b
  ELSE IF b = Eps THEN a
  ELSE <<"cat", CatArgs(a) \o CatArgs(b)>>

RECURSIVE MkCatSeq(_)
MkCatSeq(q) == IF q = <<>> THEN Eps ELSE MkCat(q[1], MkCatSeq(Tail(q)))

TheElem(S) == CHOOSE x \in S : TRUE

MkOr(S) ==
  LET F    == UNION {IF x[1] = "or" THEN x[2] ELSE {x} : x \in S} \ {None}
      sets == {x \in F : x[1] = "set"}
      G    == IF Cardinality(sets) > 1
              THEN (F \ sets) \union {<<"set", UNION {x[2] : x \in sets}>>}
              ELSE F
  IN IF G = {} THEN None
     ELSE IF All \in G THEN All
     ELSE IF Cardinality(G) = 1 THEN TheElem(G)
     ELSE <<"or", G>>

MkAnd(S) ==
  LET F == UNION {IF x[1] = "and" THEN x[2] ELSE {x} : x \in S} \ {All}
      sets == {x \in F : x[1] = "set"}
      G    == IF Cardinality(sets) > 1
              THEN (F \ sets) \union
                   {MkSet({c \in TheElem(sets)[2] : \A x \in sets : c \in x[2]})}
              ELSE F
  IN IF None \in G THEN None
     ELSE IF G = {} THEN All
     ELSE IF Cardinality(G) = 1 THEN TheElem(G)
     ELSE <<"and", G>>

MkNot(x) == IF x[1] = "not" THEN x[2] ELSE <<"not", x>>

MkRep(r, mn, mx) ==
  IF r = None THEN IF mn = 0 THEN Eps ELSE None
  ELSE IF r = Eps \/ mx = 0 THEN Eps
  ELSE IF mn = 1 /\ mx = 1 THEN r
  ELSE <<"rep", r, mn, mx>>

MkPre(r) == IF r = None \/ r = Eps \/ r[1] = "pre" THEN r ELSE <<"pre", r>>

Dec(n) == IF n = 0 THEN 0 ELSE n - 1          \* saturating
DecMax(n) == IF n = Inf THEN Inf ELSE Dec(n)

(* One character in UTF-8.  A residual keeps the ranges of what the n        *)
(* missing continuation bytes (six bits each) may still spell.               *)
Pow64(n) == CASE n = 0 -> 1 [] n = 1 -> 64 [] n = 2 -> 4096 [] n = 3 -> 262144
Lower(a, b) == IF a < b THEN a ELSE b
Upper(a, b) == IF a < b THEN b ELSE a
\* the part of ranges R that lies in lo..hi, relative to base
Within(R, lo, hi, base) ==
  {<<Upper(x[1], lo) - base, Lower(x[2], hi) - base>> :
     x \in {y \in R : y[1] <= hi /\ lo <= y[2]}}
MkU8(n, R) == IF R = {} THEN None ELSE IF n = 0 THEN Eps ELSE <<"u8", n, R>>
DerU8(n, R, c) ==
  IF c \in 128..191
  THEN LET base == (c - 128) * Pow64(n - 1)
       IN MkU8(n - 1, Within(R, base, base + Pow64(n - 1) - 1, base))
  ELSE None
\* lead byte: n continuation bytes follow; code points below `min` would be
\* overlong forms
Lead(R, n, bits, min) ==
  LET base == bits * Pow64(n)
  IN MkU8(n, Within(R, Upper(base, min), Lower(base + Pow64(n) - 1, 1114111), base))
DerChar(R, c) ==
  CASE c < 128        -> MkU8(0, Within(R, c, c, c))
    [] c \in 192..223 -> Lead(R, 1, c - 192, 128)
    [] c \in 224..239 -> Lead(R, 2, c - 224, 2048)
    [] c \in 240..247 -> Lead(R, 3, c - 240, 65536)
    [] OTHER          -> None

RECURSIVE Nullable(_, _), NonEmpty(_, _), NonEmptyFrom(_, _, _), Der(_, _, _),
          DerCat(_, _, _)

(* Residual of r after letter c.                                            *)
Der(r, c, A) ==
  CASE r[1] = "eps"  -> None
    [] r[1] = "none" -> None
    [] r[1] = "set"  -> IF c \in r[2] THEN Eps ELSE None
    [] r[1] = "cat"  -> DerCat(r[2], c, A)
    [] r[1] = "or"   -> MkOr({Der(x, c, A) : x \in r[2]})
    [] r[1] = "and"  -> MkAnd({Der(x, c, A) : x \in r[2]})
    [] r[1] = "not"  -> MkNot(Der(r[2], c, A))
    [] r[1] = "rep"  -> LET d == Der(r[2], c, A)
                        IN IF d = None THEN None
                           ELSE MkCat(d, MkRep(r[2], Dec(r[3]), DecMax(r[4])))
    [] r[1] = "pre"  -> MkPre(Der(r[2], c, A))
    [] r[1] = "ucls" -> DerChar(r[2], c)
    [] r[1] = "u8"   -> DerU8(r[2], r[3], c)

DerCat(q, c, A) ==
  LET d    == Der(q[1], c, A)
      here == IF d = None THEN None
              ELSE CatOfSeq(CatArgs(d) \o Tail(q))
  IN IF Len(q) = 1 THEN d
     ELSE IF Nullable(q[1], A)
          THEN MkOr({here, DerCat(Tail(q), c, A)})
          ELSE here

Nullable(r, A) ==
  CASE r[1] = "eps"  -> TRUE
    [] r[1] = "none" -> FALSE
    [] r[1] \in {"set", "ucls", "u8"} -> FALSE
    [] r[1] = "cat"  -> \A i \in 1..Len(r[2]) : Nullable(r[2][i], A)
    [] r[1] = "or"   -> \E x \in r[2] : Nullable(x, A)
    [] r[1] = "and"  -> \A x \in r[2] : Nullable(x, A)
    [] r[1] = "not"  -> ~Nullable(r[2], A)
    [] r[1] = "rep"  -> r[3] = 0 \/ Nullable(r[2], A)
    [] r[1] = "pre"  -> NonEmpty(r[2], A)

(* A sufficient syntactic condition for accepting some word.                *)
RECURSIVE Positive(_)
Positive(r) ==
  CASE r[1] \in {"eps", "set", "ucls", "u8"} -> TRUE
    [] r[1] = "cat" -> \A i \in 1..Len(r[2]) : Positive(r[2][i])
    [] r[1] = "or"  -> \E x \in r[2] : Positive(x)
    [] r[1] = "rep" -> r[3] = 0 \/ Positive(r[2])
    [] r[1] = "pre" -> Positive(r[2])
    [] OTHER        -> FALSE

RECURSIVE SetAsSeq(_)
SetAsSeq(S) == IF S = {} THEN <<>>
               ELSE LET x == TheElem(S) IN <<x>> \o SetAsSeq(S \ {x})

(* Is any word accepted?  Exploration of the residuals, depth first.        *)
NonEmptyFrom(seen, stack, A) ==
  IF stack = <<>> THEN FALSE
  ELSE IF Positive(stack[1]) \/ Nullable(stack[1], A) THEN TRUE
  ELSE LET nxt == {Der(stack[1], c, A) : c \in A} \ (seen \union {None})
       IN NonEmptyFrom(seen \union nxt, SetAsSeq(nxt) \o Tail(stack), A)

NonEmpty(r, A) ==
  IF r = None THEN FALSE ELSE NonEmptyFrom({r}, <<r>>, A)

RECURSIVE DerWord(_, _, _)
DerWord(r, w, A) == IF w = <<>> THEN r ELSE DerWord(Der(r, Head(w), A), Tail(w), A)

Accepts(r, w, A) == Nullable(DerWord(r, w, A), A)

(***************************************************************************)
(* The denotational meaning.  K bounds only the extensions tried for the   *)
(* prefix operator.                                                        *)
(***************************************************************************)
Words(A, n) == UNION {[1..k -> A] : k \in 0..n}

RECURSIVE InLang(_, _, _, _)
InLang(r, w, A, K) ==
  CASE r[1] = "eps"  -> w = <<>>
    [] r[1] = "none" -> FALSE
    [] r[1] = "set"  -> Len(w) = 1 /\ w[1] \in r[2]
    [] r[1] = "cat"  ->
         IF Len(r[2]) = 1 THEN InLang(r[2][1], w, A, K)
         ELSE \E i \in 0..Len(w) :
                /\ InLang(r[2][1], SubSeq(w, 1, i), A, K)
                /\ InLang(<<"cat", Tail(r[2])>>, SubSeq(w, i+1, Len(w)), A, K)
    [] r[1] = "or"   -> \E x \in r[2] : InLang(x, w, A, K)
    [] r[1] = "and"  -> \A x \in r[2] : InLang(x, w, A, K)
    [] r[1] = "not"  -> ~InLang(r[2], w, A, K)
    [] r[1] = "rep"  ->
         \* some number k of factors with min <= k <= max, each in r; factors
         \* that are empty can be dropped from or added to any decomposition
         IF w = <<>> THEN r[3] = 0 \/ InLang(r[2], <<>>, A, K)
         ELSE /\ r[4] # 0
              /\ \E i \in 1..Len(w) :
                   /\ InLang(r[2], SubSeq(w, 1, i), A, K)
                   /\ InLang(<<"rep", r[2], Dec(r[3]), DecMax(r[4])>>,
                             SubSeq(w, i+1, Len(w)), A, K)
    [] r[1] = "pre"  -> \E x \in Words(A, K) : InLang(r[2], w \o x, A, K)

(***************************************************************************)
(* Expressions as they arrive from the harness (JSON arrays).  The AST is  *)
(* the one given to the builder, before any rewriting by the code.         *)
(***************************************************************************)
Range(q) == {q[i] : i \in 1..Len(q)}

\* surrogates are no characters: a class never contains them
NoSurrogates(R) ==
  {x \in UNION {{<<y[1], Lower(y[2], 55295)>>, <<Upper(y[1], 57344), y[2]>>} : y \in R} :
     x[1] <= x[2]}

RECURSIVE FromJ(_)
FromJ(j) ==
  CASE j[1] = "eps"  -> Eps
    [] j[1] = "none" -> None
    [] j[1] = "set"  -> MkSet(Range(j[2]))
    [] j[1] = "lit"  -> CatOfSeq([i \in 1..Len(j[2]) |-> <<"set", {j[2][i]}>>])
    [] j[1] = "cat"  -> MkCatSeq([i \in 1..Len(j[2]) |-> FromJ(j[2][i])])
    [] j[1] = "or"   -> MkOr({FromJ(j[2][i]) : i \in 1..Len(j[2])})
    [] j[1] = "and"  -> MkAnd({FromJ(j[2][i]) : i \in 1..Len(j[2])})
    [] j[1] = "not"  -> MkNot(FromJ(j[2]))
    [] j[1] = "rep"  -> MkRep(FromJ(j[2]), j[3], j[4])
    [] j[1] = "pre"  -> MkPre(FromJ(j[2]))
    [] j[1] = "ucls" -> LET R == NoSurrogates(Range(j[2]))
                        IN IF R = {} THEN None ELSE <<"ucls", R>>
\* the same words, by bisimulation
RECURSIVE SameFrom(_, _, _)
SameFrom(seen, stack, Sigma) ==
  IF stack = <<>> THEN TRUE
  ELSE LET p == stack[1]
           nxt == {<<Der(p[1], c, Sigma), Der(p[2], c, Sigma)>> : c \in Sigma}
           new == {q \in nxt : q[1] # q[2] /\ q \notin seen}
       IN IF Nullable(p[1], Sigma) # Nullable(p[2], Sigma) THEN FALSE
          ELSE SameFrom(seen \union new, SetAsSeq(new) \o Tail(stack), Sigma)
SameLanguage(x, y, Sigma) == x = y \/ SameFrom({<<x, y>>}, <<<<x, y>>>>, Sigma)
=============================================================================
