------------------------------- MODULE Unary ----------------------------------
(***************************************************************************)
(* Expressions over one letter a as sets of numbers: n stands for a^n.     *)
(* All words with another byte behave alike, so they are one more element, *)
(* Else.  Every set is periodic from Far(t) on with period Per(t), so that *)
(* a table of the first Far + Per numbers says everything about it.        *)
(*                                                                         *)
(* A tree is [k, a, b, x]: prog(a,b) = {b, a+b, 2a+b, ...} ({b} if a = 0), *)
(* range(a,b) = a..b, from(a) = {a, a+1, ...}, and / or / not / pre of x.  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

RECURSIVE Gcd(_, _), Per(_), Far(_)
Gcd(m, n) == IF n = 0 THEN m ELSE Gcd(n, m % n)
Lcm(m, n) == (m \div Gcd(m, n)) * n
RECURSIVE LcmAll(_), MaxAll(_)
LcmAll(q) == IF q = <<>> THEN 1 ELSE Lcm(Head(q), LcmAll(Tail(q)))
MaxAll(q) == IF q = <<>> THEN 0
             ELSE LET m == MaxAll(Tail(q)) IN IF Head(q) > m THEN Head(q) ELSE m
Each(f(_), q) == [i \in 1..Len(q) |-> f(q[i])]
Per(t) == IF t.k = "prog" THEN (IF t.a = 0 THEN 1 ELSE t.a)
          ELSE LcmAll(Each(Per, t.x))
Far(t) == IF t.k = "prog" THEN t.b + 1
          ELSE IF t.k = "from" THEN t.a
          ELSE IF t.k = "range" THEN t.b + 1
          ELSE MaxAll(Each(Far, t.x))

\* is the set of words with another byte inside?
RECURSIVE Else(_)
Else(t) ==
  CASE t.k \in {"prog", "range", "from"} -> FALSE
    [] t.k = "and" -> \A i \in 1..Len(t.x) : Else(t.x[i])
    [] t.k = "or" -> \E i \in 1..Len(t.x) : Else(t.x[i])
    [] t.k = "not" -> ~Else(t.x[1])
    [] t.k = "pre" -> Else(t.x[1])

\* there is an element from n on, given the table T of a tree with that far and that period
Later(T, far, per, n, else) ==
  \/ else
  \/ \E m \in far..(far + per - 1) : T[m]        \* then there is one in every later period
  \/ \E m \in n..far : T[m]

\* membership of 0..N, where N >= Far(t) + Per(t)
RECURSIVE Table(_, _)
Table(t, N) ==
  CASE t.k = "prog" ->
         [n \in 0..N |-> IF t.a = 0 THEN n = t.b ELSE n >= t.b /\ (n - t.b) % t.a = 0]
    [] t.k = "range" -> [n \in 0..N |-> n >= t.a /\ n <= t.b]
    [] t.k = "from" -> [n \in 0..N |-> n >= t.a]
    [] t.k = "and" -> LET X == TLCEval([i \in 1..Len(t.x) |-> Table(t.x[i], N)])
                      IN [n \in 0..N |-> \A i \in 1..Len(t.x) : X[i][n]]
    [] t.k = "or" -> LET X == TLCEval([i \in 1..Len(t.x) |-> Table(t.x[i], N)])
                     IN [n \in 0..N |-> \E i \in 1..Len(t.x) : X[i][n]]
    [] t.k = "not" -> LET X == TLCEval(Table(t.x[1], N)) IN [n \in 0..N |-> ~X[n]]
    [] t.k = "pre" ->
         LET X == TLCEval(Table(t.x[1], N))
             far == Far(t.x[1])
             per == Per(t.x[1])
             always == Later(X, far, per, far, Else(t.x[1]))
         IN [n \in 0..N |-> always \/ \E m \in n..far : X[m]]

Size(t) == Far(t) + Per(t)
\* n beyond the table: the same as n - Per
Fold(t, n) == IF n <= Size(t) THEN n ELSE Far(t) + ((n - Far(t)) % Per(t))
Empty(t) == ~Later(TLCEval(Table(t, Size(t))), Far(t), Per(t), 0, Else(t))
In(s, t) == Empty([k |-> "and", a |-> 0, b |-> 0,
                   x |-> <<s, [k |-> "not", a |-> 0, b |-> 0, x |-> <<t>>]>>])
=============================================================================
