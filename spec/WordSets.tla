------------------------------- MODULE WordSets -------------------------------
(***************************************************************************)
(* Set operations on finite sets of words.  Every value is finite or has a *)
(* finite complement: [neg, w].  A tree is [k, w, x]: set of the words w;  *)
(* and / or / not / pre of x.                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Rng(q) == {q[i] : i \in 1..Len(q)}

Prefix(w, n) == SubSeq(w, 1, n)
Prefixes(S) == UNION {{Prefix(w, n) : n \in 0..Len(w)} : w \in S}

Meet(A, B) ==
  IF A.neg /\ B.neg THEN [neg |-> TRUE, w |-> A.w \cup B.w]
  ELSE IF A.neg THEN [neg |-> FALSE, w |-> B.w \ A.w]
  ELSE IF B.neg THEN [neg |-> FALSE, w |-> A.w \ B.w]
  ELSE [neg |-> FALSE, w |-> A.w \cap B.w]
Inv(A) == [neg |-> ~A.neg, w |-> A.w]
RECURSIVE Fold(_, _), Value(_)
Value(t) ==
  CASE t.k = "set" -> [neg |-> FALSE, w |-> Rng(t.w)]
    [] t.k = "not" -> Inv(Value(t.x[1]))
    [] t.k = "and" -> Fold(t.x, FALSE)
    [] t.k = "or" -> Inv(Fold(t.x, TRUE))
    [] t.k = "pre" -> LET A == TLCEval(Value(t.x[1]))
                      \* every word goes on to one outside a finite set
                      IN IF A.neg THEN [neg |-> TRUE, w |-> {}]
                         ELSE [neg |-> FALSE, w |-> Prefixes(A.w)]
\* the intersection of all (or of all complements)
Fold(x, inv) ==
  IF x = <<>> THEN [neg |-> TRUE, w |-> {}]
  ELSE LET A == Value(Head(x)) IN Meet(IF inv THEN Inv(A) ELSE A, Fold(Tail(x), inv))

\* membership; some continuation is a member (P: the prefixes of V.w)
MemberIn(V, w) == (w \in V.w) # V.neg
LiveIn(V, P, w) == V.neg \/ w \in P
=============================================================================
