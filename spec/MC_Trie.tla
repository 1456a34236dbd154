-------------------------------- MODULE MC_Trie -------------------------------
(***************************************************************************)
(* Prefix factoring of an alternation of sequences, as simplify.rs does it *)
(* (sort, split off the common beginning, one branch per next item, and a  *)
(* plain alternation below the depth limit), against the alternation       *)
(* itself: for every set of sequences over ITEMS items of length at most   *)
(* SEQ, and every depth limit, the factored form accepts exactly the       *)
(* members (C13).                                                          *)
(***************************************************************************)
EXTENDS RegexSem, SequencesExt, TLC, IOUtils

SEQ == atoi(IOEnv.SEQ)
MAXMEM == atoi(IOEnv.MEMBERS)
A == 1..2
Items == {<<"set", {1}>>, <<"set", {2}>>, <<"set", {1, 2}>>}
Seqs == UNION {[1..n -> 1..3] : n \in 1..SEQ}
ItemSeq == <<<<"set", {1}>>, <<"set", {2}>>, <<"set", {1, 2}>>>>
RECURSIVE Less(_, _)
Less(p, q) == IF p = <<>> THEN q # <<>> ELSE IF q = <<>> THEN FALSE
              ELSE p[1] < q[1] \/ (p[1] = q[1] /\ Less(Tail(p), Tail(q)))
Sorted(S) == SortSeq(SetToSeq(S), Less)
Expr(q) == CatOfSeq([i \in 1..Len(q) |-> ItemSeq[q[i]]])

VARIABLES M, limit, w
Init == M \in UNION {kSubset(n, Seqs) : n \in 1..MAXMEM} /\ limit \in 0..2 /\ w = <<>>
Next == \E c \in A : Len(w) < SEQ + 1 /\ w' = Append(w, c) /\ UNCHANGED <<M, limit>>
Spec == Init /\ [][Next]_<<M, limit, w>>

RECURSIVE Common(_, _, _)
Common(p, q, n) == IF n < Len(p) /\ n < Len(q) /\ p[n + 1] = q[n + 1] THEN Common(p, q, n + 1) ELSE n
At(p, n) == IF n < Len(p) THEN p[n + 1] ELSE 0
\* runs of equal items at position e
RECURSIVE Groups(_, _)
Groups(q, e) ==
  IF q = <<>> THEN <<>>
  ELSE LET same == {i \in 1..Len(q) : \A j \in 1..i : At(q[j], e) = At(q[1], e)}
           n == Cardinality(same)
       IN <<SubSeq(q, 1, n)>> \o Groups(SubSeq(q, n + 1, Len(q)), e)
RECURSIVE Factor(_, _, _)
Factor(q, off, depth) ==
  IF depth > limit THEN MkOr({Expr(SubSeq(q[i], off + 1, Len(q[i]))) : i \in 1..Len(q)})
  ELSE LET e == Common(q[1], q[Len(q)], off)
           g == Groups(q, e)
       IN MkCat(Expr(SubSeq(q[1], off + 1, e)),
                MkOr({IF At(g[i][1], e) = 0 THEN Eps ELSE Factor(g[i], e, depth + 1) : i \in 1..Len(g)}))
Factored == Factor(Sorted(M), 0, 0)
FactorOK == Accepts(Factored, w, A) <=> \E q \in M : Accepts(Expr(q), w, A)
LiveOK == NonEmpty(DerWord(Factored, w, A), A) <=> \E q \in M : NonEmpty(DerWord(Expr(q), w, A), A)
=============================================================================
