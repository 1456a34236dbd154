------------------------------- MODULE Shared --------------------------------
(***************************************************************************)
(* The fold over an expression with shared parts (ExprSet::map, C21).      *)
(* done holds the results known so far (what was in the cache and what was *)
(* computed); a visit must be of a node that is needed - reachable from    *)
(* the root through nodes without a result - and not done, whose operands  *)
(* are done, and is given their results in order.  With `cut`, of the      *)
(* operands of a concatenation only those count that come before the first *)
(* one that does not match the empty string, and that one.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Cut(kids, cat, null, n) ==
  LET s == kids[n]
      stops == {i \in 1..Len(s) : ~null[s[i]]}
  IN IF cat[n] /\ stops # {}
     THEN SubSeq(s, 1, CHOOSE i \in stops : \A j \in stops : i <= j)
     ELSE s
Operands(kids, cat, null, cut) ==
  [n \in 1..Len(kids) |-> IF cut THEN Cut(kids, cat, null, n) ELSE kids[n]]

RECURSIVE Reach(_, _, _, _)
Reach(ops, known, seen, front) ==
  IF front = {} THEN seen
  ELSE LET nx == UNION {{ops[n][i] : i \in 1..Len(ops[n])} : n \in front} \ (seen \cup known)
       IN Reach(ops, known, seen \cup nx, nx)
\* what has to be visited, for a cache that holds results of `known`
Needed(ops, known, root) == IF root \in known THEN {} ELSE Reach(ops, known, {root}, {root})

MayVisit(ops, needed, done, n, args) ==
  /\ n \in needed /\ n \notin DOMAIN done
  /\ Len(args) = Len(ops[n])
  /\ \A i \in 1..Len(args) : ops[n][i] \in DOMAIN done /\ done[ops[n][i]] = args[i]
=============================================================================
