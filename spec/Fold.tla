-------------------------------- MODULE Fold ---------------------------------
(***************************************************************************)
(* The bottom-up fold over a tree (map_ast), as a stack machine.  A visit  *)
(* of a node takes the results of its children off the stack - they must   *)
(* be there, next to each other and in order, which means that exactly its *)
(* children were visited since, each once, from left to right, and nothing *)
(* else - and puts its own result on it.                                   *)
(* Entries of the stack are <<node, result>>.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences

Top(stack, n) == SubSeq(stack, Len(stack) - n + 1, Len(stack))
MayVisit(kids, stack, node, args) ==
  LET n == Len(kids[node])
  IN /\ Len(args) = n
     /\ Len(stack) >= n
     /\ \A i \in 1..n : Top(stack, n)[i] = <<kids[node][i], args[i]>>
AfterVisit(kids, stack, node, res) ==
  Append(SubSeq(stack, 1, Len(stack) - Len(kids[node])), <<node, res>>)
=============================================================================
