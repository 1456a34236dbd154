------------------------------ MODULE ByteSets -------------------------------
(***************************************************************************)
(* Byte sets of an expression set (C20).  An alphabet is 0..n-1; what a    *)
(* combination of sets matches is the combined set, within the alphabet.   *)
(* D[id] is the set that expression id was found to stand for.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Alphabet(n) == 0..(n - 1)
Meaning(op, args, bits, D, n) ==
  LET U == UNION {D[args[i]] : i \in 1..Len(args)}
  IN CASE op = "all"  -> Alphabet(n)
       [] op = "none" -> {}
       [] op \in {"byte", "set"} -> {bits[i] : i \in 1..Len(bits)}
       [] op = "or"   -> U
       [] op \in {"negor", "not"} -> Alphabet(n) \ U
       [] op = "and"  -> D[args[1]] \cap D[args[2]]
       [] op = "sub"  -> D[args[1]] \ D[args[2]]
=============================================================================
