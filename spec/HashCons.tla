------------------------------- MODULE HashCons ------------------------------
(***************************************************************************)
(* What a hash-consing table is: the sequence of the distinct vectors in   *)
(* the order of their first insertion; the identifier of a vector is its   *)
(* position, from 0.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Has(T, v) == \E i \in 1..Len(T) : T[i] = v
IdOf(T, v) == (CHOOSE i \in 1..Len(T) : T[i] = v) - 1
Put(T, v) == IF Has(T, v) THEN T ELSE Append(T, v)
Get(T, id) == T[id + 1]
Valid(T, id) == 0 <= id /\ id < Len(T)
=============================================================================
