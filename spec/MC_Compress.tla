------------------------------ MODULE MC_Compress -----------------------------
(***************************************************************************)
(* Byte classes (C10): letters are put into one class when they belong to  *)
(* the same sets of the expression; a letter that occurs as a single byte  *)
(* gets a class of its own.  The expression over classes accepts the       *)
(* translated words exactly, and the inverse of a class is defined when    *)
(* the class has one letter.  Every expression of the file ASTS, over an   *)
(* alphabet with two letters more than it uses.                            *)
(***************************************************************************)
EXTENDS RegexSem, Json, IOUtils, TLC

Exprs == JsonDeserialize(IOEnv.ASTS)
A == 1..5

RECURSIVE SetsOf(_), Image(_, _)
SetsOf(r) ==
  CASE r[1] = "set" -> {r[2]}
    [] r[1] = "cat" -> UNION {SetsOf(r[2][i]) : i \in 1..Len(r[2])}
    [] r[1] \in {"or", "and"} -> UNION {SetsOf(x) : x \in r[2]}
    [] r[1] \in {"not", "rep", "pre"} -> SetsOf(r[2])
    [] OTHER -> {}
Image(r, f) ==
  CASE r[1] = "set" -> <<"set", {f[c] : c \in r[2]}>>
    [] r[1] = "cat" -> <<"cat", [i \in 1..Len(r[2]) |-> Image(r[2][i], f)]>>
    [] r[1] \in {"or", "and"} -> <<r[1], {Image(x, f) : x \in r[2]}>>
    [] r[1] \in {"not", "pre"} -> <<r[1], Image(r[2], f)>>
    [] r[1] = "rep" -> <<"rep", Image(r[2], f), r[3], r[4]>>
    [] OTHER -> r
Sig(c, T) == {S \in T : c \in S}
\* the class of a letter is numbered by its least member, then made dense
Classes(r) ==
  LET T == SetsOf(r)
      least == [c \in A |-> CHOOSE b \in A : /\ Sig(b, T) = Sig(c, T)
                                             /\ \A d \in A : Sig(d, T) = Sig(c, T) => b <= d]
      L == {least[c] : c \in A}
  IN [c \in A |-> Cardinality({b \in L : b < least[c]})]

VARIABLES i, f, r, s
vars == <<i, f, r, s>>
Init == /\ i \in 1..Len(Exprs) /\ r = FromJ(Exprs[i])
        /\ f = Classes(FromJ(Exprs[i])) /\ s = Image(FromJ(Exprs[i]), f)
K == {f[c] : c \in A}
Next == \E c \in A : r' = Der(r, c, A) /\ s' = Der(s, f[c], K) /\ UNCHANGED <<i, f>>
Spec == Init /\ [][Next]_vars

AcceptOK == Nullable(r, A) <=> Nullable(s, K)
AliveOK == NonEmpty(r, A) <=> NonEmpty(s, K)
DenseOK == K = 0..(Cardinality(K) - 1)
ClassOK == \A b, c \in A : f[b] = f[c] => Der(r, b, A) = Der(r, c, A)
=============================================================================
