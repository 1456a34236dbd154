------------------------------ MODULE MC_Printed ------------------------------
(***************************************************************************)
(* Printing can be undone: the machine of Printed reads back every small   *)
(* expression from its text, in bytes and in symbols.  Texts are read in   *)
(* one way only, so different expressions have different texts.  (C22)     *)
(***************************************************************************)
EXTENDS Printed, IOUtils, TLC
CONSTANT Sym   \* TRUE: letters are symbols
DEPTH == atoi(IOEnv.DEPTH)
Letters == IF Sym THEN {0, 1, 12} ELSE {97, 34, 39, 92, 10, 255}

\* texts ------------------------------------------------------------------
Dig(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + (n \div 10), 48 + (n % 10)>>
HexDig(n) == IF n < 10 THEN 48 + n ELSE 55 + n
PByte(b) == IF Sym THEN <<115>> \o Dig(b)
            ELSE IF b \notin 32..126 THEN <<HexDig(b \div 16), HexDig(b % 16)>>
            ELSE IF b \in {39, 92} THEN <<39, 92, b, 39>> ELSE <<39, b, 39>>
PChar(b) == IF b = 10 THEN <<92, 110>> ELSE IF b \in {34, 92} THEN <<92, b>> ELSE <<b>>
RECURSIVE Join(_, _)
Join(q, sep) == IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)
RECURSIVE PSet(_, _)
PSet(S, first) ==
  LET a == CHOOSE x \in S : \A y \in S : x <= y
      run == {y \in S : \A z \in a..y : z \in S}
      z == CHOOSE x \in run : \A y \in run : y <= x
      t == (IF first THEN <<>> ELSE <<59>>) \o PByte(a)
           \o (IF z = a THEN <<>> ELSE <<45>> \o PByte(z))
  IN IF S = {} THEN <<>> ELSE t \o PSet(S \ run, FALSE)
Single(x) == x[1] = "set" /\ Cardinality(x[2]) = 1
Ascii(x) == Single(x) /\ TheElem(x[2]) < 128
PMax(n) == IF n = Inf THEN tMax ELSE Dig(n)
RECURSIVE P(_), PItems(_), PRun(_)
PItems(q) == \* of a sequence, each with a blank in front; runs of text together
  IF q = <<>> THEN <<>>
  ELSE LET n == CHOOSE n \in 0..Len(q) : /\ \A j \in 1..n : Single(q[j])
                                         /\ n = Len(q) \/ ~Single(q[n + 1])
       IN IF n > 1 /\ ~Sym /\ \A j \in 1..n : Ascii(q[j])
          THEN <<32, 34>> \o PRun(SubSeq(q, 1, n)) \o <<34>> \o PItems(SubSeq(q, n + 1, Len(q)))
          ELSE LET m == IF n > 1 THEN n ELSE 1
               IN Join([j \in 1..m |-> <<32>> \o P(q[j])], <<>>) \o PItems(SubSeq(q, m + 1, Len(q)))
PRun(q) == Join([j \in 1..Len(q) |-> PChar(TheElem(q[j][2]))], <<>>)
P(x) ==
  CASE x = Eps -> tEps
    [] x = None -> tNone
    [] Single(x) -> PByte(TheElem(x[2]))
    [] x[1] = "set" -> <<91>> \o PSet(x[2], TRUE) \o <<93>>
    [] x[1] = "cat" -> <<40>> \o Tail(PItems(x[2])) \o <<41>>
    [] x[1] = "or"  -> <<40>> \o Join([j \in DOMAIN SetAsSeq(x[2]) |-> P(SetAsSeq(x[2])[j])], tOr) \o <<41>>
    [] x[1] = "and" -> <<40>> \o Join([j \in DOMAIN SetAsSeq(x[2]) |-> P(SetAsSeq(x[2])[j])], tAnd) \o <<41>>
    [] x[1] = "not" -> tNot \o <<40>> \o P(x[2]) \o <<41, 41>>
    [] x[1] = "pre" -> tPre \o <<40>> \o P(x[2]) \o <<41, 41>>
    [] x[1] = "rep" -> <<40>> \o P(x[2]) \o <<41>> \o
         (CASE <<x[3], x[4]>> = <<0, Inf>> -> <<42>>
            [] <<x[3], x[4]>> = <<1, Inf>> -> <<43>>
            [] <<x[3], x[4]>> = <<0, 1>> -> <<63>>
            [] OTHER -> <<123>> \o Dig(x[3]) \o <<44, 32>> \o PMax(x[4]) \o <<125>>)

\* expressions --------------------------------------------------------------
L0 == {Eps, None} \union {<<"set", {b}>> : b \in Letters}
      \union (IF Sym THEN {<<"set", {0, 1}>>, <<"set", {0, 1, 12}>>}
              ELSE {<<"set", {97, 98, 99, 255}>>, <<"set", {10, 39, 40, 92}>>})
Bounds == {<<0, Inf>>, <<1, Inf>>, <<0, 1>>, <<2, Inf>>, <<0, 12>>, <<3, 3>>}
Up(X, Y) == {MkCat(a, b) : a \in X, b \in Y} \union {MkCat(b, a) : a \in X, b \in Y}
            \union {MkOr({a, b}) : a \in X, b \in Y} \union {MkAnd({a, b}) : a \in X, b \in Y}
            \union {MkNot(a) : a \in X} \union {MkPre(a) : a \in X}
            \union {MkRep(a, b[1], b[2]) : a \in X, b \in Bounds}
L1 == Up(L0, L0)
Small == {Eps, <<"set", {TheElem(Letters)}>>, CHOOSE x \in L0 : x[1] = "set" /\ Cardinality(x[2]) > 1}
L2 == Up(L1, Small)
All3 == IF DEPTH = 1 THEN L0 \union L1 ELSE IF DEPTH = 2 THEN L2 ELSE Up(L2, {TheElem(Small)})

VARIABLES e, T, c
vars == <<e, T, c>>
Init == e \in All3 /\ T = P(e) /\ c = Start
M(S) == MkSet(S)
Next == ~Done(T, c) /\ c' = Read(T, c, Sym, M) /\ UNCHANGED <<e, T>>
Spec == Init /\ [][Next]_vars

WellFormed == c.bad = {}
Back == Done(T, c) => Good(c) /\ Result(c) = e
Moves == [][Done(T, c) \/ c'.i > c.i]_vars
=============================================================================
