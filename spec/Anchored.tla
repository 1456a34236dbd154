------------------------------- MODULE Anchored -------------------------------
(***************************************************************************)
(* Patterns with start-of-text and end-of-text assertions (C02).  The text *)
(* is consumed byte by byte; <<"bos">> is true only before the first byte, *)
(* <<"eos">> only after the last.                                          *)
(***************************************************************************)
EXTENDS RegexSem

Bos == <<"bos">>
Eos == <<"eos">>

RECURSIVE Tree(_)
Tree(j) ==
  CASE j[1] \in {"bos", "eos"} -> <<j[1]>>
    [] j[1] = "cat" -> MkCatSeq([i \in 1..Len(j[2]) |-> Tree(j[2][i])])
    [] j[1] = "or"  -> MkOr({Tree(j[2][i]) : i \in 1..Len(j[2])})
    [] j[1] = "rep" -> MkRep(Tree(j[2]), j[3], j[4])
    [] OTHER -> FromJ(j)

\* Does x match the empty string at a place that is / is not the start / end?
RECURSIVE Null(_, _, _)
Null(x, start, end) ==
  CASE x = Bos -> start
    [] x = Eos -> end
    [] x[1] = "eps" -> TRUE
    [] x[1] = "cat" -> \A i \in 1..Len(x[2]) : Null(x[2][i], start, end)
    [] x[1] = "or"  -> \E y \in x[2] : Null(y, start, end)
    [] x[1] = "rep" -> x[3] = 0 \/ Null(x[2], start, end)
    [] OTHER -> FALSE

\* start of text cannot hold any more
RECURSIVE Late(_)
Late(x) ==
  CASE x = Bos -> None
    [] x[1] = "cat" -> MkCatSeq([i \in 1..Len(x[2]) |-> Late(x[2][i])])
    [] x[1] = "or"  -> MkOr({Late(y) : y \in x[2]})
    [] x[1] = "rep" -> MkRep(Late(x[2]), x[3], x[4])
    [] OTHER -> x

\* residual after byte c; what follows the byte is never at the start
RECURSIVE D(_, _, _), DSeq(_, _, _)
D(x, c, start) ==
  CASE x \in {Bos, Eos} -> None
    [] x[1] = "cat" -> DSeq(x[2], c, start)
    [] x[1] = "or"  -> MkOr({D(y, c, start) : y \in x[2]})
    [] x[1] = "rep" ->
         \* factors matched on the empty string just before this byte count
         LET mn == IF Null(x[2], start, FALSE) THEN 0 ELSE Dec(x[3])
         IN MkCat(D(x[2], c, start), MkRep(Late(x[2]), mn, DecMax(x[4])))
    [] OTHER -> Der(x, c, {})
DSeq(q, c, start) ==
  LET here == MkCat(D(q[1], c, start),
                    MkCatSeq([i \in 1..(Len(q) - 1) |-> Late(q[i+1])]))
  IN IF Len(q) = 1 THEN here
     ELSE IF Null(q[1], start, FALSE)
          THEN MkOr({here, DSeq(Tail(q), c, start)})
          ELSE here
=============================================================================
