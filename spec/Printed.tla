------------------------------- MODULE Printed -------------------------------
(***************************************************************************)
(* Printed expressions, and the machine that reads them (C22).             *)
(*                                                                         *)
(* A text is a sequence of bytes.  Its grammar:                            *)
(*   byte      'a'  '\''  0A  FF        symbol   s0  s17                   *)
(*   set       [0A;'a'-'z';FF]  [s0-s3;s7]  [_] (all symbols)              *)
(*   nothing   U+2205, empty string     U+03B5                             *)
(*   sequence  (x y z), a run of bytes of text in it may be "xyz"          *)
(*   union     (x | y)      intersection  (x & y)                          *)
(*   repeated  (x)*  (x)+  (x)?  (x){2, 5}   (4294967295 is no bound)      *)
(*   others    (U+00AC(x))   prefixes((x))   (?[+3]=(x))                   *)
(* and, where symbols stand for classes of bytes, a table behind it:       *)
(*   newline, then a line "    s0: 'a'-'m';0A" for every symbol.           *)
(*                                                                         *)
(* The machine takes one token in a step.  Its state c has the position i, *)
(* whether an operand has just ended (after), a stack of what is open (st: *)
(* kind, operator, operands so far) and bad, the set of what was wrong.    *)
(* What it makes of the text is an expression of RegexSem.                 *)
(***************************************************************************)
EXTENDS RegexSem

At(T, i) == IF i \in 1..Len(T) THEN T[i] ELSE 0
Is(T, i, w) == i + Len(w) - 1 <= Len(T) /\ \A j \in 1..Len(w) : T[i + j - 1] = w[j]

tEps  == <<206, 181>>
tNone == <<226, 136, 133>>
tNot  == <<40, 194, 172>>
tPre  == <<112, 114, 101, 102, 105, 120, 101, 115, 40>>
tLa   == <<40, 63, 91, 43>>
tLa2  == <<93, 61>>
tOr   == <<32, 124, 32>>
tAnd  == <<32, 38, 32>>
tCut  == <<226, 128, 166>>
tMax  == <<52, 50, 57, 52, 57, 54, 55, 50, 57, 53>>
tLine == <<32, 32, 32, 32>>

\* numbers: <<value, position behind it>>; -2 is "not a number that can be meant"
RECURSIVE NumEnd(_, _), NumVal(_, _, _)
NumEnd(T, i) == IF At(T, i) \in 48..57 THEN NumEnd(T, i + 1) ELSE i
NumVal(T, i, j) == IF i >= j THEN 0 ELSE 10 * NumVal(T, i, j - 1) + T[j - 1] - 48
Num(T, i) ==
  LET j == NumEnd(T, i)
  IN <<IF SubSeq(T, i, j - 1) = tMax THEN Inf
       ELSE IF j - i \in 1..9 THEN NumVal(T, i, j) ELSE -2, j>>

Hex(x) == IF x \in 48..57 THEN x - 48 ELSE IF x \in 65..70 THEN x - 55 ELSE -1
HexLow(x) == IF x \in 48..57 THEN x - 48 ELSE IF x \in 97..102 THEN x - 87 ELSE -1

\* a byte or a symbol: <<value, position behind it>>, -1 if there is none
One(T, i, sym) ==
  IF sym
  THEN LET n == Num(T, i + 1)
       IN IF At(T, i) = 115 /\ n[1] \in 0..255 THEN n ELSE <<-1, i>>
  ELSE IF At(T, i) = 39
  THEN IF At(T, i + 1) = 92
       THEN IF At(T, i + 2) \in {39, 92} /\ At(T, i + 3) = 39
            THEN <<At(T, i + 2), i + 4>> ELSE <<-1, i>>
       ELSE IF At(T, i + 1) \in 32..126 /\ At(T, i + 2) = 39
            THEN <<At(T, i + 1), i + 3>> ELSE <<-1, i>>
  ELSE IF Hex(At(T, i)) >= 0 /\ Hex(At(T, i + 1)) >= 0
  THEN <<16 * Hex(At(T, i)) + Hex(At(T, i + 1)), i + 2>>
  ELSE <<-1, i>>

\* ranges up to the byte `end`: <<set, position behind end>>; <<{}, 0>> if not well formed
RECURSIVE Ranges(_, _, _, _, _)
Ranges(T, i, sym, end, S) ==
  LET a == One(T, i, sym)
      r == At(T, a[2]) = 45
      b == IF r THEN One(T, a[2] + 1, sym) ELSE a
      U == S \union a[1]..b[1]
  IN IF a[1] = -1 \/ b[1] < a[1] THEN <<{}, 0>>
     ELSE IF At(T, b[2]) = end THEN <<U, b[2] + 1>>
     ELSE IF At(T, b[2]) = 59 THEN Ranges(T, b[2] + 1, sym, end, U)
     ELSE <<{}, 0>>

Utf8(p) ==
  IF p < 128 THEN <<p>>
  ELSE IF p < 2048 THEN <<192 + p \div 64, 128 + (p % 64)>>
  ELSE IF p < 65536 THEN <<224 + p \div 4096, 128 + ((p \div 64) % 64), 128 + (p % 64)>>
  ELSE <<240 + p \div 262144, 128 + ((p \div 4096) % 64), 128 + ((p \div 64) % 64), 128 + (p % 64)>>

\* the digits of \u{..}, from i on: <<code point, position of the brace>>
RECURSIVE Point(_, _, _)
Point(T, i, v) == IF HexLow(At(T, i)) >= 0 /\ v < 1114112
                  THEN Point(T, i + 1, 16 * v + HexLow(At(T, i))) ELSE <<v, i>>

\* the rest of a string: <<bytes, position behind the quote>>; <<.., 0>> if not well formed
Plain(x) == CASE x = 116 -> 9 [] x = 114 -> 13 [] x = 110 -> 10 [] x = 48 -> 0
              [] x \in {34, 39, 92} -> x [] OTHER -> -1
RECURSIVE Str(_, _, _)
Str(T, i, q) ==
  CASE i > Len(T) -> <<q, 0>>
    [] T[i] = 34 -> <<q, i + 1>>
    [] T[i] = 92 /\ At(T, i + 1) = 117 ->
         LET p == Point(T, i + 3, 0)
         IN IF At(T, i + 2) = 123 /\ At(T, p[2]) = 125 THEN Str(T, p[2] + 1, q \o Utf8(p[1]))
            ELSE <<q, 0>>
    [] T[i] = 92 -> IF Plain(At(T, i + 1)) >= 0
                    THEN Str(T, i + 2, Append(q, Plain(At(T, i + 1)))) ELSE <<q, 0>>
    [] OTHER -> Str(T, i + 1, Append(q, T[i]))

\* the table of symbols from position i on: a sequence, symbol 0 first; <<>> if not well formed
RECURSIVE Table(_, _, _)
Table(T, i, q) ==
  IF i > Len(T) THEN q
  ELSE LET n == Num(T, i + 5)
           S == Ranges(T, n[2] + 2, FALSE, 10, {})
       IN IF Is(T, i, tLine) /\ At(T, i + 4) = 115 /\ n[1] = Len(q)
             /\ At(T, n[2]) = 58 /\ At(T, n[2] + 1) = 32 /\ S[2] > 0
          THEN Table(T, S[2], Append(q, S[1])) ELSE <<>>
\* where the text of the expression itself ends
Break(T) == IF \E i \in 1..Len(T) : T[i] = 10
            THEN CHOOSE i \in 1..Len(T) : T[i] = 10 /\ \A j \in 1..(i - 1) : T[j] # 10
            ELSE Len(T) + 1

-----------------------------------------------------------------------------
Opened(k) == [k |-> k, op |-> "", items |-> <<>>]
Start == [i |-> 1, after |-> FALSE, st |-> <<Opened("top")>>, bad |-> {}]
Wrong(c, what) == [c EXCEPT !.bad = @ \union {what}]
Push(c, k, i) == [c EXCEPT !.i = i, !.after = FALSE, !.st = Append(@, Opened(k))]
Put(c, xs, i) ==
  [c EXCEPT !.i = i, !.after = TRUE,
            !.st = [@ EXCEPT ![Len(@)] = [@ EXCEPT !.items = @ \o xs]]]

\* what a set of bytes or symbols stands for: M(S) is an expression
ReadItem(T, c, sym, M(_)) ==
  LET i == c.i
      o == One(T, i, sym)
      s == Str(T, i + 1, <<>>)
      r == Ranges(T, i + 1, sym, 93, {})
      n == Num(T, i + 4)
  IN CASE Is(T, i, tLa) -> IF n[1] >= 0 /\ Is(T, n[2], tLa2)
                           THEN Push(c, "la", n[2] + 2) ELSE Wrong(c, "look-ahead")
       [] Is(T, i, tNot) -> Push(c, "not", i + 3)
       [] Is(T, i, tPre) -> Push(c, "pre", i + 9)
       [] At(T, i) = 40 -> Push(c, "group", i + 1)
       [] Is(T, i, tEps) -> Put(c, <<Eps>>, i + 2)
       [] Is(T, i, tNone) -> Put(c, <<None>>, i + 3)
       \* a run of text: never of symbols, never alone
       [] At(T, i) = 34 ->
            IF s[2] > 0 /\ ~sym /\ Len(s[1]) > 1 /\ c.st[Len(c.st)].k = "group"
            THEN Put(c, [j \in 1..Len(s[1]) |-> M({s[1][j]})], s[2]) ELSE Wrong(c, "string")
       [] At(T, i) = 91 ->
            IF sym /\ At(T, i + 1) = 95 /\ At(T, i + 2) = 93 THEN Put(c, <<M(0..255)>>, i + 3)
            ELSE IF r[2] > 0 /\ Cardinality(r[1]) > 1 THEN Put(c, <<M(r[1])>>, r[2])
            ELSE Wrong(c, "set")
       [] OTHER -> IF o[1] >= 0 THEN Put(c, <<M({o[1]})>>, o[2]) ELSE Wrong(c, "item")

Combined(f) ==
  CASE f.op = "or"  -> MkOr({f.items[j] : j \in 1..Len(f.items)})
    [] f.op = "and" -> MkAnd({f.items[j] : j \in 1..Len(f.items)})
    [] OTHER        -> MkCatSeq(f.items)

Close(T, c) ==
  LET f == c.st[Len(c.st)]
      up == [c EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)]
      i == c.i + 1
      one == Len(f.items) = 1 /\ f.op = ""
      a == Num(T, i + 1)
      b == Num(T, a[2] + 2)
      rep == /\ a[1] >= 0 /\ At(T, a[2]) = 44 /\ At(T, a[2] + 1) = 32
             /\ b[1] >= -1 /\ At(T, b[2]) = 125
  IN CASE f.k = "group" ->
            IF At(T, i) \in {42, 43, 63, 123} /\ ~one THEN Wrong(c, "repetition")
            ELSE CASE At(T, i) = 42 -> Put(up, <<MkRep(f.items[1], 0, Inf)>>, i + 1)
                   [] At(T, i) = 43 -> Put(up, <<MkRep(f.items[1], 1, Inf)>>, i + 1)
                   [] At(T, i) = 63 -> Put(up, <<MkRep(f.items[1], 0, 1)>>, i + 1)
                   [] At(T, i) = 123 ->
                        IF rep THEN Put(up, <<MkRep(f.items[1], a[1], b[1])>>, b[2] + 1)
                        ELSE Wrong(c, "repetition")
                   [] OTHER -> Put(up, <<Combined(f)>>, i)
       [] f.k = "not" /\ one -> Put(up, <<MkNot(f.items[1])>>, i)
       [] f.k = "pre" /\ one -> Put(up, <<MkPre(f.items[1])>>, i)
       [] f.k = "la" /\ one  -> Put(up, f.items, i)
       [] OTHER -> Wrong(c, "parenthesis")

Operator(c, op, n) ==
  LET f == c.st[Len(c.st)]
  IN IF f.k = "group" /\ f.op \in {"", op}
     THEN [c EXCEPT !.i = @ + n, !.after = FALSE, !.st = [@ EXCEPT ![Len(@)] = [@ EXCEPT !.op = op]]]
     ELSE Wrong(c, "operator")

ReadAfter(T, c) ==
  CASE At(T, c.i) = 41 /\ Len(c.st) > 1 -> Close(T, c)
    [] Is(T, c.i, tOr)  -> Operator(c, "or", 3)
    [] Is(T, c.i, tAnd) -> Operator(c, "and", 3)
    [] At(T, c.i) = 32  -> Operator(c, "cat", 1)
    [] OTHER -> Wrong(c, "separator")

Done(T, c) == c.bad # {} \/ (c.after /\ Len(c.st) = 1 /\ c.i = Break(T))
Read(T, c, sym, M(_)) == IF c.after THEN ReadAfter(T, c) ELSE ReadItem(T, c, sym, M)
Result(c) == c.st[1].items[1]
Good(c) == c.bad = {} /\ Len(c.st) = 1 /\ Len(c.st[1].items) = 1 /\ c.st[1].op = ""
=============================================================================
