------------------------------ MODULE MC_JsonText -----------------------------
(***************************************************************************)
(* Quoting as an expression against reading quoted text (C09).  The quoted *)
(* form of an expression replaces each byte by the alternation of the ways *)
(* to write it; the reader of JsonText.tla decodes.  For every expression  *)
(* below, several sets of allowed escapes, raw or not, the two agree after *)
(* every text - the product of both is explored completely.                *)
(***************************************************************************)
EXTENDS JsonText

\* newline, tab, ^A, ^_, quote, backslash, DEL, letters and digits that also
\* occur in escapes, a byte above ASCII
Plain == {1, 9, 10, 31, 34, 48, 65, 92, 97, 110, 117, 127, 200}
Text == {1, 9, 10, 31, 34, 47, 48, 49, 55, 65, 70, 71, 92, 97, 98, 102, 110, 116, 117, 127, 200}
Escs == {{}, {110}, {117}, {34, 92}, {117, 34}, {98, 102, 110, 114, 116, 117, 34, 92},
         {98, 102, 110, 114, 116, 34, 92}}
S(T) == <<"set", T>>
Exprs == {S({b}) : b \in Plain} \union
         {S(Plain), S(Plain \ {10}), S(Plain \ {92, 34}), Eps, None,
          <<"cat", <<S({10}), S({117})>>>>, <<"cat", <<S({92}), S({110, 10})>>>>,
          <<"rep", S(Plain), 0, Inf>>, <<"rep", S(Plain \ {10}), 2, 3>>,
          <<"or", {S({34}), <<"cat", <<S({92}), S({34})>>>>}>>,
          <<"cat", <<<<"rep", S({97, 127}), 0, Inf>>, S({34})>>>>,
          <<"or", {<<"cat", <<S({1}), S({1})>>>>, <<"rep", S({9, 31}), 1, Inf>>}>>}

Lit(q) == CatOfSeq([i \in 1..Len(q) |-> S({q[i]})])
Hex(n) == IF n < 10 THEN {48 + n} ELSE {55 + n, 87 + n}
\* all ways to write byte b
Forms(b, Esc) ==
  (IF b \in {Short[e] : e \in DOMAIN Short}
   THEN LET e == CHOOSE e \in DOMAIN Short : Short[e] = b
        IN IF e \in Esc THEN {Lit(<<Backslash, e>>)} ELSE {}
   ELSE {})
  \union (IF b < 32 /\ 117 \in Esc
          THEN {<<"cat", <<S({Backslash}), S({117}), S({48}), S({48}), S({48 + b \div 16}), S(Hex(b % 16))>>>>}
          ELSE {})
  \union (IF b = Del /\ 117 \in Esc THEN {Lit(<<Backslash, 117, 48, 48, 55, 70>>)} ELSE {})
  \union (IF b < 32 \/ b \in {Del, Quote, Backslash} THEN {} ELSE {S({b})})

RECURSIVE Quoted(_, _)
Quoted(r, Esc) ==
  CASE r[1] = "set" -> MkOr(UNION {Forms(b, Esc) : b \in r[2]})
    [] r[1] = "cat" -> MkCatSeq([i \in 1..Len(r[2]) |-> Quoted(r[2][i], Esc)])
    [] r[1] = "or"  -> MkOr({Quoted(y, Esc) : y \in r[2]})
    [] r[1] = "rep" -> MkRep(Quoted(r[2], Esc), r[3], r[4])
    [] OTHER -> r

VARIABLES esc, raw, d, q
vars == <<esc, raw, d, q>>
Init == \E e \in Exprs :
  /\ esc \in Escs /\ raw \in BOOLEAN
  /\ d = StartText(e, raw)
  /\ q = IF raw THEN Quoted(e, esc)
         ELSE MkCat(S({Quote}), MkCat(Quoted(e, esc), S({Quote})))
Next == \E c \in Text :
  /\ d.m[1] # "bad" \/ q # None
  /\ d' = Decode(d, c, esc, raw, Text) /\ q' = Der(q, c, Text)
  /\ UNCHANGED <<esc, raw>>
Spec == Init /\ [][Next]_vars
AgreeOK == AcceptsText(d, raw, Text) <=> Nullable(q, Text)
\* text that cannot be read is text that cannot be written
DeadOK == d.m[1] = "bad" => ~NonEmpty(q, Text)
=============================================================================
