------------------------------- MODULE MC_Utf8 --------------------------------
(***************************************************************************)
(* The character class residuals of RegexSem against the definition of     *)
(* UTF-8: for ranges with boundaries at the interesting code points, every *)
(* sequence of at most four of the interesting bytes is accepted iff it is *)
(* the encoding of a code point of the class.                              *)
(***************************************************************************)
EXTENDS RegexSem, TLC

Bytes == {0, 65, 127, 128, 143, 144, 159, 160, 175, 191, 192, 193, 194, 195, 223, 224, 225, 236,
          237, 238, 239, 240, 241, 243, 244, 245, 255}
Full == {<<0, 1114111>>}
Classes == {{<<0, 1114111>>}, {<<0, 127>>}, {<<128, 2047>>}, {<<2048, 65535>>},
            {<<65536, 1114111>>}, {<<55295, 57344>>}, {<<65, 65>>, <<191, 192>>},
            {<<2047, 2048>>, <<65535, 65536>>}, {<<4095, 53248>>}, {<<262143, 262144>>,
             <<1114111, 1114111>>}, {<<0, 0>>, <<63, 64>>, <<4159, 4160>>}}

VARIABLES cl, w, r
vars == <<cl, w, r>>
Init == cl \in Classes /\ w = <<>> /\ r = <<"ucls", NoSurrogates(cl)>>
Next == \E c \in Bytes : /\ r # None /\ Len(w) < 5
                         /\ w' = Append(w, c) /\ r' = Der(r, c, {}) /\ UNCHANGED cl
Spec == Init /\ [][Next]_vars

Cont(i) == IF w[i] \in 128..191 THEN w[i] - 128 ELSE -9999999
\* the code point a byte sequence spells by the plain formula, or a negative number
Spelt == CASE Len(w) = 1 /\ w[1] < 128 -> w[1]
           [] Len(w) = 2 /\ w[1] \in 192..223 -> (w[1] - 192) * 64 + Cont(2)
           [] Len(w) = 3 /\ w[1] \in 224..239 ->
                (w[1] - 224) * 4096 + Cont(2) * 64 + Cont(3)
           [] Len(w) = 4 /\ w[1] \in 240..247 ->
                (w[1] - 240) * 262144 + Cont(2) * 4096 + Cont(3) * 64 + Cont(4)
           [] OTHER -> -1
\* shortest form, not a surrogate, not too large
Size(cp) == IF cp < 128 THEN 1 ELSE IF cp < 2048 THEN 2 ELSE IF cp < 65536 THEN 3 ELSE 4
Encodes(cp) == /\ cp >= 0 /\ cp <= 1114111 /\ cp \notin 55296..57343 /\ Size(cp) = Len(w)
               /\ \E x \in cl : x[1] <= cp /\ cp <= x[2]
Utf8OK == Nullable(r, {}) <=> Encodes(Spelt)
\* a residual that is not None can be completed
Lengths(q) == CASE q = Eps -> 0 [] q[1] = "u8" -> q[2] [] OTHER -> 4
LiveOK == r # None => Lengths(r) <= 4 /\ (w # <<>> => Len(w) + Lengths(r) \in 1..4)
=============================================================================
