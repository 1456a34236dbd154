-------------------------------- MODULE JsonText ------------------------------
(***************************************************************************)
(* The reader of JSON-quoted text (C09): a decoder in front of the         *)
(* residuals of the original expression.  It reads the text byte by byte   *)
(* and steps the residual whenever an escape, or a byte that stands for    *)
(* itself, is complete.  Its state is [m, r]; the mode m is                *)
(*   <<"open">>   the opening quote is expected                            *)
(*   <<"in">>     between characters                                       *)
(*   <<"esc">>    after a backslash                                        *)
(*   <<"u", n>>   after \u and n zeros (n = 0, 1)                          *)
(*   <<"u2">>     after \u00;  <<"hex", h>> after \u00h                    *)
(*   <<"end">>    after the closing quote;  <<"bad">> not valid            *)
(* Esc is the set of allowed escape letters, Raw: no surrounding quotes.   *)
(***************************************************************************)
EXTENDS RegexSem, TLC

Quote == 34
Backslash == 92
Del == 127
\* letter of a short escape -> the byte it stands for
Short == (98 :> 8) @@ (102 :> 12) @@ (110 :> 10) @@ (114 :> 13) @@ (116 :> 9)
         @@ (Quote :> Quote) @@ (Backslash :> Backslash)
HexVal(c) ==
  CASE c \in 48..57  -> c - 48
    [] c \in 65..70  -> c - 55
    [] c \in 97..102 -> c - 87
    [] OTHER -> -1

StartText(r, Raw) == [m |-> IF Raw THEN <<"in">> ELSE <<"open">>, r |-> r]
BadText == [m |-> <<"bad">>, r |-> None]

Decode(x, c, Esc, Raw, Sigma) ==
  LET m == x.m
      Char(b) == [m |-> <<"in">>, r |-> Der(x.r, b, Sigma)]
      Goto(mode) == [m |-> mode, r |-> x.r]
  IN CASE m[1] = "open" -> IF c = Quote THEN Goto(<<"in">>) ELSE BadText
       [] m[1] = "in" ->
            CASE c = Backslash -> Goto(<<"esc">>)
              [] c = Quote -> IF Raw THEN BadText ELSE Goto(<<"end">>)
              [] c < 32 \/ c = Del -> BadText
              [] OTHER -> Char(c)
       [] m[1] = "esc" ->
            CASE c \notin Esc -> BadText
              [] c \in DOMAIN Short -> Char(Short[c])
              [] c = 117 -> Goto(<<"u", 0>>)
              [] OTHER -> BadText
       [] m[1] = "u" -> IF c # 48 THEN BadText
                        ELSE IF m[2] = 0 THEN Goto(<<"u", 1>>) ELSE Goto(<<"u2">>)
       [] m[1] = "u2" -> IF c \in {48, 49, 55} THEN Goto(<<"hex", c - 48>>) ELSE BadText
       [] m[1] = "hex" ->
            IF m[2] = 7 THEN IF c = 70 THEN Char(Del) ELSE BadText
            ELSE IF HexVal(c) = -1 THEN BadText ELSE Char(16 * m[2] + HexVal(c))
       [] OTHER -> BadText

AcceptsText(x, Raw, Sigma) ==
  (IF Raw THEN x.m[1] = "in" ELSE x.m[1] = "end") /\ Nullable(x.r, Sigma)
=============================================================================
