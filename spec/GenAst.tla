------------------------------- MODULE GenAst -------------------------------
(***************************************************************************)
(* All expressions with at most SIZE operators and leaves over the letters *)
(* 1..3, in the JSON form understood by the harness and by FromJ, written  *)
(* to the file named by OUT.  The harness gives each letter a set of bytes *)
(* and replays every expression into the real builder.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

Leaves == {<<"eps">>, <<"none">>, <<"set", <<1>>>>, <<"set", <<2>>>>,
           <<"set", <<1, 2>>>>, <<"set", <<1, 2, 3>>>>}
Reps == {<<0, -1>>, <<0, 1>>, <<1, -1>>, <<2, 2>>, <<1, 2>>}
WithPre == IOEnv.PRE = "1"
SIZE == atoi(IOEnv.SIZE)

Unary(S) == {<<"not", x>> : x \in S}
            \union {<<"rep", x, m[1], m[2]>> : x \in S, m \in Reps}
            \union (IF WithPre THEN {<<"pre", x>> : x \in S} ELSE {})
Binary(S, T) == UNION {{<<op, <<x, y>>>> : x \in S, y \in T} : op \in {"cat", "or", "and"}}

RECURSIVE OfSize(_)
OfSize(n) ==
  IF n = 1 THEN Leaves
  ELSE LET sub == [i \in 1..(n-1) |-> OfSize(i)]
       IN Unary(sub[n-1])
          \union UNION {Binary(sub[i], sub[n-1-i]) : i \in 1..(n-2)}

RECURSIVE UpTo(_)
UpTo(n) == IF n = 0 THEN <<>> ELSE UpTo(n-1) \o SetToSeq(OfSize(n))

ASSUME LET q == UpTo(SIZE)
       IN JsonSerialize(IOEnv.OUT, q) /\ PrintT(<<"GENERATED", Len(q)>>)
VARIABLE x
Spec == x = 0 /\ [][x' = x]_x
=============================================================================
