------------------------------- MODULE GenHash -------------------------------
(* All short schedules of insertions (in one call or in pieces) and clones.  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
LEN == atoi(IOEnv.LEN)
Ops == {<<"ins", 1, <<>>, <<>>>>, <<"inc", 1, <<>>, <<>>>>, <<"ins", 1, <<0>>, <<>>>>,
        <<"inc", 1, <<0>>, <<1>>>>, <<"inc", 1, <<0>>, <<0, 1>>>>,
        <<"inc", 1, <<0, 0>>, <<1, 1>>>>, <<"ins", 1, <<0, 1>>, <<>>>>,
        <<"inc", 2, <<1, 0>>, <<2>>>>, <<"ins", 2, <<0>>, <<>>>>, <<"clone", 1>>,
        <<"start", 1>>, <<"push", 1, 0>>, <<"end", 1>>, <<"end", 2>>}
ASSUME LET q == SetToSeq([1..LEN -> Ops])
       IN JsonSerialize(IOEnv.OUT, q) /\ PrintT(<<"GENERATED", Len(q)>>)
VARIABLE x
Spec == x = 0 /\ [][x' = x]_x
=============================================================================
