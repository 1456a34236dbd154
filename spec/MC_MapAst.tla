------------------------------ MODULE MC_MapAst -------------------------------
(***************************************************************************)
(* map_ast (mapper.rs): an explicit stack of entries [node, target, args]; *)
(* an entry whose children have no results yet is put back, its children   *)
(* on top of it; a visited node hands its result to the entry at its       *)
(* target position.  It refines the fold of Fold.tla: each visit is one    *)
(* that the fold allows, every node is visited once, an error ends it      *)
(* (C16, C17).  All trees of the file TREES, every node as the failing one.*)
(***************************************************************************)
EXTENDS Fold, FiniteSets, Json, IOUtils, TLC

Trees == JsonDeserialize(IOEnv.TREES)

VARIABLES k, fail, stack, fold, visits, out
vars == <<k, fail, stack, fold, visits, out>>
Kids == Trees[k]
\* the result of a node: its number, negated
Res(n) == -n

Init == /\ k \in 1..Len(Trees) /\ fail \in 0..Len(Trees[k])
        /\ stack = <<[node |-> 1, trg |-> 1, args |-> <<>>]>>
        /\ fold = <<>> /\ visits = <<>> /\ out = <<"running">>
Top1 == stack[Len(stack)]
Rest == SubSeq(stack, 1, Len(stack) - 1)
Rev(q) == [j \in 1..Len(q) |-> q[Len(q) + 1 - j]]
Expand ==
  /\ out = <<"running">> /\ Len(Kids[Top1.node]) > 0 /\ Top1.args = <<>>
  /\ stack' = stack \o [j \in 1..Len(Kids[Top1.node]) |->
                          [node |-> Rev(Kids[Top1.node])[j], trg |-> Len(stack), args |-> <<>>]]
  /\ UNCHANGED <<k, fail, fold, visits, out>>
Visit ==
  /\ out = <<"running">> /\ (Len(Kids[Top1.node]) = 0 \/ Top1.args # <<>>)
  /\ visits' = Append(visits, Top1)
  /\ IF Top1.node = fail
     THEN out' = <<"error", fail>> /\ UNCHANGED <<stack, fold>>
     ELSE /\ fold' = AfterVisit(Kids, fold, Top1.node, Res(Top1.node))
          /\ IF Rest = <<>>
             THEN out' = <<"ok", Res(Top1.node)>> /\ stack' = <<>>
             ELSE /\ out' = out
                  /\ stack' = [Rest EXCEPT ![Top1.trg].args = Append(@, Res(Top1.node))]
  /\ UNCHANGED <<k, fail>>
Next == Expand \/ Visit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* each visit is one the fold allows
RefinesOK == [][visits' # visits =>
                  LET e == visits'[Len(visits')] IN MayVisit(Kids, fold, e.node, e.args)]_vars
OnceOK == \A m, n \in 1..Len(visits) : visits[m].node = visits[n].node => m = n
EndOK == /\ out[1] = "ok" => /\ fail = 0 /\ out[2] = Res(1) /\ fold = <<<<1, Res(1)>>>>
                             /\ Len(visits) = Len(Kids)
         /\ out[1] = "error" => fail # 0 /\ visits[Len(visits)].node = fail
Ends == <>(out[1] # "running")
=============================================================================
