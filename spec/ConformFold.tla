----------------------------- MODULE ConformFold -----------------------------
(* Traces of map_ast (C17) against Fold.  log: visits, with node, args and   *)
(* the result given back; the visit number `fail` gave back an error.        *)
EXTENDS Fold, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES k, pos, stack, ok
vars == <<k, pos, stack, ok>>
C == Cases[k]
Op == C.log[pos + 1]
Init == k \in 1..Len(Cases) /\ pos = 0 /\ stack = <<>> /\ ok = TRUE
Visit ==
  /\ C.panic = "" /\ ok /\ pos < Len(C.log)
  /\ ok' = MayVisit(C.kids, stack, Op.node, Op.args)
  /\ stack' = IF ok' THEN AfterVisit(C.kids, stack, Op.node, Op.res) ELSE stack
  /\ pos' = pos + 1
  /\ UNCHANGED k
Spec == Init /\ [][Visit]_vars

NoPanic == C.panic = ""
VisitOK == ok
\* at the end there is just the root, its result is the result of the fold;
\* or the last visit was the one that failed, and its error is reported
EndOK ==
  C.panic = "" /\ ok /\ pos = Len(C.log) =>
    /\ C.msg
    /\ IF C.fail = 0
       THEN C.ok /\ stack = <<<<C.root, C.out>>>>
       ELSE ~C.ok /\ pos = C.fail
=============================================================================
