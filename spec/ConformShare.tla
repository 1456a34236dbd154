---------------------------- MODULE ConformShare -----------------------------
(* Traces of ExprSet::map and simple_map (C21) against Shared.  caches[c] is  *)
(* what cache c holds; number 0 is used for one fold only.                    *)
EXTENDS Shared, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES k, run, pos, caches, needed, ok
vars == <<k, run, pos, caches, needed, ok>>
C == Cases[k]
R == C.log[run]
Ops(j) == Operands(C.kids, C.cat, C.null, C.log[j].cut)
Have == caches[R.cache]
Init == /\ k \in 1..Len(Cases) /\ run = 0 /\ pos = 0 /\ ok = TRUE /\ needed = {}
        /\ caches = [c \in 0..3 |-> <<>>]
AtEnd == run > 0 /\ pos = Len(R.visits)
Begin ==
  /\ C.panic = "" /\ ok /\ run < Len(C.log) /\ (run = 0 \/ AtEnd)
  /\ run' = run + 1 /\ pos' = 0
  /\ LET c == C.log[run + 1].cache
     IN /\ caches' = [caches EXCEPT ![0] = <<>>]
        /\ needed' = Needed(Ops(run + 1), DOMAIN caches'[c], C.log[run + 1].root)
  /\ UNCHANGED <<k, ok>>
Visit ==
  /\ C.panic = "" /\ ok /\ run > 0 /\ pos < Len(R.visits)
  /\ LET v == R.visits[pos + 1]
     IN /\ ok' = MayVisit(Ops(run), needed, Have, v.node, v.args)
        /\ caches' = IF ok' THEN [caches EXCEPT ![R.cache] = (v.node :> v.res) @@ @] ELSE caches
  /\ pos' = pos + 1
  /\ UNCHANGED <<k, run, needed>>
Next == Begin \/ Visit
Spec == Init /\ [][Next]_vars

NoPanic == C.panic = ""
VisitOK == ok
\* everything needed was visited, and the result is that of the root
EndOK == C.panic = "" /\ ok /\ AtEnd =>
           /\ needed \subseteq DOMAIN Have
           /\ R.root \in DOMAIN Have /\ R.out = Have[R.root]
=============================================================================
