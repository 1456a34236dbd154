----------------------------- MODULE ConformHash -----------------------------
(* Logs of calls on VecHashCons and its clones, against HashCons (C11).     *)
EXTENDS HashCons, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
N == Len(Cases)
\* open: per table, <<>> or <<the vector under way>>
VARIABLES k, pos, tabs, open, ok
vars == <<k, pos, tabs, open, ok>>
C == Cases[k]
Op == C.log[pos + 1]
Init == k \in 1..N /\ pos = 0 /\ tabs = <<<<>>>> /\ open = <<<<>>>> /\ ok = TRUE
DoPut == /\ Op.op = "put"
         /\ LET T == Put(tabs[Op.t], Op.v)
            IN /\ tabs' = [tabs EXCEPT ![Op.t] = T]
               /\ ok' = (Op.id = IdOf(T, Op.v) /\ Op.len = Len(T))
         /\ UNCHANGED open
DoStart == /\ Op.op = "start"
           /\ open' = [open EXCEPT ![Op.t] = <<<<>>>>]
           /\ ok' = (open[Op.t] = <<>>) /\ UNCHANGED tabs
DoPush == /\ Op.op = "push"
          /\ open' = [open EXCEPT ![Op.t] = <<open[Op.t][1] \o Op.v>>]
          /\ ok' = TRUE /\ UNCHANGED tabs
DoEnd == /\ Op.op = "end"
         /\ LET v == open[Op.t][1]
                T == Put(tabs[Op.t], v)
            IN /\ tabs' = [tabs EXCEPT ![Op.t] = T]
               /\ ok' = (Op.id = IdOf(T, v) /\ Op.len = Len(T))
         /\ open' = [open EXCEPT ![Op.t] = <<>>]
DoGet == /\ Op.op = "get"
         /\ ok' = (Valid(tabs[Op.t], Op.id) /\ Get(tabs[Op.t], Op.id) = Op.v)
         /\ UNCHANGED <<tabs, open>>
DoValid == /\ Op.op = "valid"
           /\ ok' = (Op.b = Valid(tabs[Op.t], Op.id))
           /\ UNCHANGED <<tabs, open>>
DoClone == /\ Op.op = "clone"
           /\ tabs' = Append(tabs, tabs[Op.t])
           /\ open' = Append(open, open[Op.t]) /\ ok' = TRUE
Next == /\ C.panic = "" /\ ok /\ pos < Len(C.log)
        /\ DoPut \/ DoStart \/ DoPush \/ DoEnd \/ DoGet \/ DoValid \/ DoClone
        /\ pos' = pos + 1 /\ UNCHANGED k
Spec == Init /\ [][Next]_vars
NoPanic == C.panic = ""
AnswerOK == ok
=============================================================================
