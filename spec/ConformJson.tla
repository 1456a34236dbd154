----------------------------- MODULE ConformJson -----------------------------
(***************************************************************************)
(* JSON-quoted forms (C09): the reader of JsonText.tla in lock step with    *)
(* the automaton of the matcher built from the quoted expression.          *)
(***************************************************************************)
EXTENDS JsonText, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
N == Len(Cases)

VARIABLES k, m, r, s
vars == <<k, m, r, s>>
Sigma == Range(Cases[k].reps)
St(i) == Cases[k].st[i]
Loaded == s > 0
Esc == Range(Cases[k].esc)
Raw == Cases[k].raw

SpecAcc == AcceptsText([m |-> m, r |-> r], Raw, Sigma)

Init == k \in 1..N /\ m = <<"start">> /\ r = None /\ s = -1
Load ==
  /\ s = -1
  /\ Cases[k].panic = "" /\ ~Cases[k].err
  /\ LET d == StartText(FromJ(Cases[k].ast), Raw) IN m' = d.m /\ r' = d.r
  /\ s' = Cases[k].init
  /\ UNCHANGED k
Step(i) ==
  /\ St(s).t # <<>>
  /\ St(s).t[i] # 0
  /\ s' = St(s).t[i]
  /\ LET d == Decode([m |-> m, r |-> r], Cases[k].reps[i], Esc, Raw, Sigma)
     IN m' = d.m /\ r' = d.r
  /\ UNCHANGED k
Next == Load \/ (s > 0 /\ \E i \in 1..Len(Cases[k].reps) : Step(i))
Spec == Init /\ [][Next]_vars

NoPanic == Cases[k].panic = ""
AcceptOK == Loaded => (St(s).acc <=> SpecAcc)
DeadOK == Loaded /\ St(s).dead =>
     /\ ~SpecAcc
     /\ \A i \in 1..Len(St(s).t) : St(s).t[i] = s
\* in a completely recorded automaton every live state shows a way to accept
LiveOK == Loaded /\ ~St(s).dead =>
     \/ Cases[k].partial
     \/ St(s).d = 0 /\ SpecAcc
     \/ St(s).d > 0 /\ \E i \in 1..Len(St(s).t) :
          St(s).t[i] # 0 /\ St(St(s).t[i]).d = St(s).d - 1
ApiOK ==
  Loaded => \A j \in 1..Len(Cases[k].api) :
     LET q == Cases[k].api[j]
     IN q.s = s => q.m = SpecAcc /\ q.tb /\ q.txt
RefusedOK ==
  s = -1 /\ Cases[k].panic = "" =>
     /\ Cases[k].bad \/ Cases[k].must => Cases[k].err
     /\ Cases[k].err => Cases[k].bad \/ Cases[k].ops
=============================================================================
