---------------------------- MODULE ConformLALong ----------------------------
(***************************************************************************)
(* One long text: what the code says after every prefix of it, against the *)
(* specification of trailing lookahead run along the text (C03).           *)
(***************************************************************************)
EXTENDS LookAhead, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
N == Len(Cases)

VARIABLES k, r, i      \* i bytes have been consumed; -1: not loaded
vars == <<k, r, i>>
Sigma == Range(Cases[k].reps)
Text == Cases[k].text

Init == k \in 1..N /\ r = <<>> /\ i = -1
Load ==
  /\ i = -1
  /\ Cases[k].panic = ""
  /\ r' = [j \in 1..Len(Cases[k].ast) |->
             StartAlt(FromJ(Cases[k].ast[j][1]), FromJ(Cases[k].ast[j][2]), Sigma)]
  /\ i' = 0
  /\ UNCHANGED k
Step ==
  /\ i >= 0 /\ i < Len(Text)
  /\ i' = i + 1
  /\ r' = [j \in 1..Len(r) |-> DerAlt(r[j], Text[i + 1], Sigma)]
  /\ UNCHANGED k
Next == Load \/ Step
Spec == Init /\ [][Next]_vars

Lens == LensOf(r, Sigma)
Here == Cases[k].st[i + 1]
NoPanic == Cases[k].panic = ""
AcceptOK == i >= 0 => Here.acc = (Lens # {})
LengthOK == i >= 0 => Here.la = LeastOf(Lens)
ApiOK ==
  i >= 0 => \A j \in 1..Len(Cases[k].api) :
     LET q == Cases[k].api[j]
     IN q.n = i => q.m = (Lens # {}) /\ q.l = LeastOf(Lens)
DeadOK == i >= 0 /\ Here.dead => Lens = {} /\ \A j \in 1..Len(r) : ~AliveAlt(r[j], Sigma)
=============================================================================
