------------------------------ MODULE ConformLA ------------------------------
(***************************************************************************)
(* The recorded automaton of an expression with trailing lookaheads, in    *)
(* complete product with the specification (C03; also C04 and C07).        *)
(***************************************************************************)
EXTENDS LookAhead, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
N == Len(Cases)

VARIABLES k, r, s
vars == <<k, r, s>>
Sigma == Range(Cases[k].reps)
St(i) == Cases[k].st[i]
Loaded == s > 0

Init == k \in 1..N /\ r = <<>> /\ s = -1
Load ==
  /\ s = -1
  /\ Cases[k].panic = ""
  /\ r' = [j \in 1..Len(Cases[k].ast) |->
             StartAlt(FromJ(Cases[k].ast[j][1]), FromJ(Cases[k].ast[j][2]), Sigma)]
  /\ s' = Cases[k].init
  /\ UNCHANGED k
Step(i) ==
  /\ St(s).t # <<>>
  /\ St(s).t[i] # 0
  /\ s' = St(s).t[i]
  /\ r' = [j \in 1..Len(r) |-> DerAlt(r[j], Cases[k].reps[i], Sigma)]
  /\ UNCHANGED k
Next == Load \/ (s > 0 /\ \E i \in 1..Len(Cases[k].reps) : Step(i))
Spec == Init /\ [][Next]_vars

Lens == LensOf(r, Sigma)
SpecLen == LeastOf(Lens)
SomeAlive == \E j \in 1..Len(r) : AliveAlt(r[j], Sigma)

(* Runs grow without bound, in the code as in the specification (whose      *)
(* residuals may tell apart what the code's expressions do not): states     *)
(* with longer runs are checked, but not expanded.                          *)
MAXRUN == atoi(IOEnv.MAXRUN)
Bounded ==
  /\ \A j \in 1..Len(r) : \A p \in r[j].P : p[2] <= MAXRUN
  /\ TLCGet("level") <= 3 * MAXRUN

NoPanic == Cases[k].panic = ""
AcceptOK == Loaded => St(s).acc = (Lens # {})
LengthOK == Loaded => St(s).la = SpecLen /\ St(s).same2
ApiOK ==
  Loaded => \A j \in 1..Len(Cases[k].api) :
     LET q == Cases[k].api[j]
     IN q.s = s => q.m = (Lens # {}) /\ q.l = SpecLen /\ q.tb /\ q.txt
\* a node of the expression set: the length is exact where it accepts, and the
\* possible length covers every run that can still end in a match
RawLengthOK == Loaded =>
  /\ St(s).same2
  /\ St(s).acc = (Lens # {})
  /\ St(s).acc => St(s).la = SpecLen
\* (of runs that go on alike only the shortest counts)
PossibleOK == Loaded =>
  /\ St(s).pl <= St(s).dep
  /\ LET all == {IF Nullable(p[1], Sigma) THEN <<Eps, p[2]>> ELSE p :
                   p \in UNION {r[j].P : j \in 1..Len(r)}}
     IN \A p \in Shortest(all) :
       St(s).pl < p[2] => \/ ~NonEmpty(p[1], Sigma)
                          \/ \E q \in all : /\ q[2] <= St(s).pl
                                            /\ SameLanguage(p[1], q[1], Sigma)
DeadOK == Loaded /\ St(s).dead =>
     /\ ~St(s).acc /\ Lens = {}
     /\ \A i \in 1..Len(St(s).t) : St(s).t[i] = s
LiveOK == Loaded /\ ~St(s).dead => (Cases[k].skip \/ SomeAlive)
FailsOn(c) == \A j \in 1..Len(r) : ~AliveAlt(DerAlt(r[j], c, Sigma), Sigma)
NextByteOK ==
  Loaded =>
    /\ St(s).same
    /\ CASE St(s).nb = 0 -> ~SomeAlive
         [] St(s).nb = 1 -> Lens # {} /\ \A c \in Sigma : FailsOn(c)
         [] St(s).nb = 2 -> Lens = {} /\ \A c \in Sigma \ {St(s).nbb} : FailsOn(c)
         [] OTHER -> TRUE
=============================================================================
