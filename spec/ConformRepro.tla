----------------------------- MODULE ConformRepro -----------------------------
(***************************************************************************)
(* Steps through logs of calls made on the real objects, in several runs   *)
(* of the same script (plain; with reading calls in between; with clones   *)
(* doing the same or something else first; in a thread of its own beside   *)
(* others; in another process), and says at each step whether Repro.tla    *)
(* allows the answer.                                                      *)
(***************************************************************************)
EXTENDS Repro, Sequences, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
N == Len(Cases)

VARIABLES k, pos, ok
vars == <<k, pos, ok, at, edge>>
C == Cases[k]
E == C.log[pos + 1]

Init == k \in 1..N /\ pos = 0 /\ ok = TRUE /\ ReproInit

Next ==
  /\ C.panic = "" /\ ok /\ pos < Len(C.log)
  /\ \/ E.k = "root" /\ Root(E.o) /\ ok' = TRUE
     \/ E.k = "clone" /\ CloneOf(E.o, E.f) /\ ok' = TRUE
     \/ E.k = "do" /\ ok' = Allowed(E.o, E.op, E.r) /\ Do(E.o, E.op, E.r)
     \/ E.k = "see" /\ ok' = Allowed(E.o, E.op, E.r) /\ See(E.o, E.op, E.r)
     \/ E.k = "new" /\ ok' = Allowed(E.f, E.op, E.r) /\ Make(E.o, E.f, E.op, E.r)
  /\ pos' = pos + 1
  /\ UNCHANGED k
Spec == Init /\ [][Next]_vars

NoPanic == C.panic = ""
SameOK == ok
=============================================================================
