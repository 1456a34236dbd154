--------------------------- MODULE ConformWordSets ----------------------------
(***************************************************************************)
(* Set operations on large finite sets of words (C04 C10 C12 C13 C14).     *)
(* What the code says, against WordSets.                                   *)
(***************************************************************************)
EXTENDS WordSets, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES k, bad
C == Cases[k]
Judge ==
  LET V == TLCEval(Value(C.tree))
      P == TLCEval(Prefixes(V.w))
      Live(w) == LiveIn(V, P, w)
      Member(w) == MemberIn(V, w)
      If(x, what) == IF x THEN {what} ELSE {}
      ps == Rng(C.probes)
  IN {"judged"}
     \cup If(\E i \in DOMAIN C.empty : C.empty[i] # ~Live(<<>>), "empty")
     \cup If(\E p \in ps : p.acc # Member(p.w), "accept")
     \cup If(\E p \in ps : p.dead # ~Live(p.w), "dead")

Init == k \in 1..Len(Cases) /\ bad = {}
Next == bad = {} /\ C.panic = "" /\ bad' = Judge /\ UNCHANGED k
Spec == Init /\ [][Next]_<<k, bad>>

NoPanic == C.panic = ""
AcceptOK == "accept" \notin bad
DeadOK == "dead" \notin bad
EmptyOK == "empty" \notin bad
=============================================================================
