----------------------------- MODULE ConformSets ------------------------------
(***************************************************************************)
(* Logs of combining byte sets in one expression set (C20) against         *)
(* ByteSets.  D grows with every operation; `again` is what all            *)
(* expressions said at the end.                                            *)
(***************************************************************************)
EXTENDS ByteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
Rng(q) == {q[i] : i \in 1..Len(q)}

VARIABLES k, pos, D, bad
vars == <<k, pos, D, bad>>
C == Cases[k]
Op == C.log[pos + 1]

Init == k \in 1..Len(Cases) /\ pos = 0 /\ D = <<>> /\ bad = ""
Judge(E) ==
  IF Rng(Op.yes) # E THEN "members"
  ELSE IF Rng(Op.no) # Alphabet(C.n) \ E THEN "excluded"
  \* one expression for each set
  ELSE IF \E i \in DOMAIN D : (D[i] = E) # (i = Op.res) THEN "identity"
  ELSE ""
Next ==
  /\ C.panic = "" /\ bad = "" /\ pos < Len(C.log)
  /\ LET E == Meaning(Op.op, Op.args, Op.bits, D, C.n)
     IN bad' = Judge(E) /\ D' = (Op.res :> E) @@ D
  /\ pos' = pos + 1
  /\ UNCHANGED k
Spec == Init /\ [][Next]_vars

NoPanic == C.panic = ""
MembersOK == bad \notin {"members", "excluded"}
IdentityOK == bad # "identity"
AtEnd == C.panic = "" /\ bad = "" /\ pos = Len(C.log)
\* asked again at the end, and the derivative is the empty string for members, else nothing
AgainOK ==
  AtEnd => \A i \in 1..Len(C.again) :
    LET a == C.again[i]
    IN /\ a.id \in DOMAIN D /\ ~a.null
       /\ Rng(a.yes) = D[a.id] /\ Rng(a.no) = Alphabet(C.n) \ D[a.id]
       /\ \A b \in Alphabet(C.n) : a.dv[b + 1] = IF b \in D[a.id] THEN C.eps ELSE C.nothing
=============================================================================
