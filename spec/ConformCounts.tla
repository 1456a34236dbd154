---------------------------- MODULE ConformCounts -----------------------------
(***************************************************************************)
(* What the code says about counted words (see Counts).                    *)
(*                                                                         *)
(* The state machine reads one run at a time: cnt[i] is the number of      *)
(* copies of item i read so far, at the item being read.  A step n = -1 is *)
(* a look at what follows the first letter of one more copy.               *)
(***************************************************************************)
EXTENDS Counts, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES k, t, pos, cnt, at, lost, bad
vars == <<k, t, pos, cnt, at, lost, bad>>
C == Cases[k]
Text == C.texts[t]
Runs == Text.runs

Zero == [i \in 1..Len(C.items) |-> 0]
Init == /\ k \in 1..Len(Cases) /\ t = 0 /\ pos = 0 /\ cnt = <<>> /\ at = 0 /\ lost = FALSE
        /\ bad = {}
Start == /\ t < Len(C.texts) /\ IF t = 0 THEN TRUE ELSE pos = Len(Runs)
         /\ t' = t + 1 /\ pos' = 0 /\ cnt' = Zero /\ at' = 0 /\ lost' = FALSE /\ bad' = bad
Judge(r, c, a, gone, inner) ==
  LET If(x, what) == IF x THEN {what} ELSE {}
      acc == ~inner /\ Accepting(C, c, a, gone)
      la == IF acc THEN Length(C, c, a, gone) ELSE -1
  IN If(r.dead # ~Alive(C, c, a, gone), "dead") \cup If(r.acc # acc, "accept")
     \cup If(r.la # la, "length")
Read ==
  /\ t > 0 /\ pos < Len(Runs)
  /\ LET r == Runs[pos + 1]
         more == IF r.n < 0 THEN 1 ELSE r.n
         c == [cnt EXCEPT ![r.i] = @ + more]
         gone == lost \/ r.i < at
         a == IF r.i > at THEN r.i ELSE at
     IN IF r.n < 0
        THEN bad' = Judge(r, c, a, gone, TRUE) /\ UNCHANGED <<cnt, at, lost>>
        ELSE bad' = Judge(r, c, a, gone, FALSE) /\ cnt' = c /\ at' = a /\ lost' = gone
  /\ pos' = pos + 1 /\ UNCHANGED t
Next == C.panic = "" /\ bad = {} /\ (Start \/ Read) /\ UNCHANGED k
Spec == Init /\ [][Next]_vars

NoPanic == C.panic = ""
AcceptOK == "accept" \notin bad
DeadOK == "dead" \notin bad
LengthOK == "length" \notin bad
WholeOK ==
  (C.panic = "" /\ t > 0 /\ bad = {} /\ pos = Len(Runs)) =>
    LET l == Length(C, cnt, at, lost)
    IN /\ Text.end = <<IF l >= 0 THEN 1 ELSE 0, l, l, l, l>>
       /\ Text.same
=============================================================================
