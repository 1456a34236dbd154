----------------------------- MODULE ConformDfa ------------------------------
(***************************************************************************)
(* The exported DFA table (C15).  A TLC state is: residual, matcher state  *)
(* (recorded after the export), row of the table.  A step consumes one     *)
(* byte on all three sides.                                                *)
(*                                                                         *)
(* Fields: rows (the table, row by row, entries per class), map (the       *)
(* byte-to-class map at the head of the export), amap and len (the same    *)
(* from the matcher), bytes (length of the export), start (number of the   *)
(* initial state), st: acc(epting), dead, num(ber of the state), t.        *)
(***************************************************************************)
EXTENDS RegexSem, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
N == Len(Cases)

VARIABLES k, r, s, row
vars == <<k, r, s, row>>
C == Cases[k]
Sigma == Range(C.reps)
St(i) == C.st[i]
Loaded == s > 0
DEAD == 0
MISSING == 1

Init == k \in 1..N /\ r = None /\ s = -1 /\ row = -1
Load ==
  /\ s = -1
  /\ C.panic = ""
  /\ r' = FromJ(C.ast) /\ s' = C.init /\ row' = C.start
  /\ UNCHANGED k
Entry(b) == C.rows[row + 1][C.map[b + 1] + 1]
Step(i) ==
  /\ row < Len(C.rows)
  /\ C.map[C.reps[i] + 1] < C.len
  /\ row' = Entry(C.reps[i])
  /\ s' = St(s).t[i]
  /\ r' = Der(r, C.reps[i], Sigma)
  /\ UNCHANGED k
Next == Load \/ (s > 0 /\ \E i \in 1..Len(C.reps) : Step(i))
Spec == Init /\ [][Next]_vars

NoPanic == C.panic = ""
\* the shape of the export
ShapeOK ==
  s = -1 /\ C.panic = "" =>
     /\ C.bytes = 256 + Len(C.rows) * C.len
     /\ C.map = C.amap
     /\ \A b \in 1..256 : C.map[b] < C.len
     /\ C.start < Len(C.rows)
\* the table goes where the matcher goes
RowOK == Loaded => row = St(s).num /\ row < Len(C.rows)
\* every entry is a computed transition to a row that exists
CompleteOK ==
  s = -1 /\ C.panic = "" =>
    \A i \in 1..Len(C.rows) : \A j \in 1..C.len :
      C.rows[i][j] # MISSING /\ C.rows[i][j] < Len(C.rows)
DeadRowOK ==
  s = -1 /\ C.panic = "" => \A j \in 1..C.len : C.rows[DEAD + 1][j] = DEAD
\* and the matcher, after the export, is right
\* (free: with lookahead, which has no residual here)
AnswerOK == Loaded /\ ~C.free => /\ St(s).acc = Nullable(r, Sigma)
                      /\ St(s).dead <=> (row = DEAD)
SameOK == Loaded => C.same
=============================================================================
