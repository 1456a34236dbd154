------------------------------- MODULE Conform -------------------------------
(***************************************************************************)
(* Lock-step exploration of the specification's residuals and of automata  *)
(* recorded from the implementation.                                       *)
(*                                                                         *)
(* The harness drives the real code: for each case it builds an expression *)
(* through the public interface and records, state by state and byte by    *)
(* byte, everything the interface reports.  A TLC state is                 *)
(*     case number, residual of the specification, implementation state,   *)
(* and a step consumes one byte on both sides.  Because the product is     *)
(* finite and explored completely, AcceptOK holds for *every* word, not    *)
(* only for words up to some length (cases marked as partial: for every    *)
(* word that stays inside the recorded part).                              *)
(*                                                                         *)
(* Fields of a case: panic (text of a panic, or ""), ast, reps (one byte   *)
(* of each class of bytes that neither the expression nor the recorded     *)
(* part of the implementation distinguishes), init, empty, and st: per     *)
(* state acc(epting), la (lookahead length or -1), dead, nb / nbb (answer  *)
(* of next_byte), t (successor per rep; 0 is "not recorded"; <<>> if the   *)
(* state was not expanded), d (distance to an accepting state, or -1).     *)
(***************************************************************************)
EXTENDS RegexSem, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
N == Len(Cases)

VARIABLES k,   \* number of the case
          r,   \* state of the specification
          s    \* state of the implementation
vars == <<k, r, s>>

Sigma == Range(Cases[k].reps)
St(i) == Cases[k].st[i]
Loaded == s > 0

Init == k \in 1..N /\ r = <<"start">> /\ s = -1

Load ==
  /\ s = -1
  /\ Cases[k].panic = ""
  /\ r' = FromJ(Cases[k].ast)
  /\ s' = Cases[k].init
  /\ UNCHANGED k

Step(i) ==
  /\ s > 0
  /\ St(s).t # <<>>
  /\ St(s).t[i] # 0
  /\ s' = St(s).t[i]
  /\ r' = Der(r, Cases[k].reps[i], Sigma)
  /\ UNCHANGED k

Next == Load \/ (s > 0 /\ \E i \in 1..Len(Cases[k].reps) : Step(i))

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The code under test did not panic on this case.                          *)
NoPanic == Cases[k].panic = ""

(* C01, C02, C13, C14: a state accepts iff the residual has the empty word. *)
AcceptOK == Loaded => St(s).acc = Nullable(r, Sigma)

(* C01: whole-string and slice interfaces agree with stepping; one record   *)
(* per asked state: the word leading to it was passed to is_match_bytes (m),*)
(* lookahead_len_bytes (l), transition_bytes (tb: same state as stepping),  *)
(* and is_match / lookahead_len (txt: same answers).                        *)
ApiOK ==
  Loaded => \A j \in 1..Len(Cases[k].api) :
     LET q == Cases[k].api[j]
     IN q.s = s => /\ q.m = Nullable(r, Sigma)
                   /\ q.l = (IF q.m THEN 0 ELSE -1)
                   /\ q.tb /\ q.txt

(* C03, the part about expressions without lookahead.                       *)
NoLookahead ==
  Loaded => St(s).la = (IF Nullable(r, Sigma) THEN 0 ELSE -1) /\ St(s).same2

(* C04, first half: nothing is accepted from a dead state, now or later:    *)
(* the dead state is always recorded with its successors, so the product    *)
(* follows it for ever.                                                     *)
DeadOK ==
  Loaded /\ St(s).dead =>
     /\ ~St(s).acc
     /\ ~Nullable(r, Sigma)
     /\ \A i \in 1..Len(St(s).t) : St(s).t[i] = s

(* C04, second half: from any other state some word is accepted.  d is a    *)
(* distance computed by the harness; it is only a certificate: where it     *)
(* does not locally prove life, the residual is searched.  The proof is by  *)
(* induction on d over the product states, all of which are visited.        *)
Certified ==
  \/ St(s).d = 0 /\ Nullable(r, Sigma)
  \/ St(s).d > 0 /\ \E i \in 1..Len(St(s).t) :
                      /\ St(s).t[i] # 0
                      /\ St(St(s).t[i]).d = St(s).d - 1
LiveOK ==
  Loaded /\ ~St(s).dead =>
     \/ Certified
     \/ St(s).t = <<>> /\ Cases[k].skip      \* too large to search
     \/ NonEmpty(r, Sigma)
EmptyOK == Loaded => Cases[k].empty = St(Cases[k].init).dead

(* C07: a forced byte or end is really forced, "dead" is really dead;       *)
(* same: all repetitions of the question gave the same answer.  "Fails" is  *)
(* decided by the matcher's own dead state where it is reached (DeadOK      *)
(* says that this is right), else by searching the residual.                *)
FailsOn(i) ==
  IF St(s).t = <<>>
  THEN IF "fails" \in DOMAIN St(s) /\ (St(s).fails[i] \/ Cases[k].skip)
       THEN St(s).fails[i]
       ELSE Cases[k].skip \/ ~NonEmpty(Der(r, Cases[k].reps[i], Sigma), Sigma)
  ELSE \/ St(s).t[i] # 0 /\ St(St(s).t[i]).dead
       \/ ~NonEmpty(Der(r, Cases[k].reps[i], Sigma), Sigma)
NextByteOK ==
  Loaded =>
     /\ St(s).same
     /\ CASE St(s).nb = 0 -> St(s).dead \/ ~NonEmpty(r, Sigma)
          [] St(s).nb = 1 -> /\ Nullable(r, Sigma)
                             /\ \A i \in 1..Len(Cases[k].reps) : FailsOn(i)
          [] St(s).nb = 2 -> /\ ~Nullable(r, Sigma)
                             /\ \A i \in 1..Len(Cases[k].reps) :
                                   Cases[k].reps[i] # St(s).nbb => FailsOn(i)
          [] OTHER -> TRUE

(* C07: a single literal has all its bytes, then the end, reported.         *)
LiteralForced ==
  Loaded /\ Cases[k].ast[1] = "lit" =>
     CASE r = None -> TRUE
       [] r = Eps  -> St(s).nb = 1
       [] OTHER    -> /\ St(s).nb = 2
                      /\ LET a == CatArgs(r)[1] IN a[2] = {St(s).nbb}

(* C10: classes are numbered below len, an inverse is given only for a      *)
(* class with one byte (and is that byte), and bytes of one class go to the *)
(* same state everywhere.  cls gives the class in the harness's own         *)
(* partition (the one reps belongs to) of each byte.                        *)
ClassOK ==
  Loaded /\ s = Cases[k].init =>
     LET C == Cases[k]
         members == [v \in 0..(C.len - 1) |-> {b \in 1..256 : C.map[b] = v}]
     IN /\ \A b \in 1..256 : C.map[b] < C.len
        /\ \A v \in 0..(C.len - 1) :
             LET mine == {C.cls[b] : b \in members[v]}
                 one  == CHOOSE m \in mine : TRUE
             IN /\ C.inv[v+1] # -1 => members[v] = {C.inv[v+1] + 1}
                /\ \A m \in mine, i \in 1..Len(C.st) :
                      C.st[i].t # <<>> => C.st[i].t[m] = C.st[i].t[one]
=============================================================================
