------------------------------ MODULE ConformFuel ----------------------------
(***************************************************************************)
(* Fuel (C06).  A case holds expressions (questions: is the language       *)
(* non-empty?), sweeps of one question over ascending fuel limits, and a   *)
(* log of questions with any limits put to one emptiness cache.            *)
(* Answers: 1 non-empty, 0 empty, -1 error.  Question 3 of a case with two *)
(* expressions is "is there a word of the first that is not of the second".*)
(*                                                                         *)
(* A state of the specification is a case, the exact answers, and the      *)
(* position in the log.                                                    *)
(***************************************************************************)
EXTENDS RegexSem, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
N == Len(Cases)

VARIABLES k, exact, pos
vars == <<k, exact, pos>>
Sigma == Range(Cases[k].reps)
B(x) == IF x THEN 1 ELSE 0

Exact(c) ==
  LET S == Range(c.reps)
      e == [i \in 1..Len(c.ast) |-> FromJ(c.ast[i])]
      x == [i \in 1..Len(c.ast) |-> B(NonEmpty(e[i], S))]
  IN IF Len(x) = 2
     THEN Append(x, B(NonEmpty(MkAnd({e[1], MkNot(e[2])}), S)))
     ELSE x

Init == k \in 1..N /\ exact = <<>> /\ pos = -1
Load == /\ pos = -1 /\ Cases[k].panic = ""
        /\ exact' = Exact(Cases[k]) /\ pos' = 0 /\ UNCHANGED k
Step == /\ pos >= 0 /\ pos < Len(Cases[k].log)
        /\ pos' = pos + 1 /\ UNCHANGED <<k, exact>>
Next == Load \/ Step
Spec == Init /\ [][Next]_vars

NoPanic == Cases[k].panic = ""
\* an answer under a limit is the exact one or an error
SweepExact == pos = 0 => \A i \in 1..Len(Cases[k].sweeps) :
  LET w == Cases[k].sweeps[i]
  IN \A j \in 1..Len(w.a) : w.a[j] \in {-1, exact[w.q]}
\* once a limit suffices, all larger ones do; the last is "unlimited"
SweepMonotone == pos = 0 => \A i \in 1..Len(Cases[k].sweeps) :
  LET w == Cases[k].sweeps[i]
  IN /\ \A j \in 1..(Len(w.a) - 1) : w.a[j] # -1 => w.a[j+1] # -1
     /\ w.a[Len(w.a)] # -1

\* how the search proceeds in rounds: nothing is known at once, and no
\* derivative settles the question
Certain(x) == Positive(x) \/ Nullable(x, Sigma)
ManyRounds(x) ==
  LET D == {Der(x, c, Sigma) : c \in Sigma} \ {None}
  IN ~Certain(x) /\ D \ {x} # {} /\ \A d \in D : ~Certain(d)
\* a limit of zero does not pay for more than one round
ZeroRefused == pos = 0 /\ Cases[k].zero =>
  /\ ManyRounds(FromJ(Cases[k].ast[1]))
  /\ \A i \in 1..Len(Cases[k].sweeps) :
       LET w == Cases[k].sweeps[i] IN w.f[1] = "0" /\ w.a[1] = -1
\* one cache, any order, any limits: exact or an error; unlimited: exact
LogOK == pos > 0 =>
  LET l == Cases[k].log[pos]
  IN /\ l.a \in {-1, exact[l.q]}
     /\ l.max => l.a = exact[l.q]
\* a limit that sufficed suffices after any amount of other work
AfterWork == pos = 0 => \A i \in 1..Len(Cases[k].after) :
  LET l == Cases[k].after[i] IN l.a = exact[l.q]
=============================================================================
