---------------------------- MODULE ConformFinite ----------------------------
(***************************************************************************)
(* Matchers are finite automata (C19).  The specification explores the     *)
(* residuals of an expression in waves (seen, front); there are finitely   *)
(* many, since its unions and intersections are sets.  The automaton       *)
(* recorded from the code must have been explored to the end within a      *)
(* small multiple of their number, and when everything has been explored   *)
(* once, walking and asking again changes nothing it tells about its size. *)
(***************************************************************************)
EXTENDS RegexSem, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
N == Len(Cases)

VARIABLES k, seen, front
vars == <<k, seen, front>>
C == Cases[k]
Sigma == Range(C.reps)

Init == /\ k \in 1..N
        /\ seen = IF C.panic = "" THEN {FromJ(C.ast)} ELSE {}
        /\ front = seen
Next == /\ front # {}
        /\ front' = UNION {{Der(x, c, Sigma) : c \in Sigma} : x \in front} \ seen
        /\ seen' = seen \union front'
        /\ UNCHANGED k
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Bound == 4 * Cardinality(seen) + 16
Done == front = {} /\ C.panic = ""

NoPanic == C.panic = ""
\* swollen: given up after a hundred times the usual work although there were few states,
\* because the states themselves grow
FiniteOK == Done => /\ ~C.swollen
                    /\ IF C.full THEN C.states <= Bound
                       ELSE C.limit < Bound      \* not explored far enough to tell
StillOK == C.panic = "" /\ C.full => C.before = C.after
\* the exploration ends
Ends == <>(front = {})
=============================================================================
