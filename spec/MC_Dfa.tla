-------------------------------- MODULE MC_Dfa --------------------------------
(***************************************************************************)
(* The DFA export (C15): after any exploration, a worklist over one letter *)
(* per class from the initial state on fills the whole transition table;   *)
(* no entry is left missing, for any order of the worklist.                *)
(***************************************************************************)
EXTENDS RegexSem, Json, IOUtils, TLC

Exprs == JsonDeserialize(IOEnv.ASTS)
PRE == atoi(IOEnv.STEPS)               \* transitions made before the export
A == 1..3

VARIABLES i,
          tbl,        \* <<state, letter>> -> state; states are residuals
          known,      \* states numbered
          phase, todo, visited, steps
vars == <<i, tbl, known, phase, todo, visited, steps>>

St(r) == IF NonEmpty(r, A) THEN r ELSE None
Start == St(FromJ(Exprs[i]))
Go(s, c) == St(Der(s, c, A))

Init == /\ i \in 1..Len(Exprs) /\ tbl = {<<None, c, None>> : c \in A}
        /\ known = {None, Start} /\ phase = "use" /\ todo = {} /\ visited = {} /\ steps = 0
Use == /\ phase = "use" /\ steps < PRE
       /\ \E s \in known, c \in A :
            tbl' = tbl \union {<<s, c, Go(s, c)>>} /\ known' = known \union {Go(s, c)}
       /\ steps' = steps + 1
       /\ UNCHANGED <<i, phase, todo, visited>>
Export == /\ phase = "use" /\ phase' = "export" /\ todo' = {Start}
          /\ UNCHANGED <<i, tbl, known, visited, steps>>
Work == /\ phase = "export"
        /\ \E s \in todo :
             LET nx == {Go(s, c) : c \in A}
             IN /\ tbl' = tbl \union {<<s, c, Go(s, c)>> : c \in A}
                /\ known' = known \union nx
                /\ todo' = (todo \ {s}) \union (nx \ visited)
                /\ visited' = visited \union nx
        /\ UNCHANGED <<i, phase, steps>>
Done == /\ phase = "export" /\ todo = {} /\ phase' = "done"
        /\ UNCHANGED <<i, tbl, known, todo, visited, steps>>
Next == Use \/ Export \/ Work \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Work \/ Done \/ Export)

CompleteOK == phase = "done" => \A s \in known, c \in A : \E t \in known : <<s, c, t>> \in tbl
FunctionOK == \A x, y \in tbl : x[1] = y[1] /\ x[2] = y[2] => x[3] = y[3]
Ends == <>(phase = "done")
=============================================================================
