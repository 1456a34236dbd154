------------------------------- MODULE MC_Repro -------------------------------
(***************************************************************************)
(* Why the discipline of the code gives C18: every object owns its table   *)
(* and its account; a call computes what the table lacks, enters it (which *)
(* is where numbers are given out) and charges the account; a clone copies *)
(* both; a matcher copies the builder's.  Over all interleavings of LEN    *)
(* calls on up to 3 objects, the answers obey Repro.tla.                   *)
(* SHARED = 1 lets clones share the table of their origin instead: TLC     *)
(* then finds the violation (checked once, by hand: see DESIGN.md).        *)
(***************************************************************************)
EXTENDS Repro, Sequences, IOUtils, SequencesExt

LEN == atoi(IOEnv.LEN)
SHARED == IOEnv.SHARED = "1"
Things == {"x", "y"}            \* what can be computed

VARIABLES tab, acc, own, ok, steps
\* tab: table number -> sequence of things known; own: object -> its table
vars == <<at, edge, tab, acc, own, ok, steps>>

Objs == DOMAIN own
NewTab == Len(tab) + 1
Next3 == Cardinality(Objs) + 1
Number(t, x) == IF \E i \in 1..Len(t) : t[i] = x
                THEN CHOOSE i \in 1..Len(t) : t[i] = x ELSE Len(t) + 1

Init == /\ ReproInit /\ tab = <<>> /\ acc = <<>> /\ own = [x \in {} |-> 0]
        /\ ok = TRUE /\ steps = 0

New == /\ Next3 <= 3
       /\ Root(Next3)
       /\ tab' = Append(tab, <<>>) /\ acc' = Append(acc, 0)
       /\ own' = Put(own, Next3, NewTab)
       /\ ok' = TRUE
Cloned == \E o \in Objs :
       /\ Next3 <= 3
       /\ CloneOf(Next3, o)
       /\ tab' = Append(tab, tab[own[o]]) /\ acc' = Append(acc, acc[own[o]])
       /\ own' = Put(own, Next3, IF SHARED THEN own[o] ELSE NewTab)
       /\ ok' = TRUE
Compute == \E o \in Objs, x \in Things :
       LET t == tab[own[o]]
           new == Number(t, x) > Len(t)
           r == <<Number(t, x), acc[own[o]] + (IF new THEN 1 ELSE 0)>>
       IN /\ ok' = Allowed(o, x, r)
          /\ Do(o, x, r)
          /\ tab' = IF new THEN [tab EXCEPT ![own[o]] = Append(t, x)] ELSE tab
          /\ acc' = [acc EXCEPT ![own[o]] = r[2]]
          /\ UNCHANGED own
Read == \E o \in Objs :
       LET r == <<Len(tab[own[o]]), acc[own[o]]>>
       IN /\ ok' = Allowed(o, "size", r)
          /\ See(o, "size", r)
          /\ UNCHANGED <<tab, acc, own>>
Take == \E o \in Objs :
       LET r == <<acc[own[o]]>>
       IN /\ Next3 <= 3
          /\ ok' = Allowed(o, "take", r)
          /\ Make(Next3, o, "take", r)
          /\ tab' = Append(tab, tab[own[o]]) /\ acc' = Append(acc, acc[own[o]])
          /\ own' = Put(own, Next3, NewTab)

Next == /\ steps < LEN /\ steps' = steps + 1
        /\ New \/ Cloned \/ Compute \/ Read \/ Take
Spec == Init /\ [][Next]_vars

SameOK == ok
=============================================================================
