------------------------------ MODULE MC_Shared -------------------------------
(***************************************************************************)
(* ExprSet::map: a stack of expressions to do; the one on top is dropped   *)
(* if it has a result, otherwise its operands without a result are put on  *)
(* the stack (the same one perhaps twice), and when there are none it is   *)
(* visited.  All graphs of up to N nodes with at most two operands each    *)
(* (of a lower number), all flags, any cache to begin with: each visit is  *)
(* one that Shared allows, it ends, with everything done that is needed.   *)
(***************************************************************************)
EXTENDS Shared, TLC, IOUtils

N == atoi(IOEnv.N)
Kids(n) == {<<>>} \cup {<<a>> : a \in 1..(n - 1)} \cup {<<a, b>> : a, b \in 1..(n - 1)}
RECURSIVE Graphs(_)
Graphs(n) == IF n = 0 THEN {<<>>} ELSE {Append(g, q) : g \in Graphs(n - 1), q \in Kids(n)}

VARIABLES kids, null, cut, first, todo, cache, visit
vars == <<kids, null, cut, first, todo, cache, visit>>
\* every node with operands counts as a concatenation when cut
Cats == [n \in 1..N |-> TRUE]
O == Operands(kids, Cats, null, cut)
Init == /\ kids \in Graphs(N)
        /\ cut \in BOOLEAN
        /\ null \in IF cut THEN [1..N -> BOOLEAN] ELSE {[n \in 1..N |-> FALSE]}
        /\ \E S \in SUBSET (1..N) : first = [n \in S |-> -n]
        /\ cache = first
        /\ todo = IF N \in DOMAIN cache THEN <<>> ELSE <<N>>
        /\ visit = <<>>
Top == todo[Len(todo)]
Rest == SubSeq(todo, 1, Len(todo) - 1)
Missing == SelectSeq(O[Top], LAMBDA a : a \notin DOMAIN cache)
Next ==
  /\ todo # <<>>
  /\ IF Top \in DOMAIN cache
     THEN todo' = Rest /\ UNCHANGED <<cache, visit>>
     ELSE IF Missing # <<>>
     THEN todo' = todo \o Missing /\ UNCHANGED <<cache, visit>>
     ELSE /\ todo' = Rest
          /\ visit' = <<Top, [i \in 1..Len(O[Top]) |-> cache[O[Top][i]]]>>
          /\ cache' = (Top :> Top) @@ cache
  /\ UNCHANGED <<kids, null, cut, first>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Need == Needed(O, DOMAIN first, N)
RefinesOK == [][cache' # cache => MayVisit(O, Need, cache, visit'[1], visit'[2])]_vars
EndOK == todo = <<>> => DOMAIN cache = DOMAIN first \cup Need /\ N \in DOMAIN cache
Ends == <>(todo = <<>>)
=============================================================================
