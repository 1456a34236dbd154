----------------------------- MODULE MC_Relevance -----------------------------
(***************************************************************************)
(* The emptiness search of relevance.rs as a state machine: waves of       *)
(* symbolic residuals, a cache of answers shared by all questions, and     *)
(* fuel that may run out between any two waves (C04, C06, C08, C12).       *)
(*                                                                         *)
(* Questions are asked about an expression X and everything reachable from *)
(* it, in any order, any of them aborted at any wave; entries of a wave    *)
(* are taken in any order.  What must hold: an answer is exact, an aborted *)
(* question leaves no entry behind that is not exact, and the expression   *)
(* asked about has an entry when the question is answered.                 *)
(***************************************************************************)
EXTENDS SymDeriv, Json, IOUtils, TLC

Exprs == JsonDeserialize(IOEnv.ASTS)
QS == atoi(IOEnv.QS)              \* questions
A == 1..3

RECURSIVE Reach(_, _)
Reach(seen, new) ==
  IF new = {} THEN seen
  ELSE LET n2 == UNION {{p[2] : p \in Sym(x, A)} : x \in new} \ (seen \union new)
       IN Reach(seen \union new, n2)

\* Known to accept something without a search.  That every nullable expression
\* is among these is what makes the search complete.
Pos(e) == Positive(e) \/ Nullable(e, A)
\* expressions whose emptiness takes a search
Hard == {i \in 1..Len(Exprs) : ~Pos(FromJ(Exprs[i])) /\ FromJ(Exprs[i]) # None}

VARIABLES x,        \* the universe: X and its residuals
          truth,    \* emptiness of each
          sym,      \* symbolic derivative of each (a table: TLC need not recompute it)
          cache,    \* answers known so far
          top, wave, next, pending, back,   \* the search under way; top = None: none
          asked, answer
vars == <<x, truth, sym, cache, top, wave, next, pending, back, asked, answer>>

Init == \E i \in Hard :
        /\ x = FromJ(Exprs[i])
        /\ sym = [e \in Reach({}, {x}) |-> {p[2] : p \in Sym(e, A)}]
        /\ truth = [e \in Reach({}, {x}) |-> NonEmpty(e, A)]
        /\ cache = <<>> /\ top = None /\ wave = {} /\ next = {} /\ pending = {}
        /\ back = {} /\ asked = 0 /\ answer = <<>>

Known(e) == Pos(e) \/ (e \in DOMAIN cache /\ cache[e])
Idle == /\ top' = None /\ wave' = {} /\ next' = {} /\ pending' = {} /\ back' = {}

Ask(e) ==
  /\ top = None /\ asked < QS
  /\ asked' = asked + 1
  /\ UNCHANGED <<x, truth, sym, cache>>
  /\ IF Pos(e) \/ e \in DOMAIN cache
     THEN /\ answer' = <<e, Known(e)>> /\ Idle
     ELSE /\ top' = e /\ wave' = {e} /\ next' = {} /\ pending' = {e} /\ back' = {}
          /\ answer' = <<>>

\* everything that is known to lead to a non-empty expression
RECURSIVE Marked(_, _)
Marked(done, todo) ==
  IF todo = {} THEN done
  ELSE LET e == TheElem(todo)
       IN IF e \in done \/ e \in DOMAIN cache THEN Marked(done, todo \ {e})
          ELSE Marked(done \union {e},
                      (todo \ {e}) \union {p[2] : p \in {q \in back : q[1] = e}})

Expand(e) ==
  /\ e \in wave
  /\ UNCHANGED <<x, truth, sym, asked>>
  /\ LET found == {d \in sym[e] : Known(d)}
     IN IF found # {}
        THEN LET m == Marked({}, {e})
             IN /\ cache' = [f \in m \union DOMAIN cache |-> IF f \in m THEN TRUE ELSE cache[f]]
                /\ answer' = <<top, TRUE>> /\ Idle
        ELSE /\ back' = back \union {<<d, e>> : d \in sym[e]}
             /\ next' = next \union (sym[e] \ pending)
             /\ pending' = pending \union sym[e]
             /\ wave' = wave \ {e}
             /\ UNCHANGED <<cache, top, answer>>

EndWave ==
  /\ top # None /\ wave = {}
  /\ UNCHANGED <<x, truth, sym, asked>>
  /\ IF next = {}
     THEN /\ cache' = [f \in pending \union DOMAIN cache |-> IF f \in pending THEN FALSE ELSE cache[f]]
          /\ answer' = <<top, FALSE>> /\ Idle
     ELSE \/ /\ wave' = next /\ next' = {}
             /\ UNCHANGED <<cache, top, pending, back, answer>>
          \/ /\ answer' = <<>> /\ UNCHANGED cache /\ Idle          \* out of fuel

Next == (\E e \in DOMAIN sym : Ask(e)) \/ (\E e \in wave : Expand(e)) \/ EndWave
Search == (\E e \in wave : Expand(e)) \/ EndWave
Spec == Init /\ [][Next]_vars /\ WF_vars(Search)

\* every search ends
Ends == top # None ~> top = None

CacheExact == \A e \in DOMAIN cache : cache[e] = truth[e]
AnswerExact == answer # <<>> => answer[2] = truth[answer[1]]
Recorded == answer # <<>> => Pos(answer[1]) \/ answer[1] \in DOMAIN cache
=============================================================================
