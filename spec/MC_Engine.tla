------------------------------- MODULE MC_Engine ------------------------------
(***************************************************************************)
(* The matcher as regex.rs builds it: a growing list of states (the hash-  *)
(* consed residuals, dead state first), a transition table and per-state   *)
(* answers that are filled when first asked for, and clones that share     *)
(* nothing.  It refines a matcher without any memory (C01, C04, C08): what *)
(* a cursor is told depends only on the word it has consumed, a state once *)
(* numbered stays what it is, and work on one matcher is invisible to the  *)
(* other.                                                                  *)
(*                                                                         *)
(* Two matchers; at first only the first exists, with both cursors; it is  *)
(* cloned at any moment, and the second cursor goes on with the clone.     *)
(***************************************************************************)
EXTENDS NextByte, Json, IOUtils, TLC

Exprs == JsonDeserialize(IOEnv.ASTS)
LEN == atoi(IOEnv.LEN)            \* bytes a cursor consumes
A == 1..2

VARIABLES x,
          ids,     \* matcher -> sequence of residuals; state number = position
          tbl,     \* matcher -> <<state, letter>> -> state, where computed
          desc,    \* matcher -> state -> [acc, nb], where asked for
          cur,     \* cursor -> [m: matcher, s: state, w: word]
          said     \* the last answer: [cursor, what, value]
vars == <<x, ids, tbl, desc, cur, said>>

Empty == <<>>
DeadId == 1
Resid(w) == DerWord(x, w, A)
Alive(r) == NonEmpty(r, A)

Init == \E i \in 1..Len(Exprs) :
  /\ x = FromJ(Exprs[i])
  /\ ids = <<IF Alive(FromJ(Exprs[i])) THEN <<None, FromJ(Exprs[i])>> ELSE <<None>>, Empty>>
  /\ tbl = <<[p \in {DeadId} \X A |-> DeadId], Empty>>
  /\ desc = <<Empty, Empty>>
  /\ cur = [n \in 1..2 |-> [m |-> 1, s |-> IF Alive(FromJ(Exprs[i])) THEN 2 ELSE 1, w |-> <<>>]]
  /\ said = Empty

\* state of residual d, numbering it if need be
Put(m, d) ==
  IF \E n \in 1..Len(ids[m]) : ids[m][n] = d
  THEN [ids |-> ids[m], n |-> CHOOSE n \in 1..Len(ids[m]) : ids[m][n] = d]
  ELSE [ids |-> Append(ids[m], d), n |-> Len(ids[m]) + 1]

Feed(n, c) ==
  LET m == cur[n].m
      s == cur[n].s
  IN /\ Len(cur[n].w) < LEN
     /\ IF <<s, c>> \in DOMAIN tbl[m]
        THEN /\ cur' = [cur EXCEPT ![n] = [m |-> m, s |-> tbl[m][<<s, c>>], w |-> Append(@.w, c)]]
             /\ UNCHANGED <<ids, tbl>>
        ELSE LET d == Der(ids[m][s], c, A)
                 p == IF Alive(d) THEN Put(m, d) ELSE [ids |-> ids[m], n |-> DeadId]
             IN /\ ids' = [ids EXCEPT ![m] = p.ids]
                /\ tbl' = [tbl EXCEPT ![m] = (<<s, c>> :> p.n) @@ @]
                /\ cur' = [cur EXCEPT ![n] = [m |-> m, s |-> p.n, w |-> Append(@.w, c)]]
     /\ said' = Empty
     /\ UNCHANGED <<x, desc>>

Answers(m, s) == [acc |-> Nullable(ids[m][s], A), nb |-> Analyse(ids[m][s], A)]
Ask(n) ==
  LET m == cur[n].m
      s == cur[n].s
      a == IF s \in DOMAIN desc[m] THEN desc[m][s] ELSE Answers(m, s)
  IN /\ desc' = [desc EXCEPT ![m] = (s :> a) @@ @]
     /\ said' = <<n, a>>
     /\ UNCHANGED <<x, ids, tbl, cur>>

Clone ==
  /\ ids[2] = Empty
  /\ ids' = [ids EXCEPT ![2] = ids[1]]
  /\ tbl' = [tbl EXCEPT ![2] = tbl[1]]
  /\ desc' = [desc EXCEPT ![2] = desc[1]]
  /\ cur' = [cur EXCEPT ![2].m = 2]
  /\ said' = Empty
  /\ UNCHANGED x

Next == Clone \/ \E n \in 1..2 : Ask(n) \/ \E c \in A : Feed(n, c)
Spec == Init /\ [][Next]_vars

Same(y, z) == y = z \/ ~NonEmpty(MkOr({MkAnd({y, MkNot(z)}), MkAnd({z, MkNot(y)})}), A)
\* a cursor stands on the residual of its word
CursorOK == \A n \in 1..2 : Same(ids[cur[n].m][cur[n].s], Resid(cur[n].w))
AnswerOK == said # Empty =>
  LET r == Resid(cur[said[1]].w)
  IN said[2].acc = Nullable(r, A) /\ Sound(said[2].nb, r, A)
DeadOK == \A n \in 1..2 : cur[n].s = DeadId <=> ~Alive(Resid(cur[n].w))
\* state numbers are for ever
Stable == [][\A m \in 1..2 : \A s \in DOMAIN ids[m] : s \in DOMAIN ids'[m] /\ ids'[m][s] = ids[m][s]]_vars
Memoised == [][\A m \in 1..2 : \A p \in DOMAIN tbl[m] : p \in DOMAIN tbl'[m] /\ tbl'[m][p] = tbl[m][p]]_vars
=============================================================================
