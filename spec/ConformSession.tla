---------------------------- MODULE ConformSession ---------------------------
(***************************************************************************)
(* Histories (C08).  A case is a log of calls on matchers (numbered in the *)
(* order of creation, clones included) built from one builder.  TLC steps  *)
(* through the log; the specification keeps                                *)
(*   M    per matcher: the expression it was built from, what each state   *)
(*        identifier handed out stands for (a residual), and the           *)
(*        transitions taken;                                               *)
(*   memo per expression and word: the answers given so far.               *)
(* Each step says whether the call was allowed to answer what it did.      *)
(*                                                                         *)
(* Identifiers belong to a matcher; a clone inherits those of its origin.  *)
(* Expressions with lookahead (free cases) have no residual here: only     *)
(* independence of history is checked for them.                            *)
(***************************************************************************)
EXTENDS RegexSem, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
N == Len(Cases)

VARIABLES k, pos, M, memo, ok
vars == <<k, pos, M, memo, ok>>
C == Cases[k]
Sigma == Range(C.reps)
Free == C.free
Op == C.log[pos + 1]
Rep(b) == C.rep[b + 1]
DEAD == 0

Empty == [x \in {} |-> 0]
Set(f, x, v) == (x :> v) @@ f          \* f with x set to v
Expr(e) == FromJ(C.ast[e])

Equiv(x, y) == SameLanguage(x, y, Sigma)

RECURSIVE After(_, _)
After(x, w) == IF w = <<>> THEN x ELSE After(Der(x, Rep(Head(w)), Sigma), Tail(w))

IsDead(x) == ~NonEmpty(x, Sigma)
\* id may stand for the residual x
Stands(h, id, x) ==
  \/ Free
  \/ /\ (id = DEAD) <=> IsDead(x)
     /\ id \in DOMAIN M[h].res => Equiv(M[h].res[id], x)

Init == k \in 1..N /\ pos = 0 /\ M = <<>> /\ memo = Empty /\ ok = TRUE

New ==
  /\ Op.op = "new"
  /\ M' = Append(M, [e |-> Op.e, res |-> (Op.s :> Expr(Op.e)), tr |-> Empty])
  /\ ok' = (Free \/ ((Op.s = DEAD) <=> IsDead(Expr(Op.e))))
  /\ UNCHANGED memo
Clone ==
  /\ Op.op = "clone"
  /\ M' = Append(M, M[Op.from])
  /\ ok' = TRUE
  /\ UNCHANGED memo
Transition ==
  /\ Op.op = "tr"
  /\ LET m == M[Op.h]
         x == IF Free THEN None ELSE Der(m.res[Op.s], Rep(Op.b), Sigma)
         key == <<Op.s, Op.b>>
     IN /\ ok' = /\ Op.s \in DOMAIN m.res
                 /\ key \in DOMAIN m.tr => m.tr[key] = Op.t
                 /\ Stands(Op.h, Op.t, x)
        /\ M' = [M EXCEPT ![Op.h] =
                   [m EXCEPT !.res = IF Op.t \in DOMAIN m.res THEN m.res
                                     ELSE Set(m.res, Op.t, x),
                             !.tr = Set(m.tr, key, Op.t)]]
  /\ UNCHANGED memo

Remember(q, e, w, v) ==
  LET key == <<q, e, w>>
  IN IF key \in DOMAIN memo THEN memo ELSE Set(memo, key, v)
Consistent(q, e, w, v) ==
  LET key == <<q, e, w>> IN key \in DOMAIN memo => memo[key] = v
\* next_byte answers: 1000 * kind + byte
NbSound(x, v) ==
  CASE v = 0    -> IsDead(x)
    [] v = 1000 -> /\ Nullable(x, Sigma)
                   /\ \A c \in Sigma : IsDead(Der(x, c, Sigma))
    [] v \in 2000..2255 -> /\ ~Nullable(x, Sigma)
                           /\ \A c \in Sigma \ {v - 2000} : IsDead(Der(x, c, Sigma))
    [] OTHER -> v = 3000
RightAnswer(q, x, v) ==
  \/ Free
  \/ CASE q = "acc" -> v = (IF Nullable(x, Sigma) THEN 1 ELSE 0)
       [] q = "la"  -> v = (IF Nullable(x, Sigma) THEN 0 ELSE -1)
       [] q = "nb"  -> NbSound(x, v)

Ask ==
  /\ Op.op \in {"acc", "la", "nb"}
  /\ LET e == M[Op.h].e
     IN /\ ok' = /\ Op.s \in DOMAIN M[Op.h].res
                 /\ Consistent(Op.op, e, Op.w, Op.v)
                 /\ RightAnswer(Op.op, M[Op.h].res[Op.s], Op.v)
        /\ memo' = Remember(Op.op, e, Op.w, Op.v)
  /\ UNCHANGED M
Whole ==
  /\ Op.op \in {"match", "len", "empty"}
  /\ LET e == M[Op.h].e
         x == IF Free THEN None
              ELSE IF Op.op = "empty" THEN Expr(e) ELSE After(Expr(e), Op.w)
         w == IF Op.op = "empty" THEN <<>> ELSE Op.w
         q == CASE Op.op = "match" -> "acc" [] Op.op = "len" -> "la" [] OTHER -> "empty"
     IN /\ ok' = /\ Consistent(q, e, w, Op.v)
                 /\ IF q = "empty"
                    THEN Free \/ Op.v = (IF IsDead(x) THEN 1 ELSE 0)
                    ELSE RightAnswer(q, x, Op.v)
        /\ memo' = Remember(q, e, w, Op.v)
  /\ UNCHANGED M
Again ==
  /\ Op.op = "again"
  /\ ok' = /\ Consistent("acc", Op.e, Op.w, Op.acc)
           /\ Consistent("la", Op.e, Op.w, Op.la)
           /\ Consistent("nb", Op.e, Op.w, Op.nb)
           /\ Free \/ LET x == After(Expr(Op.e), Op.w)
                      IN /\ Op.dead <=> IsDead(x)
                         /\ RightAnswer("acc", x, Op.acc)
                         /\ RightAnswer("nb", x, Op.nb)
  /\ UNCHANGED <<M, memo>>

Next ==
  /\ C.panic = "" /\ ok /\ pos < Len(C.log)
  /\ New \/ Clone \/ Transition \/ Ask \/ Whole \/ Again
  /\ pos' = pos + 1
  /\ UNCHANGED k
Spec == Init /\ [][Next]_vars

NoPanic == C.panic = ""
AnswerOK == ok
=============================================================================
