---------------------------- MODULE ConformRefuse ----------------------------
(***************************************************************************)
(* A builder session in which what cannot be built is mixed with what can  *)
(* (C16).  TLC steps through the log of calls; the specification keeps, in *)
(* H, the expression each reference handed out so far stands for.  A tree  *)
(* with an invalid part anywhere must be refused, one without must be      *)
(* accepted; neither changes what earlier references stand for.            *)
(*                                                                         *)
(* After the log, the matchers built from some of the references at the    *)
(* very end are explored in lock step with the residuals of H.             *)
(*                                                                         *)
(* Trees: as for FromJ, with leaves <<"leaf", expression>>,                *)
(* <<"ref", id, exists>> (exists: the builder had issued it; else the id   *)
(* is zero or beyond all expressions made so far), and the invalid         *)
(* <<"words", n>> (byte set of n words), <<"badrep", min, max>> and        *)
(* <<"pattern", text>> (a pattern that is to be refused).                  *)
(***************************************************************************)
EXTENDS RegexSem, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
N == Len(Cases)

VARIABLES k, pos, H, ok, r, s
vars == <<k, pos, H, ok, r, s>>
C == Cases[k]
Sigma == Range(C.reps)
St(i) == C.st[i]
Op == C.log[pos + 1]
Empty == [x \in {} |-> None]

RECURSIVE Valid(_), Tree(_)
Valid(j) ==
  CASE j[1] = "ref" -> j[3]
    [] j[1] \in {"words", "badrep", "pattern"} -> FALSE
    [] j[1] \in {"cat", "or", "and"} -> \A i \in 1..Len(j[2]) : Valid(j[2][i])
    [] j[1] \in {"not", "pre", "rep"} -> Valid(j[2])
    [] OTHER -> TRUE
Tree(j) ==
  CASE j[1] = "ref"  -> H[j[2]]
    [] j[1] = "leaf" -> FromJ(j[2])
    [] j[1] = "cat"  -> MkCatSeq([i \in 1..Len(j[2]) |-> Tree(j[2][i])])
    [] j[1] = "or"   -> MkOr({Tree(j[2][i]) : i \in 1..Len(j[2])})
    [] j[1] = "and"  -> MkAnd({Tree(j[2][i]) : i \in 1..Len(j[2])})
    [] j[1] = "not"  -> MkNot(Tree(j[2]))
    [] j[1] = "rep"  -> MkRep(Tree(j[2]), j[3], j[4])
    [] j[1] = "pre"  -> MkPre(Tree(j[2]))

RECURSIVE EquivFrom(_, _)
EquivFrom(seen, stack) ==
  IF stack = <<>> THEN TRUE
  ELSE LET p == stack[1]
           nxt == {<<Der(p[1], c, Sigma), Der(p[2], c, Sigma)>> : c \in Sigma}
           new == {q \in nxt : q[1] # q[2] /\ q \notin seen}
       IN IF Nullable(p[1], Sigma) # Nullable(p[2], Sigma) THEN FALSE
          ELSE EquivFrom(seen \union new, SetAsSeq(new) \o Tail(stack))
Equiv(x, y) == x = y \/ EquivFrom({<<x, y>>}, <<<<x, y>>>>)

Init == k \in 1..N /\ pos = 0 /\ H = Empty /\ ok = TRUE /\ r = None /\ s = -1

Mk ==
  /\ Op.op = "mk"
  /\ IF Op.out = "ok" /\ Valid(Op.tree)
     THEN LET x == Tree(Op.tree)
          IN /\ ok' = (Op.id \in DOMAIN H => Equiv(H[Op.id], x))
             /\ H' = IF Op.id \in DOMAIN H THEN H ELSE (Op.id :> x) @@ H
     ELSE /\ ok' = (Op.out = "err" /\ ~Valid(Op.tree))
          /\ UNCHANGED H
Other ==
  /\ Op.op # "mk"
  /\ ok' = (Op.out = IF Op.bad THEN "err" ELSE "ok")
  /\ UNCHANGED H
Call ==
  /\ s = -1 /\ C.panic = "" /\ ok /\ pos < Len(C.log)
  /\ Mk \/ Other
  /\ pos' = pos + 1
  /\ UNCHANGED <<k, r, s>>

Load(i) ==
  /\ s = -1 /\ C.panic = "" /\ ok /\ pos = Len(C.log)
  /\ r' = H[C.roots[i]] /\ s' = C.init[i]
  /\ H' = Empty
  /\ UNCHANGED <<k, pos, ok>>
Step(i) ==
  /\ St(s).t # <<>>
  /\ St(s).t[i] # 0
  /\ s' = St(s).t[i]
  /\ r' = Der(r, C.reps[i], Sigma)
  /\ UNCHANGED <<k, pos, H, ok>>
Next == \/ Call
        \/ \E i \in 1..Len(C.roots) : Load(i)
        \/ s > 0 /\ \E i \in 1..Len(C.reps) : Step(i)
Spec == Init /\ [][Next]_vars

NoPanic == C.panic = ""
OutcomeOK == ok
AcceptOK == s > 0 => St(s).acc = Nullable(r, Sigma)
DeadOK == s > 0 /\ St(s).dead => ~NonEmpty(r, Sigma)
=============================================================================
