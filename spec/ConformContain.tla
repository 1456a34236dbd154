---------------------------- MODULE ConformContain ---------------------------
(***************************************************************************)
(* Containment (C05).  A case holds two expressions a, b, the answers of   *)
(* every interface that decides whether a is contained in b (asked again   *)
(* after other uses of the builder), and perhaps a word in a but not in b. *)
(*                                                                         *)
(* The specification walks the residuals of a and b together: a is         *)
(* contained in b iff no reachable pair has a nullable and b not.  For a   *)
(* case answered "yes" TLC visits every pair; for one answered "no" the    *)
(* word is checked, or, lacking one, a pair is searched.                   *)
(***************************************************************************)
EXTENDS RegexSem, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
N == Len(Cases)

VARIABLES k, a, b, phase
vars == <<k, a, b, phase>>
Sigma == Range(Cases[k].reps)

Init == k \in 1..N /\ a = None /\ b = None /\ phase = "start"
Load ==
  /\ phase = "start" /\ Cases[k].panic = ""
  /\ phase' = IF Cases[k].ans[1] THEN "walk" ELSE "word"
  /\ a' = FromJ(Cases[k].ast[1])
  /\ b' = FromJ(Cases[k].ast[2])
  /\ UNCHANGED k
Walk(c) ==
  /\ phase = "walk"
  /\ a' = Der(a, c, Sigma)
  /\ b' = Der(b, c, Sigma)
  /\ a' # None
  /\ UNCHANGED <<k, phase>>
Next == Load \/ (phase = "walk" /\ \E c \in Sigma : Walk(c))
Spec == Init /\ [][Next]_vars

NoPanic == Cases[k].panic = ""
\* all interfaces, before and after other uses, agree
AgreeOK == phase # "start" =>
  \A i \in 1..Len(Cases[k].ans) : Cases[k].ans[i] = Cases[k].ans[1]
\* answered "contained": really contained
YesOK == phase = "walk" => (Nullable(a, Sigma) => Nullable(b, Sigma))
\* answered "not contained": some word is in a and not in b
NoOK == phase = "word" =>
  IF Cases[k].wit # <<>>
  THEN /\ Accepts(a, Cases[k].wit[1], Sigma)
       /\ ~Accepts(b, Cases[k].wit[1], Sigma)
  ELSE NonEmpty(MkAnd({a, MkNot(b)}), Sigma)
=============================================================================
