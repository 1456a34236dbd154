----------------------------- MODULE ConformRaw ------------------------------
(***************************************************************************)
(* The expression level (C12, and forced prefixes of C07): a graph of      *)
(* expressions recorded from DerivCache, RelevanceCache and the nullable   *)
(* flag, started from several roots with shared caches, against residuals. *)
(*                                                                         *)
(* Per node: null(able), ne (non-empty), same (asked again: same answer),  *)
(* t (derivative by each rep; <<>> if not expanded), d (distance to a      *)
(* nullable node, or -1), nb / nbb (answer of NextByteCache).              *)
(***************************************************************************)
EXTENDS RegexSem, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
N == Len(Cases)

VARIABLES k, root, r, s
vars == <<k, root, r, s>>
Sigma == Range(Cases[k].reps)
St(i) == Cases[k].st[i]
Loaded == s > 0

Init == k \in 1..N /\ root = 0 /\ r = None /\ s = -1
Load ==
  /\ s = -1
  /\ Cases[k].panic = ""
  /\ root' \in 1..Len(Cases[k].init)
  /\ r' = FromJ(Cases[k].ast[root'])
  /\ s' = Cases[k].init[root']
  /\ UNCHANGED k
Step(i) ==
  /\ St(s).t # <<>>
  /\ St(s).t[i] # 0
  /\ s' = St(s).t[i]
  /\ r' = Der(r, Cases[k].reps[i], Sigma)
  /\ root' = 0
  /\ UNCHANGED k
Next == Load \/ (s > 0 /\ \E i \in 1..Len(Cases[k].reps) : Step(i))
Spec == Init /\ [][Next]_vars

NoPanic == Cases[k].panic = ""
\* derivatives are right: all words, by following them to nullable queries
NullableOK == Loaded => (St(s).null <=> Nullable(r, Sigma))
SameOK == Loaded => St(s).same
NonEmptyOK ==
  Loaded =>
    IF St(s).ne
    THEN \/ St(s).d = 0 /\ Nullable(r, Sigma)
         \/ St(s).d > 0 /\ \E i \in 1..Len(St(s).t) :
              St(s).t[i] # 0 /\ St(St(s).t[i]).d = St(s).d - 1
         \/ St(s).t = <<>> /\ Cases[k].skip
         \/ NonEmpty(r, Sigma)
    ELSE /\ ~Nullable(r, Sigma)
         /\ \/ /\ St(s).t # <<>>
               /\ \A i \in 1..Len(St(s).t) : ~St(St(s).t[i]).ne
            \/ St(s).t = <<>> /\ Cases[k].skip
            \/ ~NonEmpty(r, Sigma)

FailsOn(c) == ~NonEmpty(Der(r, c, Sigma), Sigma)
NextByteOK ==
  Loaded =>
    CASE St(s).nb = 0 -> ~NonEmpty(r, Sigma)
      [] St(s).nb = 1 -> Nullable(r, Sigma) /\ \A c \in Sigma : FailsOn(c)
      [] St(s).nb = 2 -> ~Nullable(r, Sigma)
                         /\ \A c \in Sigma \ {St(s).nbb} : FailsOn(c)
      [] OTHER -> TRUE

RECURSIVE StartsWith(_, _)
StartsWith(x, p) ==
  \/ p = <<>>
  \/ /\ ~Nullable(x, Sigma)
     /\ \A c \in Sigma \ {p[1]} : ~NonEmpty(Der(x, c, Sigma), Sigma)
     /\ StartsWith(Der(x, p[1], Sigma), Tail(p))
ForcedPrefixOK ==
  Loaded /\ root > 0 =>
    \A j \in 1..Len(Cases[k].forced) :
       Cases[k].forced[j].root = root => StartsWith(r, Cases[k].forced[j].p)
=============================================================================
