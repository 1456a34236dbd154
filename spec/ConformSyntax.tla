---------------------------- MODULE ConformSyntax ----------------------------
(***************************************************************************)
(* Patterns in regex syntax (C02).  A case holds the pattern as parsed by  *)
(* the regex-syntax crate under the flags the builder was given (a tree of *)
(* literals, byte and character classes, repetition, concatenation,        *)
(* alternation and look-around), whether the code under test accepted it,  *)
(* and then the recorded automaton.                                        *)
(*                                                                         *)
(* The meaning given here: a text matches iff the pattern matches the text *)
(* as a whole, characters being spelt in UTF-8, with <<"bos">> (start of   *)
(* text) true only before the first byte and <<"eos">> only after the last.*)
(***************************************************************************)
EXTENDS Anchored, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
N == Len(Cases)

VARIABLES k, r, st, s
vars == <<k, r, st, s>>
Sigma == Range(Cases[k].reps)
St(i) == Cases[k].st[i]
Loaded == s > 0

\* Can anything be accepted?  (eos may hold after any byte or none)
RECURSIVE AliveFrom(_, _)
AliveFrom(seen, stack) ==
  IF stack = <<>> THEN FALSE
  ELSE IF Null(stack[1], FALSE, TRUE) THEN TRUE
  ELSE LET nxt == {D(stack[1], c, FALSE) : c \in Sigma} \ (seen \union {None})
       IN AliveFrom(seen \union nxt, SetAsSeq(nxt) \o Tail(stack))

Init == k \in 1..N /\ r = <<>> /\ st = FALSE /\ s = -1
Load ==
  /\ s = -1
  /\ Cases[k].panic = "" /\ ~Cases[k].err
  /\ ~Cases[k].unsupported
  /\ r' = Tree(Cases[k].ast)
  /\ st' = TRUE
  /\ s' = Cases[k].init
  /\ UNCHANGED k
Step(i) ==
  /\ St(s).t # <<>>
  /\ St(s).t[i] # 0
  /\ s' = St(s).t[i]
  /\ r' = D(r, Cases[k].reps[i], st)
  /\ st' = FALSE
  /\ UNCHANGED k
Next == Load \/ (s > 0 /\ \E i \in 1..Len(Cases[k].reps) : Step(i))
Spec == Init /\ [][Next]_vars

NoPanic == Cases[k].panic = ""
AcceptOK == Loaded => (St(s).acc <=> Null(r, st, TRUE))
DeadOK == Loaded /\ St(s).dead =>
     /\ ~St(s).acc /\ ~Null(r, st, TRUE)
     /\ \A i \in 1..Len(St(s).t) : St(s).t[i] = s
LiveOK == Loaded /\ ~St(s).dead =>
     \/ St(s).d = 0 /\ Null(r, st, TRUE)
     \/ St(s).d > 0 /\ \E i \in 1..Len(St(s).t) :
          St(s).t[i] # 0 /\ St(St(s).t[i]).d = St(s).d - 1
     \/ St(s).t = <<>> /\ Cases[k].skip
     \/ Null(r, st, TRUE)
     \/ LET nxt == {D(r, c, st) : c \in Sigma} \ {None}
        IN AliveFrom(nxt, SetAsSeq(nxt))

\* anchors only at the outer edges
RECURSIVE EdgeOnly(_, _, _)
EdgeOnly(j, a, b) ==
  CASE j[1] = "bos" -> a
    [] j[1] = "eos" -> b
    [] j[1] = "cat" -> \A i \in 1..Len(j[2]) :
                         EdgeOnly(j[2][i], a /\ i = 1, b /\ i = Len(j[2]))
    [] j[1] = "or"  -> \A i \in 1..Len(j[2]) : EdgeOnly(j[2][i], a, b)
    [] j[1] = "rep" -> EdgeOnly(j[2], FALSE, FALSE)
    [] OTHER -> TRUE

(* accepted: everything but look-around in the middle; refused: what the    *)
(* parser rejects and look-around other than ^ and $.                       *)
AcceptedOK ==
  s = -1 /\ Cases[k].panic = "" =>
    IF Cases[k].unsupported THEN Cases[k].err
    ELSE Cases[k].err => ~EdgeOnly(Cases[k].ast, TRUE, TRUE)
=============================================================================
