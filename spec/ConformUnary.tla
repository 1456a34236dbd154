---------------------------- MODULE ConformUnary ------------------------------
(***************************************************************************)
(* What the code says about expressions over one letter (C01 C04 C05 C06   *)
(* C12 C14), against Unary: states after a^n and after another byte, the   *)
(* emptiness of the whole, containment both ways, and the outcome under    *)
(* growing limits (0 not empty, 1 empty, 2 given up).  Deciding these      *)
(* takes thousands of steps of the emptiness search.                       *)
(***************************************************************************)
EXTENDS Unary, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES k, bad
C == Cases[k]

\* what is wrong with a state: <<acceptance, death>>
Probe(p, t, T, far, per, else) ==
  IF p[1] < 0 THEN <<p[2] # else, p[3] # ~else>>
  ELSE LET n == Fold(t, p[1])
       IN <<p[2] # T[n], p[3] # ~Later(T, far, per, p[1], else)>>
Judge ==
  LET t == C.tree
      T == TLCEval(Table(t, Size(t)))
      far == Far(t)
      per == Per(t)
      else == Else(t)
      empty == ~Later(T, far, per, 0, else)
      P == TLCEval([i \in DOMAIN C.probes |-> Probe(C.probes[i], t, T, far, per, else)])
      If(x, what) == IF x THEN {what} ELSE {}
  IN {"judged"}
     \cup If(\E i \in DOMAIN C.empty : C.empty[i] # empty, "empty")
     \cup If(\E i \in DOMAIN P : P[i][1], "accept")
     \cup If(\E i \in DOMAIN P : P[i][2], "dead")
     \cup If(\E i \in DOMAIN C.sweep : C.sweep[i] \notin {2, IF empty THEN 1 ELSE 0},
              "wrong under a limit")
     \cup If(\E i, j \in DOMAIN C.sweep : i < j /\ C.sweep[i] # 2 /\ C.sweep[j] = 2,
              "larger limit")
     \cup If(C.sweep # <<>> /\ C.sweep[Len(C.sweep)] = 2, "no limit")
     \cup If(\E i \in DOMAIN C.cont :
               LET c == C.cont[i]
                   into == In(c.s, c.b)
                   back == In(c.b, c.s)
               IN \/ \E j \in DOMAIN c.ans : c.ans[j] # into
                  \/ \E j \in DOMAIN c.back : c.back[j] # back,
             "containment")

Init == k \in 1..Len(Cases) /\ bad = {}
Next == bad = {} /\ C.panic = "" /\ bad' = Judge /\ UNCHANGED k
Spec == Init /\ [][Next]_<<k, bad>>

NoPanic == C.panic = ""
AcceptOK == "accept" \notin bad
DeadOK == "dead" \notin bad
EmptyOK == "empty" \notin bad
ContainOK == "containment" \notin bad
LimitOK == bad \cap {"wrong under a limit", "larger limit", "no limit"} = {}
=============================================================================
