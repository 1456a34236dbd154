----------------------------- MODULE ConformBulk ------------------------------
(***************************************************************************)
(* An expression set with very many expressions (C12): expression i is one *)
(* of six kinds made of the word W(i), and all are asked about with one    *)
(* derivative cache and one emptiness cache.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES k, pos
C == Cases[k]

W(i) == <<97, (i \div 65536) % 256, (i \div 256) % 256, i % 256>>
Starts(w, v) == Len(w) <= Len(v) /\ SubSeq(v, 1, Len(w)) = w
Mem(i, w) ==
  CASE i % 6 = 0 -> w = W(i)
    [] i % 6 = 1 -> w # W(i)
    [] i % 6 = 2 -> w = W(i) \/ w = Append(W(i), 122)
    [] i % 6 = 3 -> w # W(i) /\ w # W(i + 1)
    [] i % 6 = 4 -> w = W(i) \/ w = <<>>
    [] OTHER -> FALSE
Goes(i, w) ==
  CASE i % 6 = 0 -> Starts(w, W(i))
    [] i % 6 \in {1, 3} -> TRUE
    [] i % 6 = 2 -> Starts(w, Append(W(i), 122))
    [] i % 6 = 4 -> Starts(w, W(i))
    [] OTHER -> FALSE

Init == k \in 1..Len(Cases) /\ pos = 0
Next == C.panic = "" /\ pos < Len(C.log) /\ pos' = pos + 1 /\ UNCHANGED k
Spec == Init /\ [][Next]_<<k, pos>>

NoPanic == C.panic = ""
LogOK == pos > 0 =>
  LET e == C.log[pos]
  IN \A j \in 1..Len(e.probes) :
       LET p == e.probes[j]
       IN /\ \A m \in 1..Len(p.acc) : p.acc[m] = Mem(e.i, p.w)
          /\ p.live = Goes(e.i, p.w)
=============================================================================
