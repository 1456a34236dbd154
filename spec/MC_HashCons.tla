------------------------------ MODULE MC_HashCons -----------------------------
(***************************************************************************)
(* hashcons.rs as it stores things - one backing array, extents, a region  *)
(* under construction, a capacity that grows - against the abstract table  *)
(* of HashCons.tla (C11).  Words are pushed one by one or in slices;       *)
(* finishing looks the region up and either gives it a number or abandons  *)
(* it in place, to be overwritten by the next insertion.                   *)
(***************************************************************************)
EXTENDS HashCons, TLC, IOUtils

OPS == atoi(IOEnv.LEN)
Letters == 0..1
Slices == UNION {[1..n -> Letters] : n \in 0..2}
CHUNK == 2                     \* how much is added when the array must grow
FIRST == 1                     \* where the first region starts

VARIABLES back,   \* the array, positions from 0
          ext,    \* extents <<start, end>> of the numbered regions
          lo, hi, \* the region under construction; hi = 0: none
          T,      \* the abstract table
          cur,    \* the vector pushed so far
          last,   \* <<number given, vector>>
          n
vars == <<back, ext, lo, hi, T, cur, last, n>>

Region(b, e) == SubSeq(b, e[1] + 1, e[2])
Grown(b, size) == IF Len(b) >= size THEN b ELSE b \o [i \in 1..(size - Len(b) + CHUNK) |-> 9]

Init == back = <<>> /\ ext = <<>> /\ lo = FIRST /\ hi = 0 /\ T = <<>> /\ cur = <<>>
        /\ last = <<>> /\ n = 0

Start == /\ hi = 0 /\ n < OPS
         /\ hi' = lo /\ back' = Grown(back, lo)
         /\ cur' = <<>> /\ n' = n + 1 /\ last' = <<>>
         /\ UNCHANGED <<ext, lo, T>>
Push(v) == /\ hi # 0 /\ n < OPS
           /\ LET b == Grown(back, hi + Len(v))
              IN back' = [i \in 1..Len(b) |-> IF i > hi /\ i <= hi + Len(v) THEN v[i - hi] ELSE b[i]]
           /\ hi' = hi + Len(v)
           /\ cur' = cur \o v /\ n' = n + 1 /\ last' = <<>>
           /\ UNCHANGED <<ext, lo, T>>
Finish == /\ hi # 0
          /\ LET v == Region(back, <<lo, hi>>)
                 hit == {i \in 1..Len(ext) : Region(back, ext[i]) = v}
             IN IF hit # {}
                THEN /\ last' = <<(CHOOSE i \in hit : TRUE) - 1, cur>>
                     /\ UNCHANGED <<ext, lo>>
                ELSE /\ ext' = Append(ext, <<lo, hi>>) /\ lo' = hi
                     /\ last' = <<Len(ext), cur>>
          /\ hi' = 0 /\ T' = Put(T, cur) /\ cur' = <<>>
          /\ UNCHANGED <<back, n>>
Next == Start \/ Finish \/ \E v \in Slices : Push(v)
Spec == Init /\ [][Next]_vars

\* the abstract table is what the extents hold, at any time
RefinesOK == T = [i \in 1..Len(ext) |-> Region(back, ext[i])]
AnswerOK == last # <<>> => last[1] = IdOf(T, last[2])
\* regions do not overlap the one under construction
ApartOK == \A i \in 1..Len(ext) : ext[i][2] <= lo
=============================================================================
