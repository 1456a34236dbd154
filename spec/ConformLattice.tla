---------------------------- MODULE ConformLattice ----------------------------
(* Next-byte answers combined (C07): what an answer leaves possible, as a set *)
(* of first steps (a byte, or -1 for the end), over all pairs.  The answer for *)
(* an intersection may rule out only what one side rules out, for a union what *)
(* both do.                                                                    *)
EXTENDS Integers, Sequences, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLE k
Init == k \in 1..Len(Cases[1].pairs)
Spec == Init /\ [][FALSE]_k
Left(a) == CASE a[1] = 0 -> {} [] a[1] = 1 -> {-1} [] a[1] = 2 -> {a[2]} [] a[1] = 3 -> -1..255
P == Cases[1].pairs[k]
MeetOK == Left(P.x) \cap Left(P.y) \subseteq Left(P.and)
JoinOK == Left(P.x) \cup Left(P.y) \subseteq Left(P.or)
=============================================================================
