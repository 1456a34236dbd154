----------------------------- MODULE MC_Anchored ------------------------------
(***************************************************************************)
(* Anchored.tla against the definition by positions, for every pattern of  *)
(* at most SIZE operators and leaves (assertions anywhere, also under      *)
(* repetition) and every word of at most LEN letters; and what the builder *)
(* may do with assertions (syntax.rs): it drops them where the tree allows *)
(* them at the edges, which must not change the meaning.                   *)
(***************************************************************************)
EXTENDS Anchored, TLC, IOUtils

SIZE == atoi(IOEnv.SIZE)
LEN == atoi(IOEnv.LEN)
A == 1..2

Leaves == {Bos, Eos, Eps, <<"set", {1}>>, <<"set", {1, 2}>>}
Reps == {<<0, -1>>, <<0, 1>>, <<1, -1>>, <<2, 2>>}
RECURSIVE OfSize(_)
OfSize(n) ==
  IF n = 1 THEN Leaves
  ELSE LET sub == [m \in 1..(n-1) |-> OfSize(m)]
       IN {<<"rep", x, m[1], m[2]>> : x \in sub[n-1], m \in Reps}
          \union UNION {UNION {{<<"cat", <<x, y>>>>, <<"or", {x, y}>>} : x \in sub[m], y \in sub[n-1-m]}
                        : m \in 1..(n-2)}
All0 == UNION {OfSize(n) : n \in 1..SIZE}

RECURSIVE Norm(_)
Norm(x) ==
  CASE x[1] = "cat" -> MkCatSeq([i \in 1..Len(x[2]) |-> Norm(x[2][i])])
    [] x[1] = "or" -> MkOr({Norm(y) : y \in x[2]})
    [] x[1] = "rep" -> MkRep(Norm(x[2]), x[3], x[4])
    [] OTHER -> x

VARIABLES x, w, r
vars == <<x, w, r>>
Init == x \in All0 /\ w = <<>> /\ r = Norm(x)
Next == \E c \in A : /\ Len(w) < LEN
                     /\ w' = Append(w, c) /\ r' = D(r, c, w = <<>>) /\ UNCHANGED x
Spec == Init /\ [][Next]_vars

\* x matches w[i+1 .. j] where it stands
RECURSIVE M(_, _, _), Rp(_, _, _, _, _)
M(y, i, j) ==
  CASE y = Bos -> i = 0 /\ i = j
    [] y = Eos -> j = Len(w) /\ i = j
    [] y = Eps -> i = j
    [] y[1] = "set" -> j = i + 1 /\ w[j] \in y[2]
    [] y[1] = "cat" -> IF Len(y[2]) = 1 THEN M(y[2][1], i, j)
                       ELSE \E n \in i..j : M(y[2][1], i, n) /\ M(<<"cat", Tail(y[2])>>, n, j)
    [] y[1] = "or" -> \E z \in y[2] : M(z, i, j)
    [] y[1] = "rep" -> Rp(y[2], y[3], y[4], i, j)
Rp(y, mn, mx, i, j) ==
  \/ mn = 0 /\ i = j
  \/ /\ mx # 0
     /\ \E n \in i..j : /\ n > i \/ mn > 0
                        /\ M(y, i, n)
                        /\ Rp(y, Dec(mn), DecMax(mx), n, j)
Matches == M(x, 0, Len(w))
ResidualOK == Null(r, w = <<>>, TRUE) <=> Matches

\* what syntax.rs admits, and what it makes of it
RECURSIVE Admitted(_, _, _), Dropped(_)
Admitted(y, s, e) ==
  CASE y = Bos -> s
    [] y = Eos -> e
    [] y[1] = "cat" -> /\ Admitted(y[2][1], s, e /\ Len(y[2]) = 1)
                       /\ Len(y[2]) = 1 \/ Admitted(y[2][2], FALSE, e)
    [] y[1] = "or" -> \A z \in y[2] : Admitted(z, s, e)
    [] y[1] = "rep" -> Admitted(y[2], FALSE, FALSE)
    [] OTHER -> TRUE
Dropped(y) ==
  CASE y \in {Bos, Eos} -> Eps
    [] y[1] = "cat" -> MkCat(Dropped(y[2][1]), Dropped(y[2][2]))
    [] y[1] = "or" -> MkOr({Dropped(z) : z \in y[2]})
    [] y[1] = "rep" -> MkRep(Dropped(y[2]), y[3], y[4])
    [] OTHER -> y
DropOK == Admitted(x, TRUE, TRUE) => (Accepts(Dropped(x), w, A) <=> Matches)
=============================================================================
