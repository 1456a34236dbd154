----------------------------- MODULE MC_ByteSets ------------------------------
(***************************************************************************)
(* How the code combines byte sets: vectors of W-bit words, a single byte  *)
(* as a node of its own, complement by words with the bits beyond the      *)
(* alphabet cleared again.  For every alphabet that fits and all sets: the *)
(* result stands for the combined set (ByteSets), has no bit beyond the    *)
(* alphabet, and equal sets are one node.  MASK = 0 leaves the bits beyond *)
(* the alphabet alone (the defect behind the first fix of C04).            *)
(***************************************************************************)
EXTENDS ByteSets, TLC, IOUtils

W == 2
Words == 2
MASK == IOEnv.MASK = "1"
Bits == 0..(W * Words - 1)

\* nodes: <<"none">>, <<"byte", b>>, <<"set", v>> with v a function word -> bit -> BOOLEAN
Vec(S) == [w \in 0..(Words - 1) |-> [i \in 0..(W - 1) |-> (w * W + i) \in S]]
Elts(v) == {b \in Bits : v[b \div W][b % W]}
Den(x) == CASE x[1] = "none" -> {} [] x[1] = "byte" -> {x[2]} [] x[1] = "set" -> Elts(x[2])
Mk(v, n) == LET S == Elts(v)
            IN IF S = {} THEN <<"none">>
               ELSE IF Cardinality(S) = 1
                    THEN LET Q == {b \in S : b < n}
                         IN IF Q = {} THEN <<"lost">> ELSE <<"byte", CHOOSE b \in Q : TRUE>>
                    ELSE <<"set", v>>
VecOf(x) == CASE x[1] = "byte" -> Vec({x[2]}) [] x[1] = "set" -> x[2]
Zip(f(_, _), u, v) == [w \in 0..(Words - 1) |-> [i \in 0..(W - 1) |-> f(u[w][i], v[w][i])]]
Or2(a, b) == a \/ b
And2(a, b) == a /\ b
AndNot2(a, b) == a /\ ~b
NotVec(v, n) == [w \in 0..(Words - 1) |-> [i \in 0..(W - 1) |->
                   ~v[w][i] /\ (MASK => w * W + i < n)]]
RECURSIVE OrAll(_)
OrAll(q) == IF q = <<>> THEN Vec({}) ELSE Zip(Or2, VecOf(q[1]), OrAll(Tail(q)))
ImplOr(q, n) == Mk(OrAll(q), n)
ImplNegOr(q, n) == Mk(NotVec(OrAll(q), n), n)
ImplAnd(x, y, n) ==
  IF x = y THEN x
  ELSE CASE x[1] = "byte" /\ y[1] = "byte" -> <<"none">>
         [] x[1] = "byte" /\ y[1] = "set" -> IF x[2] \in Elts(y[2]) THEN x ELSE <<"none">>
         [] x[1] = "set" /\ y[1] = "byte" -> IF y[2] \in Elts(x[2]) THEN y ELSE <<"none">>
         [] OTHER -> Mk(Zip(And2, x[2], y[2]), n)
ImplSub(x, y, n) ==
  CASE x[1] = "byte" /\ y[1] = "byte" -> IF x = y THEN <<"none">> ELSE x
    [] x[1] = "byte" /\ y[1] = "set" -> IF x[2] \in Elts(y[2]) THEN <<"none">> ELSE x
    [] x[1] = "set" /\ y[1] = "byte" ->
         IF y[2] \in Elts(x[2]) THEN Mk(Zip(AndNot2, x[2], Vec({y[2]})), n) ELSE x
    [] OTHER -> Mk(Zip(AndNot2, x[2], y[2]), n)

VARIABLES n, know, last
vars == <<n, know, last>>
Init == /\ n \in 2..(W * Words) /\ last = <<"all", <<>>, <<"set", Vec(Alphabet(n))>>>>
        /\ \E S, T \in SUBSET Alphabet(n) : know = {Mk(Vec(S), n), Mk(Vec(T), n), last[3]}
Args == {x \in know : x[1] \in {"byte", "set"}}
Do(op, args, r) == last' = <<op, args, r>> /\ know' = know \cup {r} /\ UNCHANGED n
Next == /\ Cardinality(know) < 6
        /\ \/ \E x, y \in Args : \/ Do("and", <<x, y>>, ImplAnd(x, y, n))
                                 \/ Do("sub", <<x, y>>, ImplSub(x, y, n))
                                 \/ Do("or", <<x, y>>, ImplOr(<<x, y>>, n))
                                 \/ Do("negor", <<x, y>>, ImplNegOr(<<x, y>>, n))
           \/ \E x \in Args : Do("not", <<x>>, ImplNegOr(<<x>>, n))
           \/ Do("negor", <<>>, ImplNegOr(<<>>, n))
Spec == Init /\ [][Next]_vars

DenOf == [x \in know |-> IF x[1] = "lost" THEN {-1} ELSE Den(x)]
MeaningOK == DenOf[last[3]] = Meaning(last[1], last[2], <<>>, DenOf, n)
InsideOK == \A x \in know : DenOf[x] \subseteq Alphabet(n)
OneNodeOK == \A x, y \in know : DenOf[x] = DenOf[y] => x = y
=============================================================================
