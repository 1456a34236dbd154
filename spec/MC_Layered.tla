----------------------------- MODULE MC_Layered ------------------------------
(* The layer-by-layer evaluation of Layered.tla against the denotational     *)
(* meaning, for every nest of at most DEPTH layers and word of at most LEN.  *)
EXTENDS RegexSem, Layered, TLC, IOUtils

DEPTH == atoi(IOEnv.DEPTH)
LEN == atoi(IOEnv.LEN)
A == 1..3          \* 3 is the base
Ops == {"cat", "tac", "opt", "not", "or", "ro", "andn", "all", "none", "eps", "one"}

VARIABLES ops, cs, w, e
vars == <<ops, cs, w, e>>

Byte(c) == <<"set", {c}>>
RECURSIVE Expr(_)
Expr(i) ==
  IF i > Len(ops) THEN Byte(3)
  ELSE LET x == Expr(i + 1)
           c == Byte(cs[i])
       IN CASE ops[i] = "cat" -> <<"cat", <<c, x>>>>
            [] ops[i] = "tac" -> <<"cat", <<x, c>>>>
            [] ops[i] = "opt" -> <<"rep", x, 0, 1>>
            [] ops[i] = "not" -> <<"not", x>>
            [] ops[i] \in {"or", "ro"} -> <<"or", {c, x}>>
            [] ops[i] = "andn" -> <<"and", {x, <<"not", c>>}>>
            [] ops[i] = "all" -> <<"and", {<<"rep", <<"set", A>>, 0, Inf>>, x}>>
            [] ops[i] = "none" -> <<"or", {x, None}>>
            [] ops[i] = "eps" -> <<"cat", <<Eps, x>>>>
            [] ops[i] = "one" -> <<"rep", x, 1, 1>>

Init == /\ ops \in UNION {[1..n -> Ops] : n \in 0..DEPTH}
        /\ cs \in [1..Len(ops) -> {1, 2}]
        /\ \A i \in 1..Len(ops) : ops[i] \in {"opt", "not", "all", "none", "eps", "one"} => cs[i] = 1
        /\ w \in Words(A, LEN)
        /\ e = [i |-> 1, lo |-> 1, hi |-> Len(w), pos |-> TRUE, val |-> 2]
Next == e.val = 2 /\ e' = Layer(ops, cs, 3, w, e) /\ UNCHANGED <<ops, cs, w>>
Spec == Init /\ [][Next]_vars
LayerOK == e.val # 2 => ((e.val = 1) <=> InLang(Expr(1), w, A, 0))
=============================================================================
