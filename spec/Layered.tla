------------------------------- MODULE Layered -------------------------------
(* One step of deciding whether w[lo..hi] is in layer i of a nest of layers. *)
EXTENDS Integers, Sequences

Decide(e, b) == [e EXCEPT !.val = IF b = e.pos THEN 1 ELSE 0]
Inner(e) == [e EXCEPT !.i = @ + 1]
Only(e, w, c) == e.lo = e.hi /\ w[e.lo] = c

Layer(ops, cs, base, w, e) ==
  IF e.i > Len(ops) THEN Decide(e, Only(e, w, base))
  ELSE LET o == ops[e.i]
           c == cs[e.i]
       IN CASE o = "cat" -> IF e.lo <= e.hi /\ w[e.lo] = c
                            THEN [Inner(e) EXCEPT !.lo = @ + 1] ELSE Decide(e, FALSE)
            [] o = "tac" -> IF e.lo <= e.hi /\ w[e.hi] = c
                            THEN [Inner(e) EXCEPT !.hi = @ - 1] ELSE Decide(e, FALSE)
            [] o = "opt" -> IF e.lo > e.hi THEN Decide(e, TRUE) ELSE Inner(e)
            [] o = "not" -> [Inner(e) EXCEPT !.pos = ~@]
            [] o \in {"or", "ro"} -> IF Only(e, w, c) THEN Decide(e, TRUE) ELSE Inner(e)
            [] o = "andn" -> IF Only(e, w, c) THEN Decide(e, FALSE) ELSE Inner(e)
            [] o \in {"all", "none", "eps", "one"} -> Inner(e)
=============================================================================
