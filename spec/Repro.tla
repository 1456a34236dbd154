-------------------------------- MODULE Repro --------------------------------
(***************************************************************************)
(* Same history, same answers (C18).                                       *)
(*                                                                         *)
(* An object (builder, expression set with its caches, matcher) has a      *)
(* history: the calls made on it since it was created, where a clone       *)
(* starts with the history of its origin, a matcher or expression set with *)
(* that of the builder it was taken from (and the call that took it), and  *)
(* a reading call adds nothing.  Histories form a tree; an object is at a  *)
(* node of it.  A call moves the object along an edge, which carries the   *)
(* answer:                                                                 *)
(*    at    object -> node                                                 *)
(*    edge  <<node, call>> -> [r |-> answer, to |-> node]                  *)
(* The first time a call is made on a history, its answer is free (other   *)
(* properties say what it has to be); whenever the same history is         *)
(* followed by the same call - on whatever object, in whatever thread or   *)
(* process, after whatever was done to other objects - it is that answer.  *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC

VARIABLES at, edge

Known(o, c) == <<at[o], c>> \in DOMAIN edge
\* the answer r to call c on object o is allowed
Allowed(o, c, r) == Known(o, c) => edge[<<at[o], c>>].r = r

Fresh == Cardinality(DOMAIN edge) + 1       \* nodes: 0 is the empty history
Put(f, x, v) == (x :> v) @@ f
Learn(o, c, r, to) ==
  IF Known(o, c) THEN edge ELSE Put(edge, <<at[o], c>>, [r |-> r, to |-> to])
Target(o, c, fresh) == IF Known(o, c) THEN edge[<<at[o], c>>].to ELSE fresh

ReproInit == at = [x \in {} |-> 0] /\ edge = [x \in {} |-> 0]
\* a new object without origin
Root(n) == at' = Put(at, n, 0) /\ UNCHANGED edge
\* n is a clone of o
CloneOf(n, o) == at' = Put(at, n, at[o]) /\ UNCHANGED edge
\* a call that may change o
Do(o, c, r) ==
  /\ edge' = Learn(o, c, r, Fresh)
  /\ at' = [at EXCEPT ![o] = Target(o, c, Fresh)]
\* a call that only reads o
See(o, c, r) == edge' = Learn(o, c, r, at[o]) /\ UNCHANGED at
\* a call that reads o and yields the object n
Make(n, o, c, r) ==
  /\ edge' = Learn(o, c, r, Fresh)
  /\ at' = Put(at, n, Target(o, c, Fresh))
=============================================================================
