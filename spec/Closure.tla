------------------------------- MODULE Closure -------------------------------
(***************************************************************************)
(* When is a model self-contained?  A model is a dependency graph over     *)
(* names: defs maps a name to the set of names that its definition refers  *)
(* to (amplitudes, angles, invariants); a name without definition is a     *)
(* leaf.  Unfolding replaces any defined name by what it refers to, until  *)
(* only leaves remain.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Refs(defs, x)  == IF x \in DOMAIN defs THEN defs[x] ELSE {}
Expand(defs, S) == S \cup UNION { Refs(defs, x) : x \in S }
RECURSIVE Reach(_, _)
Reach(defs, S) == LET T == Expand(defs, S) IN IF T = S THEN S ELSE Reach(defs, T)

(* leaves that an expression with references S comes down to *)
Leaves(defs, S) == { x \in Reach(defs, S) : x \notin DOMAIN defs }
(* no definition refers to itself, directly or not *)
Acyclic(defs)   == \A x \in DOMAIN defs : x \notin Reach(defs, defs[x])

(* names that remain undefined: neither given a value nor independent *)
Undefined(defs, S, given) == Leaves(defs, S) \ given
==============================================================================
