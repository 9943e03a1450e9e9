----------------------------- MODULE MCClosure -------------------------------
(***************************************************************************)
(* Unfolding definitions one at a time, in any order, ends exactly if the  *)
(* definitions are acyclic, and then in the leaves of module Closure: so   *)
(* the order in which a user substitutes amplitudes, angles and invariants *)
(* does not matter.                                                        *)
(***************************************************************************)
EXTENDS Closure

CONSTANTS Defined, Leaf, MaxSteps

VARIABLES defs, start, expr, steps

Names == Defined \cup Leaf

Init == /\ defs \in [Defined -> SUBSET Names]
        /\ start \in { S \in SUBSET Defined : S # {} }
        /\ expr = start
        /\ steps = 0

Unfold(x) == /\ x \in expr \cap Defined
             /\ steps < MaxSteps
             /\ expr' = (expr \ {x}) \cup defs[x]
             /\ steps' = steps + 1
             /\ UNCHANGED <<defs, start>>
Next == \E x \in Defined : Unfold(x)

Final == expr \cap Defined = {}
Confluent == Final => /\ expr \subseteq Leaves(defs, start)
                      /\ Acyclic(defs) => expr = Leaves(defs, start)
(* acyclic: no more steps than unfolding each name along each path *)
Terminates == Acyclic(defs) /\ steps = MaxSteps => Final
Sound == \A x \in expr : x \in Reach(defs, start)
Holds == Confluent /\ Terminates /\ Sound
==============================================================================
