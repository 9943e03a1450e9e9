----------------------------- MODULE MCCouplings -----------------------------
(***************************************************************************)
(* The LS couplings that module Spin allows are complete: with or without  *)
(* parity conservation there are as many of them as there are independent  *)
(* helicity couplings, and lowering the maximum L only removes couplings.  *)
(***************************************************************************)
EXTENDS Spin, FiniteSets

CONSTANTS MaxSpin      \* largest doubled spin

VARIABLES J, S1, S2, eta, done

Lcap == S1 + S2 + J
All == LSCouplings(J, S1, S2, Lcap)

HelicityPairs == { l \in Proj(S1) \X Proj(S2) : Abs(l[1] - l[2]) <= J }

(* H(-l1, -l2) = parity * H(l1, l2) *)
Mirror == eta * (IF Even((S1 + S2 - J) \div 2) THEN 1 ELSE -1)
Independent ==
  LET pairs == { { l, <<-l[1], -l[2]>> } : l \in HelicityPairs }
  IN { p \in pairs : Cardinality(p) = 2 \/ Mirror = 1 }

Init == J \in 0..MaxSpin /\ S1 \in 0..MaxSpin /\ S2 \in 0..MaxSpin /\ eta \in {1, -1} /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<J, S1, S2, eta>>

Complete ==
  Even(J + S1 + S2) =>
    /\ Cardinality(All) = Cardinality(HelicityPairs)
    /\ Cardinality(ParityAllowed(All, eta, 1, 1)) = Cardinality(Independent)
    /\ \A L \in 0..Lcap : LSCouplings(J, S1, S2, L) = { ls \in All : ls[1] <= L }
    /\ ParityAllowed(All, eta, 1, 1) = ParityAllowed(All, -eta, -1, 1)
    /\ ParityAllowed(All, eta, 1, 1) \cup ParityAllowed(All, -eta, 1, 1) = All
Impossible == ~Even(J + S1 + S2) => All = {}
Holds == Complete /\ Impossible
===============================================================================
