-------------------------------- MODULE MCSpin --------------------------------
(***************************************************************************)
(* Design-level theorems of module Spin, for every pair of spins up to     *)
(* MaxJ (doubled): one state per instance.                                 *)
(*   - Clebsch-Gordan coefficients are an orthogonal change of basis       *)
(*   - Wigner functions are orthogonal and compose: d(a) d(b) = d(a + b)   *)
(*   - the LS couplings of a two-body decay are as many as its helicity    *)
(*     couplings, and recoupling is orthogonal up to the norm              *)
(***************************************************************************)
EXTENDS Spin, FiniteSetsExt

CONSTANTS MaxJ, MaxD

VARIABLES what, J1, J2, done

(* two rotations with rational half angles *)
RotA == <<Div(3, 5), Div(4, 5)>>
RotB == <<Div(5, 13), Div(12, 13)>>
RotAB == << Sub(Mul(RotA[1], RotB[1]), Mul(RotA[2], RotB[2])),
            Add(Mul(RotA[2], RotB[1]), Mul(RotA[1], RotB[2])) >>
Turn == <<P - 1, 0>>

Sum(S, f(_)) == FoldSet(LAMBDA x, acc : Add(f(x), acc), 0, S)
Delta(a, b) == IF a = b THEN 1 ELSE 0

CGOrthogonal(a, b) ==
  /\ \A S, T \in Coupled(a, b) : \A M \in Proj(S) \cap Proj(T) :
       Sum({ m \in Proj(a) : Abs(M - m) <= b },
           LAMBDA m : Mul(CG(a, m, b, M - m, S, M), CG(a, m, b, M - m, T, M))) = Delta(S, T)
  /\ \A m1, n1 \in Proj(a), m2 \in Proj(b) :
       LET n2 == m1 + m2 - n1 IN n2 \in Proj(b) =>
       Sum(Coupled(a, b), LAMBDA S : Mul(CG(a, m1, b, m2, S, m1 + m2), CG(a, n1, b, n2, S, m1 + m2)))
         = Delta(m1, n1)

WignerComposes(J) ==
  \A m, n \in Proj(J) :
    /\ Sum(Proj(J), LAMBDA q : Mul(WignerD(J, m, q, RotA[1], RotA[2]), WignerD(J, q, n, RotB[1], RotB[2])))
         = WignerD(J, m, n, RotAB[1], RotAB[2])
    /\ Sum(Proj(J), LAMBDA q : Mul(WignerD(J, q, m, RotA[1], RotA[2]), WignerD(J, q, n, RotA[1], RotA[2])))
         = Delta(m, n)
    /\ WignerD(J, m, n, 1, 0) = Delta(m, n)
    /\ WignerD(J, m, n, Turn[1], Turn[2]) = Mul(SignPow(J), Delta(m, n))
    /\ WignerD(J, m, n, RotA[1], RotA[2]) = Mul(SignPow((m - n) \div 2), WignerD(J, n, m, RotA[1], RotA[2]))
    /\ WignerD(J, m, n, RotA[1], RotA[2]) = WignerD(J, -n, -m, RotA[1], RotA[2])
    /\ WignerD(J, m, n, RotA[1], Neg(RotA[2])) = WignerD(J, n, m, RotA[1], RotA[2])

(* parent 2J -> a, b: helicity pairs that the spin can carry *)
HelPairs(J, a, b) == { p \in Proj(a) \X Proj(b) : Abs(p[1] - p[2]) <= J }
RecouplingOrthogonal(J, a, b) ==
  LET LS == LSCouplings(J, a, b, (J + a + b) \div 2)
  IN /\ Cardinality(LS) = Cardinality(HelPairs(J, a, b))
     /\ \A u, v \in LS :
          Sum(HelPairs(J, a, b), LAMBDA p : Mul(Recoupling(J, u[1], u[2], a, p[1], b, p[2]),
                                              Recoupling(J, v[1], v[2], a, p[1], b, p[2])))
            = Delta(u, v)

Init == /\ what \in {"cg", "wigner", "recoupling"}
        /\ IF what = "wigner" THEN J1 \in 0..MaxD /\ J2 = 0 ELSE J1 \in 0..MaxJ /\ J2 \in 0..MaxJ
        /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<what, J1, J2>>

Holds == done =>
  CASE what = "cg" -> CGOrthogonal(J1, J2)
    [] what = "wigner" -> WignerComposes(J1)
    [] what = "recoupling" -> \A J \in { j \in 0..MaxJ : Even(j + J1 + J2) } : RecouplingOrthogonal(J, J1, J2)
============================================================================
