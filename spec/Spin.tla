-------------------------------- MODULE Spin --------------------------------
(***************************************************************************)
(* Spins, projections, couplings.  Every spin and projection is doubled,   *)
(* so that it is an integer: 2j, 2m.                                       *)
(***************************************************************************)
EXTENDS Arith

(* allowed projections 2m of a spin 2j, ascending *)
ProjSeq(J) == [n \in 1..(J + 1) |-> 2 * (n - 1) - J]
Proj(J)    == { 2 * n - J : n \in 0..J }

(* spins 2S that two spins 2j1, 2j2 couple to *)
Coupled(J1, J2) == { S \in Abs(J1 - J2)..(J1 + J2) : Even(S - J1 - J2) }

Triangle(J1, J2, J3) == /\ Even(J1 + J2 + J3)
                        /\ Abs(J1 - J2) <= J3
                        /\ J3 <= J1 + J2

(* allowed <<L, 2S>> of parent 2J -> 2s1 2s2 with L <= Lmax (L not doubled) *)
LSCouplings(J, S1, S2, Lmax) ==
    { ls \in (0..Lmax) \X Coupled(S1, S2) : Triangle(2 * ls[1], ls[2], J) }
ParityAllowed(LS, eta, eta1, eta2) ==
    { ls \in LS : eta = eta1 * eta2 * (IF Even(ls[1]) THEN 1 ELSE -1) }

----------------------------------------------------------------------------
(* Clebsch-Gordan coefficient <j1 m1 j2 m2 | J M>, Racah's formula, all    *)
(* arguments doubled; zero outside the selection rules.                    *)
RECURSIVE CGSum(_, _, _, _, _, _, _)
CGSum(k, kmax, a, b, c, d, e) ==
  IF k > kmax THEN 0
  ELSE LET term == Mul(SignPow(k),
                   Mul(Mul(InvFact(k), InvFact(a - k)),
                   Mul(Mul(InvFact(b - k), InvFact(c - k)),
                       Mul(InvFact(d + k), InvFact(e + k)))))
       IN Add(term, CGSum(k + 1, kmax, a, b, c, d, e))

CG(J1, M1, J2, M2, J, M) ==
  IF \/ M1 + M2 # M
     \/ ~Triangle(J1, J2, J)
     \/ Abs(M1) > J1 \/ Abs(M2) > J2 \/ Abs(M) > J
     \/ ~Even(J1 + M1) \/ ~Even(J2 + M2) \/ ~Even(J + M)
  THEN 0
  ELSE LET h(n) == n \div 2
           a == h(J1 + J2 - J)
           b == h(J1 - M1)
           c == h(J2 + M2)
           d == h(J - J2 + M1)
           e == h(J - J1 - M2)
           kmin == Max2(0, Max2(-d, -e))
           kmax == Min2(a, Min2(b, c))
           pref == Mul(Mul(Sqrt(J + 1), SqrtFactTab[h(J + J1 - J2)]),
                   Mul(Mul(SqrtFactTab[h(J - J1 + J2)], SqrtFactTab[a]),
                   Mul(Mul(SqrtInvFactTab[h(J1 + J2 + J) + 1],
                           Mul(SqrtFactTab[h(J + M)], SqrtFactTab[h(J - M)])),
                   Mul(Mul(SqrtFactTab[b], SqrtFactTab[h(J1 + M1)]),
                       Mul(SqrtFactTab[h(J2 - M2)], SqrtFactTab[c])))))
       IN Mul(pref, CGSum(kmin, kmax, a, b, c, d, e))

(* The factor that converts an LS coupling to a helicity coupling for      *)
(* parent 2J -> child1(2j1, 2l1) child2(2j2, 2l2)                          *)
Recoupling(J, L, S, J1, l1, J2, l2) ==
  Mul(Mul(Sqrt(2 * L + 1), Inv(Sqrt(J + 1))),
      Mul(CG(2 * L, 0, S, l1 - l2, J, l1 - l2),
          CG(J1, l1, J2, -l2, S, l1 - l2)))

----------------------------------------------------------------------------
(* Wigner small-d function d^j_{m' m}(beta); hc, hs = cos, sin of beta/2.  *)
(* Zero if a projection exceeds the spin.                                  *)
RECURSIVE DSum(_, _, _, _, _, _, _)
DSum(k, kmax, J, M1, M2, hc, hs) ==
  IF k > kmax THEN 0
  ELSE LET h(n) == n \div 2
           mu == h(M1 - M2)
           den == Mul(Mul(InvFact(h(J + M2) - k), InvFact(k)),
                      Mul(InvFact(mu + k), InvFact(h(J - M1) - k)))
           term == Mul(Mul(SignPow(mu + k), den),
                       Mul(Pow(hc, J - mu - 2 * k), Pow(hs, mu + 2 * k)))
       IN Add(term, DSum(k + 1, kmax, J, M1, M2, hc, hs))

WignerD(J, M1, M2, hc, hs) ==
  IF \/ Abs(M1) > J \/ Abs(M2) > J \/ ~Even(J + M1) \/ ~Even(J + M2) THEN 0
  ELSE LET h(n) == n \div 2
           kmin == Max2(0, h(M2 - M1))
           kmax == Min2(h(J + M2), h(J - M1))
           pref == Mul(Mul(SqrtFactTab[h(J + M1)], SqrtFactTab[h(J - M1)]),
                       Mul(SqrtFactTab[h(J + M2)], SqrtFactTab[h(J - M2)]))
       IN Mul(pref, DSum(kmin, kmax, J, M1, M2, hc, hs))
============================================================================
