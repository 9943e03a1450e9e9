------------------------------- MODULE Angles -------------------------------
(***************************************************************************)
(* The angles of a three-body decay 0 -> 1 2 3 in its decay plane.         *)
(*                                                                         *)
(* All rotations are about the normal of the decay plane, so an angle is   *)
(* represented by cos and sin of its half, <<c, s>> with c^2 + s^2 = 1, in *)
(* GF(P).  The half angle keeps the sign under a full turn that            *)
(* half-integer spins are sensitive to.                                    *)
(*                                                                         *)
(* theta_k     angle between particle i and the line of flight of the      *)
(*             isobar (ij), in the rest frame of the isobar; k spectator   *)
(* hat_{x(y)}  angle between the isobars of subsystems x and y in the rest *)
(*             frame of particle 0.  p1 + p2 + p3 = 0, so that             *)
(*             hat_{1(2)} + hat_{2(3)} + hat_{3(1)} is a full turn.        *)
(* zeta^i_{x(y)} angle between the directions from which particle i is     *)
(*             reached in subsystems x and y, in the rest frame of i.      *)
(*             These directions are p_0 for x = i and p_j for the subsystem*)
(*             k in which i pairs with j; p_0 = p_j + p_k lies in between, *)
(*             so that zeta^i_{j(k)} = zeta^i_{j(i)} + zeta^i_{i(k)} without full turn.*)
(***************************************************************************)
EXTENDS Arith

Next3(k) == IF k = 3 THEN 1 ELSE k + 1
Prev3(k) == IF k = 1 THEN 3 ELSE k - 1
(* decay products of subsystem k, in the order of the convention *)
ChildI(k) == Next3(k)
ChildJ(k) == Prev3(k)

RotZero == <<1, 0>>
Rot(a, b) == << Sub(Mul(a[1], b[1]), Mul(a[2], b[2])),
                Add(Mul(a[2], b[1]), Mul(a[1], b[2])) >>
RotNeg(a) == << a[1], Neg(a[2]) >>
FullTurn(a) == << Neg(a[1]), Neg(a[2]) >>
IsRot(a) == Add(Mul(a[1], a[1]), Mul(a[2], a[2])) = 1

(* h: basic half angles: h.theta[k]; h.hat[1] = hat_{1(2)},                *)
(* h.hat[2] = hat_{2(3)}; h.zeta[i][1] = zeta^i_{i(k)}, h.zeta[i][2] =     *)
(* zeta^i_{j(i)}, (i, j, k) cyclic.                                        *)
ValidAngles(h) == /\ \A k \in 1..3 : IsRot(h.theta[k])
                  /\ \A k \in 1..2 : IsRot(h.hat[k])
                  /\ \A i \in 1..3 : IsRot(h.zeta[i][1]) /\ IsRot(h.zeta[i][2])

Theta(h, k) == h.theta[k]

ThetaHat(h, x, y) ==
  IF x = y THEN RotZero
  ELSE IF y = Next3(x)
       THEN IF x = 3 THEN FullTurn(RotNeg(Rot(h.hat[1], h.hat[2]))) ELSE h.hat[x]
       ELSE LET a == IF y = 3 THEN FullTurn(RotNeg(Rot(h.hat[1], h.hat[2]))) ELSE h.hat[y]
            IN RotNeg(a)

Zeta(h, i, x, y) ==
  IF i = 0 THEN ThetaHat(h, x, y)
  ELSE LET j == Next3(i)
           k == Prev3(i)
           pos(z) == IF z = k THEN RotZero
                     ELSE IF z = i THEN h.zeta[i][1]
                     ELSE Rot(h.zeta[i][1], h.zeta[i][2])
       IN Rot(pos(x), RotNeg(pos(y)))
============================================================================
