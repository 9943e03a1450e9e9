----------------------------- MODULE Kinematics -----------------------------
(***************************************************************************)
(* Three-body kinematics over the integers.  A point is                    *)
(*   m  <<m0^2, m1^2, m2^2, m3^2>>      s  <<sigma1, sigma2, sigma3>>      *)
(* A momentum is an integer combination of p1, p2, p3; p0 = <<1, 1, 1>>.   *)
(* All momenta lie in one plane of space, in any rest frame; the angle     *)
(* between a and b in the rest frame of Q is given by invariants:          *)
(*     cos = N(Q, a, b) / sqrt(D(Q, a) D(Q, b))                            *)
(*     sin = Det(Q, a, b) sqrt(Q^2 G) / sqrt(D(Q, a) D(Q, b))              *)
(* with integers N, D and G (the Gram determinant, up to a factor), and    *)
(* the sign of Det the orientation.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Unit(k) == [n \in 1..3 |-> IF n = k THEN 1 ELSE 0]
Mom(k)  == IF k = 0 THEN <<1, 1, 1>> ELSE Unit(k)
VAdd(a, b) == [n \in 1..3 |-> a[n] + b[n]]
VNeg(a)    == [n \in 1..3 |-> -a[n]]

Third(x, y) == 6 - x - y
Next(k) == IF k = 3 THEN 1 ELSE k + 1
Prev(k) == IF k = 1 THEN 3 ELSE k - 1

(* 2 p_x . p_y for final state particles *)
PP(pt, x, y) == IF x = y THEN 2 * pt.m[x + 1]
                ELSE pt.s[Third(x, y)] - pt.m[x + 1] - pt.m[y + 1]
(* 2 a . b *)
Dot2(pt, a, b) ==
  a[1] * (b[1] * PP(pt, 1, 1) + b[2] * PP(pt, 1, 2) + b[3] * PP(pt, 1, 3)) +
  a[2] * (b[1] * PP(pt, 2, 1) + b[2] * PP(pt, 2, 2) + b[3] * PP(pt, 2, 3)) +
  a[3] * (b[1] * PP(pt, 3, 1) + b[2] * PP(pt, 3, 2) + b[3] * PP(pt, 3, 3))

N(pt, Q, a, b) == Dot2(pt, Q, a) * Dot2(pt, Q, b) - Dot2(pt, Q, Q) * Dot2(pt, a, b)
D(pt, Q, a)    == Dot2(pt, Q, a) * Dot2(pt, Q, a) - Dot2(pt, Q, Q) * Dot2(pt, a, a)

Det(a, b, c) == a[1] * (b[2] * c[3] - b[3] * c[2])
              - a[2] * (b[1] * c[3] - b[3] * c[1])
              + a[3] * (b[1] * c[2] - b[2] * c[1])

(* Gram determinant of 2 p_x . p_y: positive inside the physical region *)
Gram(pt) ==
  LET g(x, y) == PP(pt, x, y)
  IN g(1, 1) * (g(2, 2) * g(3, 3) - g(2, 3) * g(3, 2))
   - g(1, 2) * (g(2, 1) * g(3, 3) - g(2, 3) * g(3, 1))
   + g(1, 3) * (g(2, 1) * g(3, 2) - g(2, 2) * g(3, 1))

(* a < b for a = x^2, b = y^2: (x + y)^2 <= z, without roots *)
ThresholdOK(x2, y2, z2) == z2 >= x2 + y2 /\ (z2 - x2 - y2) * (z2 - x2 - y2) >= 4 * x2 * y2
Physical(pt) ==
  /\ pt.s[1] + pt.s[2] + pt.s[3] = pt.m[1] + pt.m[2] + pt.m[3] + pt.m[4]
  /\ \A k \in 1..3 : ThresholdOK(pt.m[Next(k) + 1], pt.m[Prev(k) + 1], pt.s[k]) /\ pt.s[k] > 0
  /\ \A k \in 1..3 : ThresholdOK(pt.s[k], pt.m[k + 1], pt.m[1])
  /\ Gram(pt) > 0

(* An oriented angle: from a to b in the rest frame of Q *)
Angle(Q, a, b) == [Q |-> Q, a |-> a, b |-> b]

(* theta_ij: between i and the line of flight of the isobar, minus the     *)
(* direction of the spectator, in the rest frame of the isobar             *)
ThetaAngle(i, j) == Angle(VAdd(Mom(i), Mom(j)), Mom(i), VNeg(Mom(Third(i, j))))

(* hat theta_x(y): between the isobars of subsystems x and y in the rest   *)
(* frame of particle 0; positive if (x, y) is cyclic                       *)
HatAngle(x, y) == Angle(Mom(0), Mom(x), Mom(y))

(* zeta^i_x(y): between the axes of subsystems x and y in the rest frame   *)
(* of i: p_0 where i is the spectator, else the particle i pairs with      *)
Axis(i, x) == IF x = i THEN Mom(0) ELSE Mom(Third(i, x))
ZetaAngle(i, x, y) == IF i = 0 THEN HatAngle(x, y) ELSE Angle(Mom(i), Axis(i, y), Axis(i, x))

(* sign of the angle: orientation of (Q, a, b); scattering angles have none *)
SignOf(n) == IF n < 0 THEN -1 ELSE IF n = 0 THEN 0 ELSE 1
AngleSign(g) == SignOf(Det(g.Q, g.a, g.b))

NAng(pt, g)  == N(pt, g.Q, g.a, g.b)
DDAng(pt, g) == <<D(pt, g.Q, g.a), D(pt, g.Q, g.b)>>

(* full turns in alpha(x, y) + alpha(y, z) - alpha(x, z) *)
Turns(i, x, y, z) ==
  IF i # 0 \/ Cardinality({x, y, z}) < 3 THEN 0
  ELSE IF y = Next(x) THEN 1 ELSE -1
============================================================================
