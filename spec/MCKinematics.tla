---------------------------- MODULE MCKinematics ----------------------------
(***************************************************************************)
(* Design-level theorems of module Kinematics at every physical point with *)
(* integer squared masses and invariants up to the bounds; one state per   *)
(* point.                                                                  *)
(***************************************************************************)
EXTENDS Kinematics

CONSTANTS MaxM0, MaxM      \* largest squared masses

VARIABLES pt, done

Cyclic == { <<1, 2, 3>>, <<2, 3, 1>>, <<3, 1, 2>> }
Perms  == Cyclic \cup { <<1, 3, 2>>, <<3, 2, 1>>, <<2, 1, 3>> }

(* the cosine is one, and the Gram determinant gives the sine *)
Trig(g) ==
  LET dd == DDAng(pt, g)
      d  == Det(g.Q, g.a, g.b)
  IN /\ dd[1] >= 0 /\ dd[2] >= 0
     /\ dd[1] * dd[2] - NAng(pt, g) * NAng(pt, g) = Dot2(pt, g.Q, g.Q) * Gram(pt) * d * d

(* e^(i alpha) e^(i beta) = e^(i (alpha + beta)) for angles a->b->c, in integers *)
Compose(Q, a, b, c) ==
  LET nab == N(pt, Q, a, b)
      nbc == N(pt, Q, b, c)
      w2 == Dot2(pt, Q, Q) * Gram(pt)
  IN /\ nab * nbc - Det(Q, a, b) * Det(Q, b, c) * w2 = D(pt, Q, b) * N(pt, Q, a, c)
     /\ nab * Det(Q, b, c) + nbc * Det(Q, a, b) = D(pt, Q, b) * Det(Q, a, c)

Theorems ==
  /\ \A p \in Perms : Trig(ThetaAngle(p[1], p[2])) /\ Trig(HatAngle(p[1], p[2]))
  /\ \A i \in 1..3 : \A p \in Perms : Trig(ZetaAngle(i, p[1], p[2]))
  /\ \A p \in Perms : Compose(Mom(0), Mom(p[1]), Mom(p[2]), Mom(p[3]))
  /\ \A i \in 1..3 : \A p \in Perms : Compose(Mom(i), Axis(i, p[1]), Axis(i, p[2]), Axis(i, p[3]))
  \* signs: the cyclic hat angles are positive, so that their sum is a full turn
  /\ \A p \in Cyclic : AngleSign(HatAngle(p[1], p[2])) = 1
  \* the alignment angles of i all have the signs of the convention
  /\ \A p \in Cyclic : LET i == p[1] j == p[2] k == p[3] IN
        /\ AngleSign(ZetaAngle(i, i, k)) = 1
        /\ AngleSign(ZetaAngle(i, j, i)) = 1
        /\ AngleSign(ZetaAngle(i, j, k)) = 1
  \* swapping the decay products mirrors the scattering angle
  /\ \A p \in Perms : NAng(pt, ThetaAngle(p[1], p[2])) = -NAng(pt, ThetaAngle(p[2], p[1]))

Init == /\ pt \in [m : { <<a, b, c, d>> : a \in 1..MaxM0, b, c, d \in 0..MaxM },
                   s : { <<0, 0, 0>> }]
        /\ done = "masses"
Choose == /\ done = "masses"
          /\ \E x, y \in 1..pt.m[1] :
               LET z == pt.m[1] + pt.m[2] + pt.m[3] + pt.m[4] - x - y
                   q == [pt EXCEPT !.s = <<x, y, z>>]
               IN z > 0 /\ Physical(q) /\ pt' = q
          /\ done' = "point"
Next_ == Choose
Holds == done = "point" => Theorems
============================================================================
