-------------------------- MODULE TraceComposition --------------------------
(***************************************************************************)
(* Judges the alignment angles of one kinematic point: ev.z[i][x][y] is    *)
(* zeta^i_{x(y)} and ev.hat[x][y] is hat theta_{x(y)}, in units of         *)
(* 10^-8 rad, i + 1 = 1..4.                                                *)
(***************************************************************************)
EXTENDS Kinematics, TraceBase

VARIABLES idx, verdict

TwoPi == 628318531
Tol == 8
Near(a, b) == a - b < Tol /\ b - a < Tol

Z(ev, i, x, y) == ev.z[i + 1][x][y]
T(ev, x, y) == ev.hat[x][y]

Judge(ev) ==
  IF ev.raised # "" THEN {"raised " \o ev.raised}
  ELSE
       { "antisymmetry of " \o ToString(q) : q \in { q \in (0..3) \X (1..3) \X (1..3) :
            ~Near(Z(ev, q[1], q[2], q[3]), -Z(ev, q[1], q[3], q[2])) } }
  \cup { "composition of " \o ToString(q) : q \in { q \in (0..3) \X (1..3) \X (1..3) \X (1..3) :
            ~Near(Z(ev, q[1], q[2], q[3]) + Z(ev, q[1], q[3], q[4]) - Z(ev, q[1], q[2], q[4]),
                  TwoPi * Turns(q[1], q[2], q[3], q[4])) } }
  \cup { "hat antisymmetry of " \o ToString(q) : q \in { q \in (1..3) \X (1..3) :
            ~Near(T(ev, q[1], q[2]), -T(ev, q[2], q[1])) } }
  \cup { "hat composition of " \o ToString(q) : q \in { q \in (1..3) \X (1..3) \X (1..3) :
            ~Near(T(ev, q[1], q[2]) + T(ev, q[2], q[3]) - T(ev, q[1], q[3]), TwoPi * Turns(0, q[1], q[2], q[3])) } }
  \cup { "alignment of the decaying particle " \o ToString(q) : q \in { q \in (1..3) \X (1..3) :
            ~Near(T(ev, q[1], q[2]), Z(ev, 0, q[1], q[2])) } }
  \cup { "default reference of " \o ToString(q) : q \in { q \in (1..3) \X (1..3) :
            ~Near(ev.own[q[1]][q[2]], Z(ev, q[1], q[2], q[1])) } }

Init == idx \in 1..Len(Trace) /\ verdict = "pending"
Next_ == /\ verdict = "pending"
         /\ LET fails == Judge(Trace[idx])
            IN /\ Report(idx, fails)
               /\ verdict' = IF fails = {} THEN "accepted" ELSE "rejected"
         /\ UNCHANGED idx
============================================================================
