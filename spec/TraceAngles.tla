----------------------------- MODULE TraceAngles -----------------------------
(***************************************************************************)
(* Judges the angle formulas of the code at integer kinematic points       *)
(* against the covariant angles of module Kinematics.  The code's angle is *)
(* recorded as its sign, the sign of its cosine, and its squared cosine as *)
(* a rational n/d modulo several primes.                                   *)
(***************************************************************************)
EXTENDS Kinematics, TraceBase

VARIABLES idx, verdict

Primes == <<42719, 46337, 46327, 46309>>

(* requests that name an angle *)
Exists(ev) ==
  LET a == ev.args
      IDs == 1..3
  IN CASE ev.kind = "theta" -> a[1] \in IDs /\ a[2] \in IDs /\ a[1] # a[2]
       [] ev.kind = "hat"   -> a[1] \in IDs /\ a[2] \in IDs
       [] ev.kind = "zeta"  -> a[1] \in 0..3 /\ a[2] \in IDs /\ (a[3] \in IDs \/ (a[3] = 0 /\ a[1] # 0))
(* scattering angles may be refused in anti-cyclic order *)
MayRefuse(ev) == ev.kind = "theta" /\ ev.args[2] # Next(ev.args[1])

Geometry(ev) ==
  LET a == ev.args
  IN CASE ev.kind = "theta" -> ThetaAngle(a[1], a[2])
       [] ev.kind = "hat"   -> HatAngle(a[1], a[2])
       [] ev.kind = "zeta"  -> ZetaAngle(a[1], a[2], IF a[3] = 0 THEN a[1] ELSE a[3])

Expected(ev, pt, g) ==
  LET n == NAng(pt, g)
      dd == DDAng(pt, g)
  IN [sgn |-> IF g.a = g.b \/ (n > 0 /\ n * n = dd[1] * dd[2]) THEN 0
              ELSE IF ev.kind = "theta" THEN 1 ELSE AngleSign(g),
      csgn |-> SignOf(n), n |-> n, dd |-> dd]

PointFails(ev, o) ==
  LET pt == [m |-> o.m, s |-> o.s]
      g  == Geometry(ev)
      e  == Expected(ev, pt, g)
      md(x, p) == x % p
      square(p) == (md(e.n, p) * md(e.n, p)) % p
      norm(p)   == (md(e.dd[1], p) * md(e.dd[2], p)) % p
  IN   Clause("machinery: unphysical point", Physical(pt))
  \cup Clause("defined", o.defined)
  \cup (IF ~o.defined THEN {} ELSE
          Clause("sign", o.sgn = e.sgn)
     \cup Clause("range", o.inrange)
     \cup Clause("cosine", /\ o.csgn = e.csgn
                           /\ \A k \in 1..4 : (o.q[k][1] * norm(Primes[k])) % Primes[k]
                                              = (o.q[k][2] * square(Primes[k])) % Primes[k]))

Judge(ev) ==
  IF ev.kind = "symbols"
  THEN { "same symbol for different angles: " \o ToString(ev.requests[q[1]]) \o " " \o ToString(ev.requests[q[2]]) :
           q \in { q \in (1..Len(ev.symbols)) \X (1..Len(ev.symbols)) :
                     q[1] < q[2] /\ ev.symbols[q[1]] = ev.symbols[q[2]] } }
  ELSE IF ~Exists(ev) THEN Clause("impossible request refused", ev.raised # "")
  ELSE IF ev.raised # "" THEN Clause("refused", MayRefuse(ev))
  ELSE UNION { PointFails(ev, ev.pts[n]) : n \in DOMAIN ev.pts }

Init == idx \in 1..Len(Trace) /\ verdict = "pending"
Next_ == /\ verdict = "pending"
         /\ LET fails == Judge(Trace[idx])
            IN /\ Report(idx, fails)
               /\ verdict' = IF fails = {} THEN "accepted" ELSE "rejected"
         /\ UNCHANGED idx
============================================================================
