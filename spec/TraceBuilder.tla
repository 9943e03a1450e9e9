------------------------------ MODULE TraceBuilder ------------------------------
(***************************************************************************)
(* Judges what the Breit-Wigner builder makes for a chain: its value with  *)
(* the default values of its parameters, its parameters, and which of them *)
(* two chains share.                                                       *)
(***************************************************************************)
EXTENDS Lineshapes, TraceBase

VARIABLES idx, verdict

Square(o, q(_)) == \A n \in 1..4 : FEq(o.q[n], q(Primes[n]), Primes[n])
Vanishes(q(_))  == \A n \in 1..4 : q(Primes[n])[1] = 0
Same(o, dir, q(_)) == IF Vanishes(q) THEN o.dir = -2 ELSE o.dir = dir /\ Square(o, q)

(* as if the invariant of the decay form factor were s *)
Matches(ev, s) ==
  LET v == ev.v IN
  IF BuilderVanishes(v) \/ ev.zero THEN BuilderVanishes(v) /\ ev.zero ELSE
  /\ Same(ev.re, IF v.m0 * v.m0 > v.s THEN 0 ELSE 2, LAMBDA p : BuilderRe2(v, s, p))
  /\ Same(ev.im, 3, LAMBDA p : BuilderIm2(v, s, p))

NeedsLS(v) == v.edw \/ v.decFF \/ v.prodFF
LacksLS(ev) == LET v == ev.v IN (v.l < 0 /\ (v.edw \/ v.decFF)) \/ (v.lp < 0 /\ v.prodFF)

Outer(ev) == SeqSet(ev.stateMasses)
JudgeBuilder(ev) ==
  IF LacksLS(ev) THEN Clause("missing LS refused", ev.raised # "")
  ELSE IF ev.raised # "" THEN {"raised " \o ev.raised}
  ELSE Clause("no other symbols", ev.leftover = <<>>)
  \cup (IF Matches(ev, ev.v.s) THEN {}
        ELSE IF ev.v.decFF /\ Matches(ev, ev.v.s * ev.v.s)
        THEN {"decay form factor takes the square of the invariant"}
        ELSE {"value of the lineshape"})
  \cup Clause("default of the mass", Has(ev.params, ev.massName) /\ ev.params[ev.massName] = ev.v.m0)
  \cup { "default of " \o x : x \in { x \in (DOMAIN ev.params) \cap Outer(ev) : ev.params[x] # ev.outer[x] } }
  \cup Clause("default of the width",
              LET rest == (DOMAIN ev.params) \ (Outer(ev) \cup {ev.massName} \cup SeqSet(ev.radii))
              IN Cardinality(rest) = 1 /\ \A x \in rest : ev.params[x] = ev.v.g0)

(* chains of different resonances share masses of states and radii only    *)
JudgePair(ev) ==
  { "shared parameter " \o x : x \in (SeqSet(ev.first) \cap SeqSet(ev.second)) \ (Outer(ev) \cup SeqSet(ev.radii)) }

Judge(ev) == IF ev.kind = "pair" THEN JudgePair(ev) ELSE JudgeBuilder(ev)

Init == idx \in 1..Len(Trace) /\ verdict = "pending"
Next_ == /\ verdict = "pending"
         /\ LET fails == Judge(Trace[idx])
            IN /\ Report(idx, fails)
               /\ verdict' = IF fails = {} THEN "accepted" ELSE "rejected"
         /\ UNCHANGED idx
================================================================================
