---------------------------- MODULE TraceDocLines -----------------------------
(***************************************************************************)
(* Judges the lineshapes and form factors that the code makes of a         *)
(* document, at integer invariants, with the default values that come with *)
(* them (alone) or those of the whole model (in the model).                *)
(***************************************************************************)
EXTENDS Document, TraceBase
L == INSTANCE Lineshapes
Primes == L!Primes
VARIABLES idx, verdict

Square(o, q(_)) == \A n \in 1..4 : L!FEq(o.q[n], q(Primes[n]), Primes[n])
Vanishes(q(_))  == \A n \in 1..4 : q(Primes[n])[1] = 0
Same(o, dir, q(_)) == IF Vanishes(q) THEN o.dir = -2 ELSE o.dir = dir % 4 /\ Square(o, q)
UpToSign(o, dir, q(_)) == IF Vanishes(q) THEN o.dir = -2 ELSE o.dir >= 0 /\ (o.dir + dir) % 2 = 0 /\ Square(o, q)

LineValueRight(f, v, o) ==
  IF f.type = "BreitWigner"
  THEN LET q(p) == L!TimesM0(v, L!Width2(v, p), p)
       IN IF L!SignKnown(v) THEN Same(o, 1 + L!WidthDir(v), q) ELSE UpToSign(o, 1 + L!WidthDir(v), q)
  ELSE Same(o, 1, LAMBDA p : L!MultiW2(v, p))

Range2(q) == { <<q[n][1], q[n][2]>> : n \in 1..Len(q) }

JudgeLine(dd, ev) ==
  LET ch == dd.chains[ev.chain] IN
  IF BadLine(dd, ch) \/ OddLine(dd, ch) THEN Clause("unknown lineshape refused", ev.raised # "")
  ELSE IF ev.raised # "" THEN {"raised " \o ev.raised}
  ELSE Clause("no other symbols", ev.leftover = <<>>)
       \cup Clause("default masses of the decay products", Range2(ev.masses) = LineMasses(dd, ch))
       \cup Clause("named defaults of the resonance", ev.named = LineNamed(dd, ch))
       \cup Clause("value of the lineshape", LineValueRight(Function(dd, ch.props[1].fn), LineArgs(dd, ch, ev.sigma, ev.roots), ev.w))

JudgeForm(dd, ev) ==
  LET ch == dd.chains[ev.chain]
      vx == ch.vertices[ev.vertex]
  IN IF BadForm(dd, vx) THEN Clause("unknown form factor refused", ev.raised # "")
     ELSE IF ev.raised # "" THEN {"raised " \o ev.raised}
     ELSE Clause("no other symbols", ev.leftover = <<>>)
     \cup Clause("value of the form factor",
            IF ~HasForm(vx) THEN Same(ev.w, 0, LAMBDA p : <<1, 1>>)
            ELSE LET v == FormArgs(dd, ch, vx, ev.sigma)
                 IN IF IsDecayNode(vx.node) THEN Same(ev.w, 0, LAMBDA p : L!FF2(v.s, v.a, v.b, v.l, v.R, p))
                    ELSE Same(ev.w, 0, LAMBDA p : L!BlattWeisskopf2(v.lp, L!ZProd(v, v.s, p), p)))

(* chains of different resonances share masses of states and radii only    *)
JudgePair(dd, ev) ==
  { "shared parameter " \o x : x \in (SeqSet(ev.first) \cap SeqSet(ev.second)) \ (SeqSet(ev.stateMasses) \cup SeqSet(ev.radii)) }
JudgeModelRaises(dd, ev) == IF Refused(dd, FALSE) THEN Clause("unusable document refused", ev.raised # "")
                            ELSE Clause("raised", ev.raised = "")

Judge(ev) == CASE ev.kind = "line" -> JudgeLine(ev.doc, ev)
               [] ev.kind = "form" -> JudgeForm(ev.doc, ev)
               [] ev.kind = "pair" -> JudgePair(ev.doc, ev)
               [] ev.kind = "model" -> JudgeModelRaises(ev.doc, ev)
               [] ev.kind = "custom" -> Clause("own lineshape called", ev.calls = ev.expected)

Init == idx \in 1..Len(Trace) /\ verdict = "pending"
Next_ == /\ verdict = "pending"
         /\ LET fails == Judge(Trace[idx])
            IN /\ Report(idx, fails)
               /\ verdict' = IF fails = {} THEN "accepted" ELSE "rejected"
         /\ UNCHANGED idx
================================================================================
