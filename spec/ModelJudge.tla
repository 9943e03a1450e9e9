------------------------------ MODULE ModelJudge ------------------------------
(***************************************************************************)
(* The verdict on one formulated amplitude model, see TraceModel.          *)
(***************************************************************************)
EXTENDS DPD, TraceBase

AmpKey(k, l) == Str(k) \o "|" \o Str(l[1]) \o "|" \o Str(l[2]) \o "|" \o Str(l[3]) \o "|" \o Str(l[4])

ModelOf(ev) ==
  LET m0 == [spins |-> ev.spins, ref |-> ev.ref, prodHel |-> ev.prodHel, decHel |-> ev.decHel,
             coef |-> ev.coef, chains |-> ev.chains, H |-> ev.H, h |-> ev.h]
  IN IF ev.ref = 0 THEN [m0 EXCEPT !.ref = DefaultReference(m0)] ELSE m0

(* an LS basis needs the LS coupling of every chain *)
LacksLS(ev) == \E n \in DOMAIN ev.chains :
   \/ ~ev.prodHel /\ ev.chains[n].prodLS = <<>>
   \/ ~ev.decHel /\ ev.chains[n].decLS = <<>>

JudgeModel(ev) ==
  IF LacksLS(ev) THEN Clause("missing LS refused", ev.raised = "ValueError")
  ELSE IF ev.raised # "" THEN {"raised " \o ev.raised}
  ELSE
  LET m  == TLCEval(ModelOf(ev))
      A  == TLCEval(AmplitudeTable(m))
      I  == IntensityOf(m, A)
      keys == TLCEval({ AmpKey(k, l) : k \in Subsystems(m), l \in Helicities(m) })
      req  == TLCEval(RequiredCouplings(m))
  IN   { "amplitude " \o AmpKey(q[1], q[2]) :
           q \in { q \in Subsystems(m) \X Helicities(m) :
                     ~ /\ AmpKey(q[1], q[2]) \in DOMAIN ev.amps
                       /\ ev.amps[AmpKey(q[1], q[2])] = A[q[1]][q[2]] } }
  \cup { "amplitude of absent subsystem " \o q :
           q \in { q \in DOMAIN ev.amps : q \notin keys /\ ev.amps[q] # CZero } }
  \cup Clause("intensity", ev.intensity = <<I, 0>>)
  \cup Clause("full expression", Has(ev, "full") => ev.full = <<I, 0>>)
  \cup { "variant " \o q : q \in { q \in DOMAIN ev.variants : ev.variants[q] # <<I, 0>> } }
  \cup (IF ~ev.judgeDefaults THEN {} ELSE
          { "superfluous default for coupling " \o q : q \in SeqSet(ev.couplings) \ req }
     \cup { "no default for coupling " \o q : q \in req \ SeqSet(ev.defaults) })
  \cup Clause("angle assignment", ValidAngles(ev.h))

============================================================================
