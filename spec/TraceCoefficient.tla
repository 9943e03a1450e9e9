-------------------------- MODULE TraceCoefficient --------------------------
(***************************************************************************)
(* Judges a model with one coefficient per chain against the model with    *)
(* separate couplings of the same decay (ev.pair): every coefficient is    *)
(* set to the product of the couplings that it replaces.                   *)
(***************************************************************************)
EXTENDS ModelJudge

VARIABLES idx, verdict

Terms(m) ==
  UNION { LET ch == m.chains[n] IN
          { [coupl |-> CouplingKeys([m EXCEPT !.coef = FALSE], ch, IsobarHelicity(ch, l), l),
             coeff |-> CHOOSE q \in CouplingKeys([m EXCEPT !.coef = TRUE], ch, IsobarHelicity(ch, l), l) : TRUE]
            : l \in { l \in Helicities(m) : Conserved(ch, l) } }
          : n \in DOMAIN m.chains }

Judge(ev) ==
  IF ev.raised # "" THEN {"raised " \o ev.raised}
  ELSE LET m == TLCEval(ModelOf(ev))
           T == TLCEval(Terms(m))
       IN  JudgeModel(ev)
      \cup { "coefficient " \o t.coeff \o " is not the product of its couplings" :
               t \in { t \in T : ~ /\ t.coeff \in DOMAIN ev.H
                                   /\ ev.H[t.coeff] = ProdKeys(ev.pair.H, t.coupl) } }
      \cup { "amplitude differs: " \o q :
               q \in { q \in DOMAIN ev.amps : ~(q \in DOMAIN ev.pair.amps /\ ev.pair.amps[q] = ev.amps[q]) } }
      \cup Clause("intensity differs", ev.intensity = ev.pair.intensity)
      \cup Clause("coefficients of pairs", SeqSet(ev.couplings) = { t.coeff : t \in T })
      \cup Clause("one-to-one", Cardinality({ t.coeff : t \in T }) = Cardinality({ t.coupl : t \in T }))
      \cup Clause("couplings of pairs", SeqSet(ev.pair.couplings) = UNION { t.coupl : t \in T })

Init == idx \in 1..Len(Trace) /\ verdict = "pending"
Next == /\ verdict = "pending"
        /\ LET fails == Judge(Trace[idx])
           IN /\ Report(idx, fails)
              /\ verdict' = IF fails = {} THEN "accepted" ELSE "rejected"
        /\ UNCHANGED idx
============================================================================
