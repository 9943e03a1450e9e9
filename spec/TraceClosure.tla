---------------------------- MODULE TraceClosure -----------------------------
(***************************************************************************)
(* Judges whether recorded models are self-contained: their dependency     *)
(* graph against module Closure, their couplings against module DPD.       *)
(***************************************************************************)
EXTENDS ModelJudge, Closure

VARIABLES idx, verdict

Sigma == {"sigma1", "sigma2", "sigma3"}

Defs(ev) == [x \in DOMAIN ev.defs |-> SeqSet(ev.defs[x])]
(* two invariants are independent: the third one is defined by them *)
WithThird(ev, k) == LET d == Defs(ev) IN
  [x \in { x \in DOMAIN d : x \notin {ev.sigma[n] : n \in 1..3} \ {ev.sigma[k]} } |-> d[x]]

JudgeClosure(ev) ==
  IF LacksLS(ev) THEN Clause("missing LS refused", ev.raised = "ValueError")
  ELSE IF ev.raised # "" THEN {"raised " \o ev.raised}
  ELSE LET given == SeqSet(ev.given)
           sig   == { ev.sigma[n] : n \in 1..3 }
           req   == TLCEval(RequiredCouplings(ModelOf(ev)))
       IN { "undefined with sigma" \o ToString(k) \o " eliminated: " \o x :
              <<k, x>> \in { <<k, x>> \in (1..3) \X Reach(Defs(ev), SeqSet(ev.intensity)) :
                  x \in Undefined(WithThird(ev, k), SeqSet(ev.intensity), given \cup (sig \ {ev.sigma[k]})) } }
     \cup { "defined in a circle with sigma" \o ToString(k) : k \in { k \in 1..3 : ~Acyclic(WithThird(ev, k)) } }
     \cup { "free in full expression: " \o x : x \in
              (IF Has(ev, "full") THEN SeqSet(ev.full) \ (given \cup sig) ELSE {}) }
     \cup Clause("names of the invariants", ev.sigmaNames = <<"sigma1", "sigma2", "sigma3">>)
     \cup { "superfluous default for coupling " \o q : q \in SeqSet(ev.couplings) \ req }
     \cup { "no default one for coupling " \o q : q \in req \ SeqSet(ev.defaults) }
     \cup { "default is not a number: " \o q : q \in SeqSet(ev.notNumbers) }

Init == idx \in 1..Len(Trace) /\ verdict = "pending"
Next_ == /\ verdict = "pending"
         /\ LET fails == JudgeClosure(Trace[idx])
            IN /\ Report(idx, fails)
               /\ verdict' = IF fails = {} THEN "accepted" ELSE "rejected"
         /\ UNCHANGED idx
==============================================================================
