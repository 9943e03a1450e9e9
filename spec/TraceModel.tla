------------------------------ MODULE TraceModel ------------------------------
(***************************************************************************)
(* Judges amplitude models formulated by the code against module DPD:      *)
(* every amplitude A^k at every helicity configuration and the intensity,  *)
(* at random values of couplings, lineshapes and angles.                   *)
(***************************************************************************)
EXTENDS ModelJudge

VARIABLES idx, verdict

Init == idx \in 1..Len(Trace) /\ verdict = "pending"
Next == /\ verdict = "pending"
        /\ LET fails == JudgeModel(Trace[idx])
           IN /\ Report(idx, fails)
              /\ verdict' = IF fails = {} THEN "accepted" ELSE "rejected"
        /\ UNCHANGED idx
============================================================================
