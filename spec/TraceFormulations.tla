------------------------- MODULE TraceFormulations -------------------------
(***************************************************************************)
(* Checks recorded histories of formulations against module Formulations.  *)
(* One line per history; every step is the action Formulate with logged    *)
(* options, model identity and value of the intensity, or the action Edit. *)
(***************************************************************************)
EXTENDS Formulations, TraceBase

VARIABLES idx, pos, fails

H == Trace[idx].steps
Step(n) == H[n]
Opt(e) == [b |-> e.b, ref |-> e.ref, cleanup |-> e.cleanup, coef |-> e.coef]

TraceInit == Init /\ idx \in 1..Len(Trace) /\ pos = 1 /\ fails = {}

Failures(e) ==
  IF e.op = "edit" THEN Clause("changing one model changed another", e.modelsIntact)
  ELSE IF e.raised # "" THEN {"raised " \o e.raised}
  ELSE Clause("same options, different model", Opt(e) \in DOMAIN model => e.id = model[Opt(e)])
       \cup Clause("neutral option changes the intensity",
                   ValueKey(Opt(e)) \in DOMAIN value => e.value = value[ValueKey(Opt(e))])
       \cup Clause("masses of another decay", e.masses = Trace[idx].masses[DecayOf(e.b)] /\ e.defaults = Trace[idx].masses[DecayOf(e.b)])
       \cup Clause("formulating changed the decay or the builder", e.decayIntact)
       \cup Clause("formulating changed an earlier model", e.modelsIntact)

TraceNext ==
  \/ /\ pos <= Len(H)
     /\ LET e == Step(pos)
            f == Failures(e)
        IN /\ IF f \cup fails # {} THEN UNCHANGED <<made, edited, model, value>>
              ELSE IF e.op = "edit" THEN Edit(e.n)
              ELSE Formulate(Opt(e), e.id, e.value)
           /\ UNCHANGED log
           /\ fails' = fails \cup f
     /\ pos' = pos + 1
     /\ UNCHANGED idx
  \/ /\ pos = Len(H) + 1
     /\ Report(idx, fails)
     /\ pos' = pos + 1
     /\ UNCHANGED <<idx, fails, vars>>
============================================================================
