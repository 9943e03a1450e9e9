----------------------------- MODULE TraceProducts -----------------------------
(***************************************************************************)
(* Checks recorded histories of defined expressions against Products: the  *)
(* objects after every action are those of the specification.              *)
(***************************************************************************)
EXTENDS Products, TraceBase

VARIABLES idx, pos, fails
Ev == Trace[idx]

TraceInit == /\ idx \in 1..Len(Trace) /\ pos = 1 /\ fails = {}
             /\ objs = <<>> /\ hist = <<>>

Pars(o) == { <<x, o.par[x]>> : x \in DOMAIN o.par }
Failures(e, seen, expected) ==
  Clause(e.op \o " raised " \o seen.raised, seen.raised = "")
  \cup (IF Len(seen.objs) # Len(expected) THEN {"objects after " \o e.op} ELSE
        UNION { Clause("value after " \o e.op, seen.objs[n].val = expected[n].val)
                \cup { "defaults after " \o e.op : x \in { y \in DOMAIN seen.objs : y = n /\ SeqSet(seen.objs[n].par) # Pars(expected[n]) } }
              : n \in DOMAIN expected })
  \cup Clause("given defaults changed", seen.kept)

TraceNext ==
  \/ /\ pos <= Len(Ev.steps)
     /\ Do([Ev.steps[pos] EXCEPT !.par = [x \in { y[1] : y \in SeqSet(@) } |-> (CHOOSE y \in SeqSet(@) : y[1] = x)[2]]])
     /\ fails' = fails \cup Failures(Ev.steps[pos], Ev.seen[pos], objs')
     /\ pos' = IF Ev.seen[pos].raised # "" THEN Len(Ev.steps) + 1 ELSE pos + 1
     /\ UNCHANGED idx
  \/ /\ pos = Len(Ev.steps) + 1
     /\ Report(idx, fails)
     /\ pos' = pos + 1
     /\ UNCHANGED <<idx, fails, vars>>
================================================================================
