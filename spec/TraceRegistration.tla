--------------------------- MODULE TraceRegistration ---------------------------
(***************************************************************************)
(* Checks recorded histories of registrations, look-ups and formulations   *)
(* against module Registration.  A formulated model is judged by modules   *)
(* DPD and ModelJudge, with the lineshapes that the state of the registry  *)
(* says.                                                                   *)
(***************************************************************************)
EXTENDS Registration, ModelJudge

VARIABLES idx, pos, fails

Ev == Trace[idx]
H == Ev.steps

TraceInit == /\ idx \in 1..Len(Trace) /\ pos = 1 /\ fails = {}
             /\ names = Trace[idx].names
             /\ reg = [b \in Builders |-> [c \in Chains |-> 0]]
             /\ hist = <<>>

X(c, shape) == IF shape = 0 THEN COne ELSE Ev.X[c][shape]
(* the event of one formulation, with the registered lineshapes *)
AsModel(e) ==
  [spins |-> Ev.spins, ref |-> Ev.ref, prodHel |-> Ev.prodHel, decHel |-> Ev.decHel, coef |-> Ev.coef, H |-> Ev.H,
   h |-> Ev.h, judgeDefaults |-> Ev.judgeDefaults, raised |-> e.raised, amps |-> e.amps, intensity |-> e.intensity,
   variants |-> e.variants, couplings |-> e.couplings, defaults |-> e.defaults,
   chains |-> [c \in Chains |-> [Ev.chains[c] EXCEPT !.x = X(c, reg[e.on][c])]]]

(* parameters of the lineshapes in use, with their values *)
InUse(b) == { <<c, reg[b][c]>> : c \in { c \in Chains : reg[b][c] # 0 } }
OwnName(c, shape) == "p" \o ToString(shape) \o "_" \o ToString(c)
SharedName(shape) == "q" \o ToString(shape)
ExpectedParams(b) == { OwnName(u[1], u[2]) : u \in InUse(b) } \cup { SharedName(u[2]) : u \in InUse(b) }
(* of two chains with one shared parameter, the value is that of either    *)
ParamOK(e, name) ==
  \E u \in InUse(e.on) : \/ name = OwnName(u[1], u[2]) /\ e.params[name] = 100 * u[2] + u[1]
                         \/ name = SharedName(u[2]) /\ e.params[name] = 1000 + u[2]

Failures(e) ==
  CASE e.op = "register" ->
         Clause("identifier refused or accepted wrongly when registering",
                (e.raised = "") <=> (Resolve(names, e.id) # 0))
    [] e.op = "get" ->
         IF Resolve(names, e.id) = 0 THEN Clause("unknown identifier found", e.raised # "")
         ELSE IF e.raised # "" THEN {"registered chain not found: " \o e.raised}
         ELSE Clause("lineshape of the chain", e.shape = reg[e.on][Resolve(names, e.id)])
    [] e.op = "formulate" ->
         JudgeModel(AsModel(e))
         \cup (IF e.raised # "" THEN {} ELSE
               { "missing parameter " \o p : p \in ExpectedParams(e.on) \ DOMAIN e.params }
          \cup { "superfluous parameter " \o p : p \in (DOMAIN e.params) \ (ExpectedParams(e.on) \cup {""}) }
          \cup { "value of parameter " \o p : p \in { p \in DOMAIN e.params \cap ExpectedParams(e.on) : ~ParamOK(e, p) } })

TraceNext ==
  \/ /\ pos <= Len(H)
     /\ LET e == H[pos]
        IN /\ fails' = fails \cup Failures(e)
           /\ IF e.op = "register" THEN Register(e.on, e.id, e.shape) ELSE Observe
     /\ pos' = pos + 1
     /\ UNCHANGED <<idx, hist>>
  \/ /\ pos = Len(H) + 1
     /\ Report(idx, fails)
     /\ pos' = pos + 1
     /\ UNCHANGED <<idx, fails, vars>>
==============================================================================
