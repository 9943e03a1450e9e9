--------------------------- MODULE TraceStructure ---------------------------
(***************************************************************************)
(* Judges attempts to build chains, decays and spins, and the answers of   *)
(* the queries on what was built, against module Structure.                *)
(***************************************************************************)
EXTENDS Structure, TraceBase

VARIABLES idx, verdict

JudgeChain(ev) ==
  LET c == ev.chain IN
  IF ~ValidChain(c) THEN Clause("malformed chain refused", ev.raised # "")
  ELSE IF ev.raised # "" THEN {"well-formed chain refused: " \o ev.raised}
  ELSE LET q == ev.queries IN
          Clause("spectator", q.spectator = Spectator(c))
     \cup Clause("decay products", q.products = Products(c))
     \cup Clause("resonance", q.resonance = Resonance(c))
     \cup Clause("parent", q.parent = c.parent /\ q.initial = c.parent)
     \cup Clause("final state", q.final = FinalState(c))
     \cup Clause("production node", q.production = c)
     \cup Clause("decay node", q.decay = DecayNode(c))
     \cup Clause("incoming LS", q.incoming = IncomingLS(c))
     \cup Clause("outgoing LS", q.outgoing = OutgoingLS(c))

JudgeDecay(ev) ==
  LET d == ev.decay IN
  IF ~ValidDecay(d) THEN Clause("malformed decay refused", ev.raised # "")
  ELSE IF ev.raised # "" THEN {"well-formed decay refused: " \o ev.raised}
  ELSE LET q == ev.queries IN
          Clause("initial state", q.initial = StateOf(d, 0))
     \cup Clause("final states", /\ DOMAIN q.final = {"1", "2", "3"}
                                 /\ q.final["1"] = StateOf(d, 1)
                                 /\ q.final["2"] = StateOf(d, 2)
                                 /\ q.final["3"] = StateOf(d, 3))
     \cup Clause("chains", q.chains = d.chains)
     \cup { "find chain " \o name : name \in { name \in DOMAIN q.find :
              q.find[name] # (IF FirstNamed(d, name) = 0 THEN <<>> ELSE <<d.chains[FirstNamed(d, name)]>>) } }
     \cup { "subsystem " \o ToString(k) : k \in { k \in 1..3 :
              ~ LET sub == Subsystem(d, k) IN
                /\ q.subsystems[k].chains = [n \in DOMAIN sub |-> d.chains[sub[n]]]
                /\ q.subsystems[k].states = [n \in DOMAIN d.states |-> d.states[n]]
                /\ q.subsystems[k].warned = (sub = <<>>) } }

JudgeSpin(ev) == Clause("spin accepted exactly if integer or half-integer",
                        ev.accepted = (ev.den \in {1, 2}))
            \cup Clause("spin kept exactly", ev.accepted => ev.got = <<ev.num, ev.den>>)

(* a coupling is given as such, as the pair of L and S, or not at all *)
JudgeCoupling(ev) ==
  Clause("coupling of a vertex",
         ev.got = CASE ev.form \in {"coupling", "pair"} -> <<ToString(ev.ls[1]), ToString(ev.ls[2])>>
                    [] ev.form = "none" -> <<>>
                    [] OTHER -> <<"refused">>)

JudgeProducts(ev) == IF ev.k \in 1..3 THEN Clause("decay product numbers", ev.got = ProductIds(ev.k))
                     ELSE Clause("decay products of unknown spectator refused", ev.raised = "ValueError")

Judge(ev) == CASE ev.kind = "chain" -> JudgeChain(ev)
               [] ev.kind = "decay" -> JudgeDecay(ev)
               [] ev.kind = "spin"  -> JudgeSpin(ev)
               [] ev.kind = "products" -> JudgeProducts(ev)
               [] ev.kind = "coupling" -> JudgeCoupling(ev)

Init == idx \in 1..Len(Trace) /\ verdict = "pending"
Next == /\ verdict = "pending"
        /\ LET fails == Judge(Trace[idx])
           IN /\ Report(idx, fails)
              /\ verdict' = IF fails = {} THEN "accepted" ELSE "rejected"
        /\ UNCHANGED idx
============================================================================
