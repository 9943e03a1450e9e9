---------------------------- MODULE TraceDocument -----------------------------
(***************************************************************************)
(* Judges what the code reads from documents, see module Document:         *)
(*   read        states, decay chains, lookups                             *)
(*   recoupling  the value of a vertex at all helicities of its items      *)
(*   model       all amplitudes and the intensity                          *)
(***************************************************************************)
EXTENDS Document, TraceBase

VARIABLES idx, verdict

Refuses(name, raised, kind) == Clause(name \o " refused", raised = kind)

JudgeStates(dd, ev) ==
  IF dd.dists = 0 THEN Refuses("states without distribution", ev.statesRaised, "ValueError")
  ELSE IF ev.statesRaised # "" THEN {"states raised " \o ev.statesRaised}
  ELSE LET S == States(dd)
           got == ev.states
       IN Clause("one state per number", Len(got) = Cardinality(DOMAIN S) /\ { got[q].index : q \in DOMAIN got } = DOMAIN S)
     \cup { "state " \o ToString(got[q].index) :
              q \in { q \in DOMAIN got :
                        ~ /\ got[q].index \in DOMAIN S
                          /\ got[q].key = got[q].index
                          /\ LET s == S[got[q].index] IN
                             /\ got[q].name = s.name /\ got[q].latex = ev.prefix \o s.name
                             /\ got[q].spin = Half(s.spin) /\ got[q].mass = s.mass
                             /\ got[q].width = 0 /\ got[q].parity = "None" } }

Unread(dd) == dd.dists = 0 \/ \E q \in DOMAIN dd.chains : ~IsIsobar(dd.chains[q])
JudgeDecay(dd, ev) ==
  IF Unread(dd) THEN Refuses("incomplete chain", ev.decayRaised, "ValueError")
  ELSE IF ev.decayRaised # "" THEN {"decay raised " \o ev.decayRaised}
  ELSE LET got == SeqSet(ev.chains)
           want == ReadChains(dd)
           Bare(g) == [resonance |-> g.resonance, spin |-> g.spin, products |-> g.products, spectator |-> g.spectator]
       IN { "missing chain of " \o c.resonance : c \in want \ { Bare(g) : g \in got } }
     \cup { "superfluous chain of " \o g.resonance : g \in { g \in got : Bare(g) \notin want } }
     \cup Clause("chain listed twice", Cardinality(got) = Len(ev.chains))
     \cup { "particle " \o g.resonance : g \in { g \in got :
              ~(g.latex = ev.prefix \o g.resonance /\ g.mass = 0 /\ g.width = 0 /\ g.parity = "None" /\ g.couplings = "None") } }
     \cup Clause("states of the decay", ev.sameStates)

JudgeLookups(dd, ev) ==
  { "function " \o q.name : q \in { q \in SeqSet(ev.lookups) :
       ~(IF ~HasFunction(dd, q.name) THEN q.raised = "KeyError" ELSE q.raised = "" /\ q.at = Min(FunctionIndices(dd, q.name))) } }
  \cup { "spectator of topology " \o ToString(q.n) : q \in { q \in SeqSet(ev.topologies) :
       LET top == IF q.n = 0 THEN dd.reference ELSE dd.chains[q.n].topology
       IN ~(IF ~IsThreeBody(top) THEN q.raised = "ValueError" ELSE q.raised = "" /\ q.spectator = Spectator(top)) } }
  \cup (IF dd.dists = 0 THEN Refuses("missing distribution", ev.distRaised, "ValueError")
        ELSE Clause("distribution", ev.distRaised = "" /\ ev.distribution = 1)
             \cup Clause("several distributions reported", ev.warned = (dd.dists > 1))
             \cup Clause("list of chains", ev.nChains = Len(dd.chains))
             \cup Clause("reference topology", ev.reference)
             \cup (IF \E q \in DOMAIN dd.chains : ~IsThreeBody(dd.chains[q].topology)
                   THEN Refuses("subsystems", ev.subsystemsRaised, "ValueError")
                   ELSE Clause("subsystems", ev.subsystemsRaised = "" /\ SeqSet(ev.subsystems) = SubsystemIds(dd)
                                             /\ Len(ev.subsystems) = Cardinality(SubsystemIds(dd)))))
  \cup Clause("document unchanged", ev.untouched)

JudgeRecoupling(dd, ev) ==
  LET ch == dd.chains[ev.chain] IN
  IF dd.dists = 0 \/ Len(ch.vertices) # 2 \/ ev.vertex > 2 THEN Refuses("vertex", ev.raised, "ValueError")
  ELSE LET vx == ch.vertices[ev.vertex] IN
  IF vx.type \notin KnownTypes \/ (vx.type = "parity" /\ vx.pf \notin KnownFactors) THEN Refuses("vertex", ev.raised, "NotImplementedError")
  ELSE IF BadVertex(ch, vx) THEN Refuses("propagators", ev.raised, "ValueError")
  ELSE IF ev.raised # "" THEN {"raised " \o ev.raised}
  ELSE LET At(a, b) == LET zero == [q \in 1..4 |-> 0]
                           Put(l, item, x) == IF Single(item) THEN [l EXCEPT ![item[1] + 1] = x] ELSE l
                           l == Put(Put(zero, vx.node[1], a), vx.node[2], b)
                       IN Vertex(dd, ch, vx, IF Single(vx.node[1]) THEN b ELSE a, l)
       IN { "vertex at " \o ToString(q[1]) \o ", " \o ToString(q[2]) :
              q \in { q \in SeqSet(ev.table) : q[3] # <<At(q[1], q[2]), 0>> } }
     \cup Clause("all helicities", { <<q[1], q[2]>> : q \in SeqSet(ev.table) } =
                   Proj(ItemSpin(dd, ch, vx.node[1])) \X Proj(ItemSpin(dd, ch, vx.node[2])))

AmpKey(k, l) == Str(k) \o "|" \o Str(l[1]) \o "|" \o Str(l[2]) \o "|" \o Str(l[3]) \o "|" \o Str(l[4])
JudgeModel(dd, ev) ==
  IF Refused(dd, ev.opaque) THEN Clause("unusable document refused", ev.raised # "")
  ELSE IF ev.raised # "" THEN {"raised " \o ev.raised}
  ELSE
  LET A == TLCEval(DocTable(dd, ev.pt))
      I == DocIntensity(dd, A, ev.pt.h)
      Hels == Helicities(Frame(dd, ev.pt.h))
      keys == TLCEval({ AmpKey(k, l) : k \in SubsystemIds(dd), l \in Hels })
  IN   { "amplitude " \o AmpKey(q[1], q[2]) :
           q \in { q \in SubsystemIds(dd) \X Hels :
                     ~ /\ AmpKey(q[1], q[2]) \in DOMAIN ev.amps
                       /\ ev.amps[AmpKey(q[1], q[2])] = A[q[1]][q[2]] } }
  \cup { "amplitude of absent subsystem " \o q :
           q \in { q \in DOMAIN ev.amps : q \notin keys /\ ev.amps[q] # CZero } }
  \cup Clause("intensity", ev.intensity = <<I, 0>>)
  \cup { "variant " \o q : q \in { q \in DOMAIN ev.variants : ev.variants[q] # <<I, 0>> } }
  \cup Clause("masses of the states", ev.masses = [i \in 1..4 |-> States(dd)[i - 1].mass])
  \cup Clause("angle assignment", ValidAngles(ev.pt.h))

Judge(ev) == CASE ev.kind = "read" -> JudgeStates(ev.doc, ev) \cup JudgeDecay(ev.doc, ev) \cup JudgeLookups(ev.doc, ev)
               [] ev.kind = "recoupling" -> JudgeRecoupling(ev.doc, ev)
               [] ev.kind = "model" -> JudgeModel(ev.doc, ev)

Init == idx \in 1..Len(Trace) /\ verdict = "pending"
Next == /\ verdict = "pending"
        /\ LET fails == Judge(Trace[idx])
           IN /\ Report(idx, fails)
              /\ verdict' = IF fails = {} THEN "accepted" ELSE "rejected"
        /\ UNCHANGED idx
================================================================================
