------------------------------- MODULE Document -------------------------------
(***************************************************************************)
(* What a serialized amplitude model means.                                *)
(*                                                                         *)
(* A document d is a record                                                *)
(*   dists      number of distributions (the first one counts)             *)
(*   initial    [index, name, spin, mass]                                  *)
(*   final      sequence of such records, in any order                     *)
(*   reference  topology of the reference frame                            *)
(*   chains     sequence of [name, weight, topology, props, vertices]      *)
(*   functions  sequence of [name, type, ...]                              *)
(* A node or topology is a sequence of items, and an item a sequence of    *)
(* state numbers: the JSON [[1, 2], 3] is << <<1, 2>>, <<3>> >>.  Spins,   *)
(* helicities and weights are strings.  Optional fields that are left out  *)
(* have the value "absent".                                                *)
(***************************************************************************)
EXTENDS DPD

(* spins and helicities "3/2", "-1" are doubled *)
HalfStr(n) == IF Even(n) THEN ToString(n \div 2) ELSE ToString(n) \o "/2"
HalfNumbers == -9..9
HalfTable == [s \in { HalfStr(n) : n \in HalfNumbers } |-> CHOOSE n \in HalfNumbers : HalfStr(n) = s]
Half(s) == HalfTable[s]
NatTable == [s \in { ToString(n) : n \in 0..9 } |-> CHOOSE n \in 0..9 : ToString(n) = s]

(* weights, times 80000 *)
WeightTable ==
     ("1.0 + 0.0i" :> <<80000, 0>>)
  @@ ("0.5 - 1.25i" :> <<40000, -100000>>)
  @@ ("-2.0 + 0.75i" :> <<-160000, 60000>>)
  @@ ("-0.125 - 0.25i" :> <<-10000, -20000>>)
  @@ ("3" :> <<240000, 0>>)
  @@ ("-0.375" :> <<-30000, 0>>)
  @@ ("1.5i" :> <<0, 120000>>)
  @@ ("0.0 - 5e-1i" :> <<0, -40000>>)
  @@ ("2e0+1.5i" :> <<160000, 120000>>)
  @@ (" 0.25-0.5i " :> <<20000, -40000>>)
  @@ ("1.0 + 0.0004i" :> <<80000, 32>>)
  @@ ("-0.0002 + 2.0i" :> <<-16, 160000>>)
  @@ ("1e-4 - 3e2i" :> <<8, -24000000>>)
  @@ ("-1.0 - 0.0i" :> <<-80000, 0>>)
  @@ ("0.3+0.3i" :> <<24000, 24000>>)
  @@ ("-7.1 + 7.1i" :> <<-568000, 568000>>)
  @@ ("12.5 + 0.0i" :> <<1000000, 0>>)
  @@ ("+0.2-0.0125i" :> <<16000, -1000>>)
  @@ ("0.0 + 0.0i" :> <<0, 0>>)
Weight(s) == LET w == WeightTable[s] IN CScale(Inv(80000 % P), <<w[1] % P, w[2] % P>>)

----------------------------------------------------------------------------
(* Lookups                                                                 *)
Single(item) == Len(item) = 1
Singles(top) == { top[n][1] : n \in { n \in DOMAIN top : Single(top[n]) } }
IsThreeBody(top) == Cardinality(Singles(top)) = 1
Spectator(top) == CHOOSE i \in Singles(top) : TRUE

FunctionIndices(d, name) == { n \in DOMAIN d.functions : d.functions[n].name = name }
HasFunction(d, name) == FunctionIndices(d, name) # {}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Function(d, name) == d.functions[Min(FunctionIndices(d, name))]

IsDecayNode(node) == Len(node) = 2 /\ \A n \in DOMAIN node : Single(node[n])
(* the first vertex that qualifies *)
DecayVertices(ch) == { v \in DOMAIN ch.vertices : IsDecayNode(ch.vertices[v].node) }
ProductionVertices(ch) == { v \in DOMAIN ch.vertices :
                              /\ \E n \in DOMAIN ch.vertices[v].node : ~Single(ch.vertices[v].node[n])
                              /\ Singles(ch.vertices[v].node) # {} }
IsIsobar(ch) == DecayVertices(ch) # {} /\ ProductionVertices(ch) # {}
DecayVertex(ch) == ch.vertices[Min(DecayVertices(ch))]
ProductionVertex(ch) == ch.vertices[Min(ProductionVertices(ch))]
Products(ch) == << DecayVertex(ch).node[1][1], DecayVertex(ch).node[2][1] >>
Bachelor(ch) == LET node == ProductionVertex(ch).node
                IN node[Min({ n \in DOMAIN node : Single(node[n]) })][1]

States(d) == [i \in {d.initial.index} \cup { d.final[n].index : n \in DOMAIN d.final } |->
                IF i = d.initial.index THEN d.initial
                ELSE d.final[CHOOSE n \in DOMAIN d.final : d.final[n].index = i]]
SpinOf(d, i) == Half(States(d)[i].spin)
ChainSpin(ch) == Half(ch.props[1].spin)
SubsystemIds(d) == { Spectator(d.chains[n].topology) : n \in DOMAIN d.chains }

(* what a chain describes as a decay chain *)
ReadChain(ch) == [resonance |-> ch.name, spin |-> ChainSpin(ch), products |-> Products(ch), spectator |-> Bachelor(ch)]
ReadChains(d) == { ReadChain(d.chains[n]) : n \in DOMAIN d.chains }

----------------------------------------------------------------------------
(* Vertices at helicities l of the states, lR of the isobar                *)
ItemHel(item, lR, l) == IF Single(item) THEN l[item[1] + 1] ELSE lR
ItemSpin(d, ch, item) == IF Single(item) THEN SpinOf(d, item[1]) ELSE ChainSpin(ch)
ParentSpin(d, ch, node) == IF IsDecayNode(node) THEN ChainSpin(ch) ELSE SpinOf(d, 0)
KnownFactors == {"+", "-", "", "absent", " - "}
FactorOf(s) == CASE s \in {"+", "absent"} -> 1 [] s \in {"-", " - "} -> P - 1 [] s = "" -> 0
KnownTypes == {"helicity", "parity", "ls"}
Delta(a, b) == IF a = b THEN 1 ELSE 0

Vertex(d, ch, vx, lR, l) ==
  LET a == ItemHel(vx.node[1], lR, l)
      b == ItemHel(vx.node[2], lR, l)
  IN CASE vx.type = "helicity" -> Delta(a, Half(vx.hel[1])) * Delta(b, Half(vx.hel[2]))
       [] vx.type = "parity" ->
            LET a0 == Half(vx.hel[1])
                b0 == Half(vx.hel[2])
            IN Add(Delta(a, a0) * Delta(b, b0), Mul(FactorOf(vx.pf), Delta(a, -a0) * Delta(b, -b0)))
       [] vx.type = "ls" ->
            Recoupling(ParentSpin(d, ch, vx.node), NatTable[vx.l], Half(vx.s),
                       ItemSpin(d, ch, vx.node[1]), a, ItemSpin(d, ch, vx.node[2]), b)

(* half of the angle between product a of the isobar (a, b) and its line   *)
(* of flight                                                               *)
ThetaOf(h, a, b) == LET k == 6 - a - b IN
                    IF a = ChildI(k) THEN Theta(h, k) ELSE << Theta(h, k)[2], Theta(h, k)[1] >>

(* form factor of a vertex; pt.F has the values *)
FormKey(d, ch, vx) ==
  (IF IsDecayNode(vx.node) THEN "decay|" ELSE "production|")
  \o ToString(Spectator(ch.topology)) \o "|" \o ToString(Function(d, vx.ff).l)
FormValue(d, ch, vx, pt) == IF vx.ff \in {"", "absent"} THEN COne ELSE pt.F[FormKey(d, ch, vx)]
LineKey(ch, pr) == pr.fn \o "|" \o ch.name
LineValue(ch, pt) == CProd([n \in DOMAIN ch.props |-> pt.X[LineKey(ch, ch.props[n])]])

(* amplitude of one chain at the helicities l of the states *)
DocChain(d, ch, l, pt) ==
  LET k == Spectator(ch.topology)
      J == ChainSpin(ch)
      lR == l[1] + l[k + 1]
      ab == Products(ch)
      th == ThetaOf(pt.h, ab[1], ab[2])
  IN IF Abs(lR) > J \/ ~Even(lR + J) THEN CZero
     ELSE LET rec == Mul(Vertex(d, ch, ch.vertices[1], lR, l), Vertex(d, ch, ch.vertices[2], lR, l))
              real == IF rec = 0 THEN 0
                      ELSE Mul(rec, WignerD(J, lR, l[ab[1] + 1] - l[ab[2] + 1], th[1], th[2]))
          IN IF real = 0 THEN CZero
             ELSE CScale(real,
                    CMul(CMul(Weight(ch.weight), LineValue(ch, pt)),
                         CMul(FormValue(d, ch, ch.vertices[1], pt), FormValue(d, ch, ch.vertices[2], pt))))

DocSpins(d) == << SpinOf(d, 0), SpinOf(d, 1), SpinOf(d, 2), SpinOf(d, 3) >>
(* the parts of the document that alignment needs, see module DPD *)
Frame(d, h) == [spins |-> DocSpins(d), ref |-> Spectator(d.reference), h |-> h,
                chains |-> [n \in DOMAIN d.chains |-> [k |-> Spectator(d.chains[n].topology)]]]
DocTable(d, pt) ==
  LET m == Frame(d, pt.h) IN
  [k \in SubsystemIds(d) |-> [l \in Helicities(m) |->
     CSum([n \in DOMAIN d.chains |->
             IF Spectator(d.chains[n].topology) = k THEN DocChain(d, d.chains[n], l, pt) ELSE CZero])]]
DocIntensity(d, A, h) == IntensityOf(Frame(d, h), A)

----------------------------------------------------------------------------
(* What is refused                                                         *)
BadLine(d, ch) == \E n \in DOMAIN ch.props : ~HasFunction(d, ch.props[n].fn)
LineTypes == {"BreitWigner", "MultichannelBreitWigner"}
OddLine(d, ch) == \E n \in DOMAIN ch.props :
   /\ HasFunction(d, ch.props[n].fn)
   /\ LET f == Function(d, ch.props[n].fn)
      IN f.type \notin LineTypes \/ (f.type = "MultichannelBreitWigner" /\ Len(f.channels) < 2)
HasForm(vx) == vx.ff \notin {"", "absent"}
BadForm(d, vx) == HasForm(vx) /\ (~HasFunction(d, vx.ff) \/ Function(d, vx.ff).type # "BlattWeisskopf")
BadVertex(ch, vx) == \/ vx.type \notin KnownTypes
                     \/ vx.type = "parity" /\ vx.pf \notin KnownFactors
                     \/ vx.type = "ls" /\ Len(ch.props) # 1
(* documents of which an amplitude model cannot be made; LS vertices carry *)
(* no helicities, by which weights are named                               *)
Refused(d, opaque) ==
  \/ d.dists = 0
  \/ ~IsThreeBody(d.reference)
  \/ \E n \in DOMAIN d.chains :
       LET ch == d.chains[n] IN
       \/ Len(ch.vertices) # 2 \/ ~IsIsobar(ch) \/ ~IsThreeBody(ch.topology)
       \/ BadLine(d, ch) \/ (~opaque /\ OddLine(d, ch))
       \/ \E v \in DOMAIN ch.vertices : BadVertex(ch, ch.vertices[v]) \/ BadForm(d, ch.vertices[v])
       \/ \E v \in DOMAIN ch.vertices : ch.vertices[v].type = "ls"

(* Weights are named by resonance and helicities: chains that agree in     *)
(* them are not told apart                                                 *)
WeightName(ch) ==
  LET hel(v, n) == IF ch.vertices[v].type = "ls" THEN "?" ELSE ch.vertices[v].hel[n]
      of(item) == { hel(v, n) : <<v, n>> \in { q \in (DOMAIN ch.vertices) \X {1, 2} : ch.vertices[q[1]].node[q[2]] = item } }
  IN << ch.name, UNION { of(ch.vertices[v].node[n]) : <<v, n>> \in { q \in (DOMAIN ch.vertices) \X {1, 2} : ~Single(ch.vertices[q[1]].node[q[2]]) } },
        [i \in 1..3 |-> of(<<i>>)] >>
Collide(d) == \E m, n \in DOMAIN d.chains :
   m < n /\ WeightName(d.chains[m]) = WeightName(d.chains[n]) /\ d.chains[m].weight # d.chains[n].weight

----------------------------------------------------------------------------
(* Lineshapes, in the form that module Lineshapes takes                    *)
SpectatorOf(node) == 6 - node[1] - node[2]
LineArgs(d, ch, sigma, roots) ==
  LET pr == ch.props[1]
      f == Function(d, pr.fn)
      k == SpectatorOf(pr.node)
  IN IF f.type = "BreitWigner"
     THEN [s |-> sigma[k], m0 |-> f.mass, g0 |-> f.width, a |-> f.ma, b |-> f.mb, l |-> f.l, R |-> f.d, phsp |-> "standard"]
     ELSE [s |-> sigma[k], r |-> roots[k], m0 |-> f.mass,
           channels |-> [c \in DOMAIN f.channels |-> LET q == f.channels[c] IN
              [g0 |-> q.gsq, a |-> q.ma, b |-> q.mb, l |-> q.l, R |-> q.d]]]
(* defaults of the mass symbols of the two decay products, by state number *)
LineMasses(d, ch) ==
  LET f == Function(d, ch.props[1].fn)
      c == IF f.type = "BreitWigner" THEN [ma |-> f.ma, mb |-> f.mb] ELSE f.channels[1]
  IN { <<ch.props[1].node[1], c.ma>>, <<ch.props[1].node[2], c.mb>> }

(* defaults of the parameters that belong to the resonance alone           *)
LineNamed(d, ch) ==
  LET f == Function(d, ch.props[1].fn) IN
  IF f.type = "BreitWigner" THEN [line |-> <<f.mass, f.width>>, channels |-> <<>>]
  ELSE [line |-> <<f.mass, f.channels[1].gsq>>,
        channels |-> [c \in 1..(Len(f.channels) - 1) |-> LET q == f.channels[c + 1] IN <<q.gsq, q.ma, q.mb, q.d>>]]

(* form factor of the decay of the isobar, or of its production            *)
FormArgs(d, ch, vx, sigma) ==
  LET f == Function(d, vx.ff)
      m(i) == States(d)[i].mass
      node == vx.node
      k == IF IsDecayNode(node) THEN SpectatorOf(<<node[1][1], node[2][1]>>) ELSE Spectator(node)
  IN IF IsDecayNode(node)
     THEN [s |-> sigma[k], a |-> m(node[1][1]), b |-> m(node[2][1]), l |-> f.l, R |-> f.radius]
     ELSE [M |-> m(0), s |-> sigma[k], c |-> m(k), lp |-> f.l, Rp |-> f.radius]

(* Some parameters have one symbol for all resonances: masses of the       *)
(* states, the radius of resonances, the radius of the decaying particle.  *)
Lines(d) == { Function(d, d.chains[c].props[1].fn) : c \in { c \in DOMAIN d.chains : HasFunction(d, d.chains[c].props[1].fn) } }
UsedForms(d, decay) == { Function(d, vx.ff) : vx \in { vx \in UNION { { d.chains[c].vertices[v] : v \in DOMAIN d.chains[c].vertices } : c \in DOMAIN d.chains } :
                            HasForm(vx) /\ HasFunction(d, vx.ff) /\ IsDecayNode(vx.node) = decay } }
OwnMasses(d, ch) == LET f == Function(d, ch.props[1].fn)
                        ab == IF f.type = "BreitWigner" THEN {f.ma, f.mb} ELSE {f.channels[1].ma, f.channels[1].mb}
                        node == ch.props[1].node
                    IN ab # { States(d)[node[1]].mass, States(d)[node[2]].mass }
SharedConflict(d) ==
  \/ Cardinality({ f.d : f \in { f \in Lines(d) : f.type = "BreitWigner" } } \cup { f.radius : f \in UsedForms(d, TRUE) }) > 1
  \/ Cardinality({ f.radius : f \in UsedForms(d, FALSE) }) > 1
  \/ \E c \in DOMAIN d.chains : OwnMasses(d, d.chains[c])
================================================================================
