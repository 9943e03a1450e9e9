---------------------------- MODULE RenderMachine -----------------------------
(***************************************************************************)
(* Particles, trees, chains and sequences of them are made step by step,   *)
(* and shown.                                                              *)
(***************************************************************************)
EXTENDS Render, Json

CONSTANTS Spins, Parities, Numbers, LSs, Latexes, Depth, Some(_)

VARIABLES particles, \* those that are no states
          states,    \* index 0 first
          trees, chains, steps
vars == <<particles, states, trees, chains, steps>>

Particle(name, latex, s, q, m, w, i) == [name |-> name, latex |-> latex, spin |-> s, parity |-> q, mass |-> m, width |-> w, index |-> i]
Leaf(p) == [kind |-> "particle", p |-> p]
Node(p, ls, a, b) == [kind |-> "node", p |-> p, ls |-> ls, one |-> a, two |-> b]
Nothing == Particle("", "", 0, 0, 0, 0, -1)

Init == /\ particles = <<>> /\ trees = <<>> /\ chains = <<>> /\ steps = 0
        /\ states = [n \in 1..4 |-> Particle("S" \o ToString(n - 1), "s_" \o ToString(n - 1), n % 4, IF Even(n) THEN 1 ELSE 0, 1396 + n, 0, n - 1)]

AddParticle == \E x \in Some(Latexes), s \in Some(Spins), q \in Some(Parities), m \in Some(Numbers), w \in Some(Numbers) :
  /\ particles' = Append(particles, Particle("N" \o ToString(Len(particles)), x, s, q, m, w, -1))
  /\ UNCHANGED <<states, trees, chains>>
ChangeState == \E n \in Some(1..4), x \in Some(Latexes), s \in Some(Spins), q \in Some(Parities), m \in Some(Numbers) :
  /\ states' = [states EXCEPT ![n] = Particle("S" \o x, x, s, q, m, m, n - 1)]
  /\ chains' = <<>> /\ UNCHANGED <<particles, trees>>

Leaves == { Leaf(states[n]) : n \in 2..4 } \cup { Leaf(particles[n]) : n \in DOMAIN particles }
Parents == { particles[n] : n \in DOMAIN particles } \cup { states[1] }
SubTrees == { trees[n] : n \in DOMAIN trees }
(* <<L, 2 S>>, or no coupling if L < 0                                      *)
Given(ls) == IF ls[1] < 0 THEN <<>> ELSE ls
AddTree == \E p \in Some(Parents), ls \in Some(LSs), a \in Some(SubTrees \cup Leaves), b \in Some(Leaves \cup SubTrees) :
  /\ trees' = Append(trees, Node(p, Given(ls), a, b))
  /\ UNCHANGED <<particles, states, chains>>

Perms == { o \in [1..3 -> 2..4] : \A a, b \in 1..3 : a # b => o[a] # o[b] }
AddChain == \E q \in Some(DOMAIN particles), l1 \in Some(LSs), l2 \in Some(LSs), o \in Some(Perms), spectatorFirst \in Some(BOOLEAN) :
  LET inner == Node(particles[q], Given(l2), Leaf(states[o[1]]), Leaf(states[o[2]]))
      c == Leaf(states[o[3]])
  IN /\ chains' = Append(chains, IF spectatorFirst THEN Node(states[1], Given(l1), c, inner) ELSE Node(states[1], Given(l1), inner, c))
     /\ UNCHANGED <<particles, states, trees>>

Next == /\ steps < Depth /\ steps' = steps + 1
        /\ AddParticle \/ ChangeState \/ AddTree \/ AddChain

(* generation *)
OneOf(S) == IF S = {} THEN {} ELSE { RandomElement(S) }
Every(S) == S
GenParities == {-1, 0, 1}
OneLS == { <<-1, 0>> }
FewLS == { <<-1, 0>>, <<1, 1>> }
GenLatexes == {"\\Lambda(1520)", "K^-", "p", "\\pi^+", "\\bar{K}^0", "f_0(980)", "N(1440)^+", "x", "to"}
GenLS == {-1, 0, 1, 2, 3, 10} \X (0..7)
GenNumbers == { 0, 1, 4, 5, 6, 9, 14, 15, 994, 996, 9989, 9994, 9996, 10190, 10005, 10010, 10030, 20020, 9382, 4936, 13950, 15195, 999996, 1000004,
                10000000, 12345678, 30970 }
GenNext ==
  \/ Next
  \/ /\ steps = Depth /\ steps' = steps + 1
     /\ PrintT("HISTORY " \o ToJson([particles |-> particles, states |-> states, trees |-> trees, chains |-> chains]))
     /\ UNCHANGED <<particles, states, trees, chains>>

(* properties of the specification itself, for exhaustive runs *)
DistinctJp == \A p, q \in { particles[n] : n \in DOMAIN particles } :
   Jp(p) = Jp(q) => p.spin = q.spin /\ p.parity = q.parity
TablesRectangular ==
  /\ chains # <<>> => \A n \in DOMAIN chains : Len(ChainTable(chains)[n]) = Len(ChainHeader(chains))
  /\ LET all == particles \o states IN \A n \in DOMAIN all : Len(ParticleTable(all)[n]) = Len(ParticleHeader(all))
  /\ \A n \in DOMAIN particles : Len(ParticleTable(particles)[n]) = Len(ParticleHeader(particles))
NumbersNear == \A n \in DOMAIN particles : LET m == particles[n].mass IN Cardinality(MeV(m)) = IF m % 10 = 5 THEN 2 ELSE 1
(* different trees of the same particles are written differently           *)
RECURSIVE Leafs(_)
Leafs(t) == IF t.kind = "particle" THEN <<t.p.latex>> ELSE Leafs(t.one) \o Leafs(t.two)
Unambiguous == \A a, b \in DOMAIN trees : TreeLatex(trees[a], "plain") = TreeLatex(trees[b], "plain")
                 => Leafs(trees[a]) = Leafs(trees[b]) /\ trees[a].ls = trees[b].ls /\ trees[a].p.latex = trees[b].p.latex
Holds == DistinctJp /\ TablesRectangular /\ NumbersNear /\ Unambiguous
================================================================================
