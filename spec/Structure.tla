------------------------------ MODULE Structure ------------------------------
(***************************************************************************)
(* Decay structures: which chains and decays are well-formed, and what the *)
(* queries on them answer.                                                 *)
(*                                                                         *)
(* A particle is a record [type, index, tag]: type is "state" or           *)
(* "particle", tag stands for all its other attributes (name, spin, ...).  *)
(* A node is [type |-> "node", parent, c1, c2, ls]; a chain is a node.     *)
(* Indices of particles that are not states are -1; ls is <<L, 2S>> or <<>>. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

IsNode(x)  == x.type = "node"
IsState(x) == x.type = "state"

Count(S) == Cardinality(S)
Isobars(c)    == { n \in {1, 2} : IsNode(IF n = 1 THEN c.c1 ELSE c.c2) }
Child(c, n)   == IF n = 1 THEN c.c1 ELSE c.c2

(* one isobar and one state *)
OneIsobar(c)  == Count(Isobars(c)) = 1 /\ IsState(Child(c, 3 - (CHOOSE n \in Isobars(c) : TRUE)))

DecayNode(c)  == Child(c, CHOOSE n \in Isobars(c) : TRUE)
Spectator(c)  == Child(c, 3 - (CHOOSE n \in Isobars(c) : TRUE))
Products(c)   == <<DecayNode(c).c1, DecayNode(c).c2>>
Resonance(c)  == DecayNode(c).parent
Outer(c)      == <<c.parent, Products(c)[1], Products(c)[2], Spectator(c)>>

ValidChain(c) ==
  /\ OneIsobar(c)
  /\ \A n \in 1..4 : IsState(Outer(c)[n])
  /\ Cardinality({ Outer(c)[n].index : n \in 1..4 }) = 4

(* final states sorted by number *)
FinalState(c) ==
  LET S == { Outer(c)[n] : n \in 2..4 }
      a == CHOOSE x \in S : \A y \in S : x.index <= y.index
      z == CHOOSE x \in S : \A y \in S : x.index >= y.index
      b == CHOOSE x \in S \ {a, z} : TRUE
  IN <<a, b, z>>

IncomingLS(c) == c.ls
OutgoingLS(c) == DecayNode(c).ls

(* a decay: states is a sequence of states with numbers 0..3 *)
StateOf(d, i) == CHOOSE x \in { d.states[n] : n \in DOMAIN d.states } : x.index = i
ValidDecay(d) ==
  \A n \in DOMAIN d.chains :
     /\ d.chains[n].parent = StateOf(d, 0)
     /\ { Outer(d.chains[n])[q] : q \in 2..4 } = { StateOf(d, i) : i \in 1..3 }

(* queries: positions in d.chains *)
Named(d, name)     == { n \in DOMAIN d.chains : Resonance(d.chains[n]).name = name }
FirstNamed(d, name) == IF Named(d, name) = {} THEN 0
                       ELSE CHOOSE n \in Named(d, name) : \A q \in Named(d, name) : n <= q
RECURSIVE Filter(_, _, _)
Filter(d, k, n) == IF n = 0 THEN <<>>
                   ELSE IF Spectator(d.chains[n]).index = k THEN Append(Filter(d, k, n - 1), n)
                   ELSE Filter(d, k, n - 1)
Subsystem(d, k)  == Filter(d, k, Len(d.chains))
SubsystemIds(d)  == { Spectator(d.chains[n]).index : n \in DOMAIN d.chains }
ProductIds(k)    == << IF k = 3 THEN 1 ELSE k + 1, IF k = 1 THEN 3 ELSE k - 1 >>
============================================================================
