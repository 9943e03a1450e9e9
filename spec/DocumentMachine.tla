--------------------------- MODULE DocumentMachine ----------------------------
(***************************************************************************)
(* Editing of a document: states, chains, vertices, functions are added,   *)
(* changed and reordered, sometimes with damage.                           *)
(***************************************************************************)
EXTENDS Document, Json

CONSTANTS Some(_),
          SpinChoices,   \* sequences of four doubled spins
          Names,         \* of resonances
          MaxJ,          \* doubled spin of resonances
          MaxChains,
          Orders,        \* of the final states
          Weights, Formfactors, Factors, \* strings
          Multi,         \* resonances with a multichannel lineshape
          Mode,          \* what happens in the last steps
          Depth, Extra

VARIABLES d, n

Range_(f) == { f[x] : x \in DOMAIN f }
StateMass == <<20, 3, 4, 2>>
State_(S, i) == [index |-> i, name |-> "P" \o ToString(i), spin |-> HalfStr(S[i + 1]), mass |-> StateMass[i + 1]]
Pair(k) == << <<ChildI(k), ChildJ(k)>>, <<k>> >>

(* lineshapes and form factors; radii of one kind are the same, see DESIGN *)
FnOf(name) == name \o "_line"
LineDef(name, k, c) ==
  LET base == [name |-> FnOf(name), type |-> IF name \in Multi THEN "MultichannelBreitWigner" ELSE "BreitWigner"]
      a == StateMass[ChildI(k) + 1]
      b == StateMass[ChildJ(k) + 1]
  IN IF base.type = "MultichannelBreitWigner"
     THEN base @@ [mass |-> 8 + c,
                   channels |-> << [gsq |-> 1 + c, ma |-> a, mb |-> b, l |-> c % 3, d |-> 1 + c],
                                   [gsq |-> 2 + c, ma |-> 1 + c, mb |-> 2, l |-> (c + 1) % 3, d |-> 3] >>]
     ELSE base @@ [mass |-> 8 + c, width |-> 1 + c, ma |-> a, mb |-> b, l |-> c % 4, d |-> 2]
FormDefs == << [name |-> "decay_l0", type |-> "BlattWeisskopf", l |-> 0, radius |-> 2],
               [name |-> "decay_l1", type |-> "BlattWeisskopf", l |-> 1, radius |-> 2],
               [name |-> "decay_l2", type |-> "BlattWeisskopf", l |-> 2, radius |-> 2],
               [name |-> "production_l1", type |-> "BlattWeisskopf", l |-> 1, radius |-> 5],
               [name |-> "production_l3", type |-> "BlattWeisskopf", l |-> 3, radius |-> 5],
               [name |-> "sum", type |-> "Polynomial", l |-> 3, radius |-> 5] >>

(* choices for generation *)
GenSpins == { <<1, 1, 0, 0>>, <<1, 0, 1, 0>>, <<0, 1, 1, 0>>, <<2, 0, 1, 1>>, <<0, 0, 0, 0>>, <<3, 0, 0, 1>>, <<1, 2, 1, 0>>,
              <<2, 2, 0, 0>>, <<0, 2, 0, 2>>, <<1, 1, 1, 1>>, <<2, 0, 2, 0>>, <<1, 0, 0, 3>>, <<4, 1, 1, 0>> }
AllOrders == { o \in [1..3 -> 1..3] : \A a, b \in 1..3 : a # b => o[a] # o[b] }

Init == \E S \in SpinChoices, o \in Orders, k \in 1..3 :
          /\ d = [dists |-> 1, initial |-> State_(S, 0),
                  final |-> [q \in 1..3 |-> State_(S, o[q])],
                  reference |-> Pair(k), chains |-> <<>>, functions |-> FormDefs]
          /\ n = 0

Sp(i) == SpinOf(d, i)
Low(J) == HalfStr(IF Even(J) THEN 0 ELSE 1)
NewVertex(node, J1, J2) == [type |-> "helicity", node |-> node, hel |-> <<Low(J1), Low(J2)>>,
                            pf |-> "absent", ff |-> "absent", l |-> "absent", s |-> "absent"]
NewChain(name, k, J) ==
  LET i == ChildI(k)
      j == ChildJ(k)
  IN [name |-> name, weight |-> "1.0 + 0.0i", topology |-> Pair(k),
      props |-> << [spin |-> HalfStr(J), node |-> <<i, j>>, fn |-> FnOf(name)] >>,
      vertices |-> << NewVertex(Pair(k), J, Sp(k)), NewVertex(<< <<i>>, <<j>> >>, Sp(i), Sp(j)) >>]

NC == Len(d.chains)
Chs == DOMAIN d.chains
(* every name stands for one resonance of one subsystem *)
NewChains == { q \in Names \X (1..3) \X (0..MaxJ) :
   /\ Even(q[3] + Sp(ChildI(q[2])) + Sp(ChildJ(q[2]))) /\ Even(q[3] + Sp(q[2]) + Sp(0))
   /\ \A c \in Chs : d.chains[c].name = q[1] => Spectator(d.chains[c].topology) = q[2] /\ d.chains[c].props[1].spin = HalfStr(q[3]) }
AddChain(name, k, J) ==
  /\ NC < MaxChains
  /\ d' = [d EXCEPT !.chains = Append(@, NewChain(name, k, J)),
                    !.functions = IF HasFunction(d, FnOf(name)) THEN @
                                  ELSE Append(@, LineDef(name, k, Len(@) - Len(FormDefs)))]

VertexOf(c, v) == d.chains[c].vertices[v]
SetVertex(c, v, vx) == d' = [d EXCEPT !.chains[c].vertices[v] = vx]
SpinAt(c, item) == ItemSpin(d, d.chains[c], item)
SetHel(c, v, a, b) ==
  LET vx == VertexOf(c, v) IN
  /\ vx.type \in {"helicity", "parity"} /\ IsIsobar(d.chains[c])
  /\ SetVertex(c, v, [vx EXCEPT !.hel = <<HalfStr(a), HalfStr(b)>>])
SetFactor(c, v, f) == VertexOf(c, v).type \in {"helicity", "parity"}
                      /\ SetVertex(c, v, [VertexOf(c, v) EXCEPT !.type = "parity", !.pf = f])
SetLS(c, v, l, s) ==
  LET vx == VertexOf(c, v) IN
  SetVertex(c, v, [vx EXCEPT !.type = "ls", !.hel = <<>>, !.pf = "absent", !.l = ToString(l), !.s = HalfStr(s)])
SetForm(c, v, f) == SetVertex(c, v, [VertexOf(c, v) EXCEPT !.ff = f])
SetWeight(c, w) == d' = [d EXCEPT !.chains[c].weight = w]

Swap2(s) == IF Len(s) = 2 THEN <<s[2], s[1]>> ELSE s
SwapVertices(c) == /\ Len(d.chains[c].vertices) = 2
                   /\ d' = [d EXCEPT !.chains[c].vertices = Swap2(@)]
SwappedNode(vx) == [vx EXCEPT !.node = Swap2(@), !.hel = IF vx.type = "ls" THEN @ ELSE Swap2(@)]
SwapNode(c, v) == SetVertex(c, v, SwappedNode(VertexOf(c, v)))
SwapTopology(c) == d' = [d EXCEPT !.chains[c].topology = Swap2(@)]
SwapInside(c) == d' = [d EXCEPT !.chains[c].topology = [q \in 1..2 |-> IF Single(@[q]) THEN @[q] ELSE Swap2(@[q])],
                                !.chains[c].props[1].node = Swap2(@)]
SwapChains(c) == /\ c + 1 \in Chs
                 /\ d' = [d EXCEPT !.chains = [@ EXCEPT ![c] = d.chains[c + 1], ![c + 1] = d.chains[c]]]
DropChain(c) == NC > 2 /\ d' = [d EXCEPT !.chains = SubSeq(@, 1, c - 1) \o SubSeq(@, c + 1, NC)]
CopyChain(c) == NC < MaxChains /\ d' = [d EXCEPT !.chains = Append(@, d.chains[c])]
RotateFunctions == d' = [d EXCEPT !.functions = Append(Tail(@), Head(@))]
RotateStates == d' = [d EXCEPT !.final = Append(Tail(@), Head(@))]
SetReference(k) == d' = [d EXCEPT !.reference = Pair(k)]
SwapReference == d' = [d EXCEPT !.reference = Swap2(@)]

(* Some(S): all elements of S to consider, or a random one *)
Every(S) == S
OneOf(S) == IF S = {} THEN {} ELSE { RandomElement(S) }

Tame ==
  \/ \E q \in Some(NewChains) : AddChain(q[1], q[2], q[3])
  \/ \E c \in Some(Chs) :
       \/ \E w \in Some(Weights) : SetWeight(c, w)
       \/ SwapVertices(c) \/ SwapTopology(c) \/ SwapInside(c) \/ SwapChains(c)
  \/ \E c \in Some(Chs) : DropChain(c) \/ CopyChain(c)
  \/ \E c \in Some(Chs), v \in Some(1..2) :
       LET vx == VertexOf(c, v) IN
       \/ \E a \in Some(Proj(SpinAt(c, vx.node[1]))), b \in Some(Proj(SpinAt(c, vx.node[2]))) : SetHel(c, v, a, b)
       \/ \E f \in Some(Formfactors) :
            f \in (IF IsDecayNode(vx.node) THEN {"", "decay_l0", "decay_l1", "decay_l2"}
                   ELSE {"", "production_l1", "production_l3"}) /\ SetForm(c, v, f)
       \/ SwapNode(c, v)
  \/ \E c \in Some(Chs), v \in Some(1..2), f \in Some(Factors) : SetFactor(c, v, f)
  \/ RotateFunctions \/ RotateStates \/ SwapReference
  \/ \E k \in Some(1..3) : SetReference(k)

LSEdit == \E c \in Some(Chs), v \in Some(1..2) :
  LET vx == VertexOf(c, v)
  IN \E ls \in Some(LSCouplings(ParentSpin(d, d.chains[c], vx.node), SpinAt(c, vx.node[1]), SpinAt(c, vx.node[2]), 4)) :
       SetLS(c, v, ls[1], ls[2])

FormEdit == \E c \in Some(Chs), v \in Some(1..2), f \in Some(Formfactors) : SetForm(c, v, f)
(* parameters of lineshapes; Wild: those that share a symbol               *)
IsLine(q) == d.functions[q].type \in LineTypes
SetFn(q, f) == d' = [d EXCEPT !.functions[q] = f]
LineEdit == \E q \in Some({ q \in DOMAIN d.functions : IsLine(q) }), x \in Some(1..9) :
  LET f == d.functions[q] IN
  \/ SetFn(q, [f EXCEPT !.mass = 8 + (x % 7)])
  \/ f.type = "BreitWigner" /\ SetFn(q, [f EXCEPT !.width = x - 1])
  \/ f.type = "BreitWigner" /\ SetFn(q, [f EXCEPT !.l = x % 5])
  \/ f.type = "MultichannelBreitWigner" /\
     \/ \E c \in Some(DOMAIN f.channels) :
          \/ SetFn(q, [f EXCEPT !.channels[c].gsq = x - 1])
          \/ c > 1 /\ SetFn(q, [f EXCEPT !.channels[c] = f.channels[1]])
          \/ SetFn(q, [f EXCEPT !.channels[c].l = x % 5])
          \/ SetFn(q, [f EXCEPT !.channels[c].d = x])
          \/ c > 1 /\ SetFn(q, [f EXCEPT !.channels[c].ma = x % 4])
          \/ c > 1 /\ SetFn(q, [f EXCEPT !.channels[c].mb = x % 4])
          \/ c = 1 /\ SetFn(q, [f EXCEPT !.channels[1].ma = f.channels[1].mb, !.channels[1].mb = f.channels[1].ma])
     \/ Len(f.channels) < 4 /\ SetFn(q, [f EXCEPT !.channels = Append(@, [@[1] EXCEPT !.gsq = x])])
     \/ Len(f.channels) > 2 /\ SetFn(q, [f EXCEPT !.channels = Tail(@)])
  \/ f.type = "BreitWigner" /\ SetFn(q, [f EXCEPT !.ma = f.mb, !.mb = f.ma])
InForm(f) == f.type = "BlattWeisskopf" /\ \E c \in Chs : \E v \in DOMAIN d.chains[c].vertices : VertexOf(c, v).ff = f.name
WildEdit == \E q \in Some(DOMAIN d.functions), x \in Some(1..4), y \in Some(1..4) :
  LET f == d.functions[q] IN
  \/ f.type = "BlattWeisskopf" /\ SetFn(q, [f EXCEPT !.radius = x - 1])
  \/ \E r \in Some({ r \in DOMAIN d.functions : InForm(d.functions[r]) }) : SetFn(r, [d.functions[r] EXCEPT !.radius = x - 1])
  \/ f.type = "BreitWigner" /\ SetFn(q, [f EXCEPT !.d = x])
  \/ f.type = "BreitWigner" /\ SetFn(q, [f EXCEPT !.ma = x, !.mb = y])
  \/ f.type = "MultichannelBreitWigner" /\ SetFn(q, [f EXCEPT !.channels[1].ma = x, !.channels[1].mb = y])

Harm ==
  \/ \E q \in {0, 2} : d' = [d EXCEPT !.dists = q]
  \/ d' = [d EXCEPT !.reference = << <<1>>, <<2>>, <<3>> >>]
  \/ d' = [d EXCEPT !.reference = << <<1, 2>> >>]
  \/ \E q \in Some(DOMAIN d.functions) :
       \/ d' = [d EXCEPT !.functions = SubSeq(@, 1, q - 1) \o SubSeq(@, q + 1, Len(@))]
       \/ d' = [d EXCEPT !.functions[q].name = @ \o "x"]
       \/ d' = [d EXCEPT !.functions[q].type = "Dirac"]
       \/ d' = [d EXCEPT !.functions = Append(@, [@[q] EXCEPT !.type = "Dirac"])]
       \/ d.functions[q].type = "MultichannelBreitWigner" /\ d' = [d EXCEPT !.functions[q].channels = SubSeq(@, 1, 1)]
  \/ \E c \in Some(Chs) :
       \/ \E v \in Some(DOMAIN d.chains[c].vertices) :
            \/ d' = [d EXCEPT !.chains[c].vertices = SubSeq(@, 1, v - 1) \o SubSeq(@, v + 1, Len(@))]
            \/ d' = [d EXCEPT !.chains[c].vertices = Append(@, @[v])]
            \/ d' = [d EXCEPT !.chains[c].vertices[v].type = "tensor"]
            \/ SetFactor(c, v, "x")
            \/ SetForm(c, v, "sum")
            \/ SetForm(c, v, "nothing")
       \/ d' = [d EXCEPT !.chains[c].topology = << <<1>>, <<2>>, <<3>> >>]
       \/ d' = [d EXCEPT !.chains[c].topology = << <<1, 2>>, <<1, 3>> >>]
       \/ d' = [d EXCEPT !.chains[c].props = Append(@, @[1])]

----------------------------------------------------------------------------
(* generation of documents: LS vertices and damage come last               *)
Emit == PrintT("HISTORY " \o ToJson([doc |-> d, collide |-> Collide(d), shared |-> Mode # "harm" /\ SharedConflict(d)]))
GenNext ==
  /\ n' = n + 1
  /\ IF n < Depth THEN Tame
     ELSE IF n < Depth + Extra /\ Mode = "ls" /\ Chs # {}
          THEN \E q \in {RandomElement(1..4)}, c \in Some(Chs) :
                 IF q > 1 \/ n < Depth + Extra - 1 THEN LSEdit ELSE d' = [d EXCEPT !.chains[c].props = @ \o @]
     ELSE IF n < Depth + Extra /\ Mode = "lines" /\ Chs # {} THEN LineEdit
     ELSE IF n < Depth + Extra /\ Mode = "wild" /\ Chs # {} THEN LineEdit \/ WildEdit
     ELSE IF n < Depth + Extra /\ Mode = "forms" /\ Chs # {} THEN LSEdit \/ FormEdit
     ELSE IF n < Depth + Extra /\ Mode = "harm" THEN Harm
     ELSE n <= Depth + Extra /\ Emit /\ d' = [d EXCEPT !.dists = 9]
================================================================================
