------------------------------ MODULE MCDocument ------------------------------
(***************************************************************************)
(* Design-level theorems on the meaning of documents, at every document    *)
(* that an editor can reach:                                               *)
(*   the order of chains, vertices, functions and states, and the order in *)
(*   which topologies and production nodes are written, has no meaning;    *)
(*   reversing a decay node changes a chain by signs only;                 *)
(*   helicity is conserved; a parity vertex is the sum of two helicity     *)
(*   vertices; the intensity does not depend on the reference;             *)
(*   the amplitudes are those of the Dalitz-plot decomposition with the    *)
(*   vertices as couplings, up to the phases that it extracts.             *)
(***************************************************************************)
EXTENDS DocumentMachine

Point(t) == << Div(Sub(1, t * t), 1 + t * t), Div(2 * t, 1 + t * t) >>
H0 == [theta |-> <<Point(3), Point(7), Point(12)>>,
       hat   |-> <<Point(5), Point(8)>>,
       zeta  |-> << <<Point(17), Point(23)>>, <<Point(29), Point(31)>>, <<Point(41), Point(43)>> >>]
Value(q) == << Pow(5, 3 * q + 7), Pow(7, 2 * q + 3) >>
FormKeys == { t \o "|" \o ToString(k) \o "|" \o ToString(l) : t \in {"decay", "production"}, k \in 1..3, l \in 0..3 }
FormNumber(q) == LET c == CHOOSE c \in {1, 2} \X (1..3) \X (0..3) :
                            q = <<"decay", "production">>[c[1]] \o "|" \o ToString(c[2]) \o "|" \o ToString(c[3])
                 IN c[1] + 2 * c[2] + c[3]
pt == [h |-> H0,
       X |-> [q \in { FnOf(name) \o "|" \o name : name \in Names } |-> IF q = "R1_line|R1" THEN Value(3) ELSE Value(4)],
       F |-> [q \in FormKeys |-> Value(FormNumber(q))]]

Meaning(dd) == DocTable(dd, pt)
Reordered ==
  { [d EXCEPT !.functions = Append(Tail(@), Head(@))], [d EXCEPT !.final = Append(Tail(@), Head(@))] }
  \cup (IF NC < 2 THEN {} ELSE { [d EXCEPT !.chains = Append(Tail(@), Head(@))] })
  \cup UNION { { [d EXCEPT !.chains[c].vertices = Swap2(@)], [d EXCEPT !.chains[c].topology = Swap2(@)] } : c \in Chs }
  \cup UNION { { [d EXCEPT !.chains[c].vertices[v] = SwappedNode(@)] :
                    v \in { v \in 1..2 : ~IsDecayNode(VertexOf(c, v).node) /\ VertexOf(c, v).type # "ls" } } : c \in Chs }
OrderMeaningless == LET A == TLCEval(Meaning(d)) IN \A dd \in Reordered : Meaning(dd) = A

Alone(c, ch) == [d EXCEPT !.chains = <<ch>>]
Reverse(ch) == [ch EXCEPT !.vertices = [v \in DOMAIN @ |-> IF IsDecayNode(@[v].node) THEN SwappedNode(@[v]) ELSE @[v]]]
UpToSign(x, y) == x = y \/ x = CSub(CZero, y)
ReversalIsSign == \A c \in Chs :
  LET k == Spectator(d.chains[c].topology)
      A == TLCEval(Meaning(Alone(c, d.chains[c]))[k])
      B == TLCEval(Meaning(Alone(c, Reverse(d.chains[c])))[k])
  IN (\A v \in 1..2 : VertexOf(c, v).type # "ls") => \A l \in DOMAIN A : UpToSign(A[l], B[l])

Conservation == LET A == TLCEval(Meaning(d)) IN
  \A k \in DOMAIN A : \A l \in DOMAIN A[k] : A[k][l] # CZero =>
     \E c \in Chs : LET J == ChainSpin(d.chains[c]) IN Abs(l[1] + l[k + 1]) <= J

ParityIsSum == \A c \in Chs : \A v \in 1..2 :
  VertexOf(c, v).type = "parity" =>
    LET ch == d.chains[c]
        k == Spectator(ch.topology)
        vx == VertexOf(c, v)
        plus == [ch EXCEPT !.vertices[v].type = "helicity"]
        minus == [ch EXCEPT !.vertices[v].type = "helicity", !.vertices[v].hel = << HalfStr(-Half(vx.hel[1])), HalfStr(-Half(vx.hel[2])) >>]
        A == TLCEval(Meaning(Alone(c, ch))[k])
        Q == TLCEval(Meaning(Alone(c, plus))[k])
        N == TLCEval(Meaning(Alone(c, minus))[k])
    IN \A l \in DOMAIN A : A[l] = CAdd(Q[l], CScale(FactorOf(vx.pf), N[l]))

ReferenceIndependent == Even(DocSpins(d)[1]) =>
  LET A == TLCEval(Meaning(d))
      I(k) == DocIntensity([d EXCEPT !.reference = Pair(k)], A, H0)
  IN I(1) = I(2) /\ I(2) = I(3)

(* Dalitz-plot decomposition with the vertices as couplings                *)
Dpd == LET s == DocSpins(d) IN
  [spins |-> s, ref |-> Spectator(d.reference), prodHel |-> TRUE, decHel |-> TRUE, coef |-> FALSE, h |-> H0,
   chains |-> [c \in Chs |-> LET ch == d.chains[c] IN
      [k |-> Spectator(ch.topology), R |-> ToString(c), J |-> ChainSpin(ch), prodLS |-> <<>>, decLS |-> <<>>,
       prodSwap |-> FALSE, decSwap |-> FALSE,
       x |-> CMul(CMul(Weight(ch.weight), LineValue(ch, pt)),
                  CMul(FormValue(d, ch, ch.vertices[1], pt), FormValue(d, ch, ch.vertices[2], pt)))]],
   H |-> LET Keys(c) ==
               LET ch == d.chains[c]
                   k == Spectator(ch.topology)
                   J == ChainSpin(ch)
                   i == ChildI(k)
                   j == ChildJ(k)
                   zero == [q \in 1..4 |-> 0]
                   turned == Products(ch)[1] # i
                   prods == Proj(J) \X Proj(s[k + 1])
                   decs == Proj(s[i + 1]) \X Proj(s[j + 1])
                   pk(p) == HelKey([R |-> ToString(c)], "production", p[1], p[2])
                   dk(p) == HelKey([R |-> ToString(c)], "decay", p[1], p[2])
                   pv(p) == CReal(Mul(Mul(SignPow((s[k + 1] - p[2]) \div 2), IF turned THEN SignPow((J + p[1]) \div 2) ELSE 1),
                                  Vertex(d, ch, ProductionVertex(ch), p[1], [zero EXCEPT ![k + 1] = p[2]])))
                   dv(p) == CReal(Mul(SignPow((s[j + 1] - p[2]) \div 2),
                                  Vertex(d, ch, DecayVertex(ch), 0, [zero EXCEPT ![i + 1] = p[1], ![j + 1] = p[2]])))
               IN [q \in { pk(p) : p \in prods } |-> pv(CHOOSE p \in prods : pk(p) = q)]
                  @@ [q \in { dk(p) : p \in decs } |-> dv(CHOOSE p \in decs : dk(p) = q)]
             RECURSIVE All(_)
             All(c) == IF c = 0 THEN <<>> ELSE Keys(c) @@ All(c - 1)
         IN All(NC)]
IsDecomposition == LET A == TLCEval(Meaning(d))
                       B == TLCEval(AmplitudeTable(TLCEval(Dpd)))
                   IN A = B

MCSpins == { <<1, 1, 0, 0>>, <<0, 1, 1, 0>>, <<2, 0, 1, 1>> }
MCSpinsOne == { <<1, 1, 0, 0>> }
MCSpinsQuick == { <<1, 1, 0, 0>>, <<2, 0, 1, 1>> }
MCOrders == { <<2, 3, 1>> }
Holds == NC > 0 => /\ ~Refused([d EXCEPT !.chains = [c \in Chs |->
                          [@[c] EXCEPT !.vertices = [v \in DOMAIN @ |-> IF @[v].type = "ls" THEN [@[v] EXCEPT !.type = "helicity"] ELSE @[v]]]]], TRUE)
                   /\ OrderMeaningless /\ ReversalIsSign /\ Conservation /\ ParityIsSum
                   /\ ReferenceIndependent /\ IsDecomposition
(* reading: what has no meaning does not change what is read, a copied     *)
(* chain adds nothing, every chain is read, damage is noticed              *)
Readable(dd) == dd.dists > 0 /\ \A c \in DOMAIN dd.chains : IsIsobar(dd.chains[c])
SameRead(dd) == Readable(dd) = Readable(d) /\ (Readable(d) => ReadChains(dd) = ReadChains(d)) /\ States(dd) = States(d)
Shuffled == { [d EXCEPT !.functions = Append(Tail(@), Head(@))], [d EXCEPT !.final = Append(Tail(@), Head(@))] }
  \cup { [d EXCEPT !.chains[c].vertices = IF Len(@) = 2 THEN Swap2(@) ELSE @] : c \in Chs }
  \cup { [d EXCEPT !.chains = Append(@, @[c])] : c \in Chs }
HoldsRead ==
  /\ \A dd \in Shuffled : SameRead(dd)
  /\ Readable(d) => \A c \in Chs : LET r == ReadChain(d.chains[c]) IN
       /\ {r.products[1], r.products[2], r.spectator} = 1..3
       /\ IsThreeBody(d.chains[c].topology) => r.spectator = Spectator(d.chains[c].topology)
  /\ \A f \in DOMAIN d.functions : HasFunction(d, d.functions[f].name)
  /\ (\E c \in Chs : Len(d.chains[c].vertices) < 2) => Refused(d, FALSE) /\ ~Readable(d)
MCReadNext == n < Depth /\ n' = n + 1 /\ IF n < 2 THEN Tame ELSE Harm
ReadView == <<d, n>>
MCNext == n < Depth /\ n' = n + 1 /\ (Tame \/ (n > 0 /\ LSEdit))
View == d
================================================================================
