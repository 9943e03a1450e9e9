------------------------------- MODULE MCModel -------------------------------
(***************************************************************************)
(* Design-level theorems of module DPD on small decays.  One state per     *)
(* instance: spins, subsystems present, theorem.                           *)
(*   reference    the intensity does not depend on the reference           *)
(*                subsystem, up to the sign rule FlipFor                   *)
(*   single       one subsystem: the intensity is the sum of |A|^2         *)
(*   basis        LS models equal the helicity model with recoupled        *)
(*                couplings, in each of the three LS bases                 *)
(*   coefficient  one coefficient per chain = product of the couplings     *)
(*   angles       the alignment angles compose and are antisymmetric       *)
(***************************************************************************)
EXTENDS DPD, FiniteSetsExt, SequencesExt

CONSTANTS SpinSet, MaxDim, Theorems

VARIABLES spins, subs, what, done

(* rational points of the circle, one per angle: (1-t^2, 2t)/(1+t^2) *)
Point(t) == << Div(Sub(1, t * t), 1 + t * t), Div(2 * t, 1 + t * t) >>
H0 == [theta |-> <<Point(3), Point(7), Point(12)>>,
       hat   |-> <<Point(5), Point(8)>>,
       zeta  |-> << <<Point(17), Point(23)>>, <<Point(29), Point(31)>>, <<Point(41), Point(43)>> >>]

Value(n) == << Pow(5, 3 * n + 7), Pow(7, 2 * n + 3) >>

(* smallest isobar spin that can be produced and decay in subsystem k *)
IsobarSpins(s, k) ==
  LET i == ChildI(k)
      j == ChildJ(k)
  IN { J \in Coupled(s[i + 1], s[j + 1]) \cup { J + 2 : J \in Coupled(s[i + 1], s[j + 1]) } :
         Even(J + s[k + 1] + s[1]) }
IsobarSpin(s, k) == IF Cardinality(IsobarSpins(s, k)) = 1 THEN Min(IsobarSpins(s, k))
                    ELSE Min(IsobarSpins(s, k) \ {Min(IsobarSpins(s, k))})

Chain(s, k, pls, dls, x) ==
  [k |-> k, R |-> "R" \o Str(k), J |-> IsobarSpin(s, k), prodLS |-> pls, decLS |-> dls,
   prodSwap |-> k = 2, decSwap |-> k # 1, x |-> x]

ProdLSs(s, k) == LSCouplings(s[1], IsobarSpin(s, k), s[k + 1], 6)
DecLSs(s, k)  == LSCouplings(IsobarSpin(s, k), s[ChildI(k) + 1], s[ChildJ(k) + 1], 6)
Pick(S) == CHOOSE x \in S : TRUE

AllKeys(m) == RequiredCouplings(m)
WithValues(m) ==
  LET keys == SetToSeq(AllKeys(m))
  IN [m EXCEPT !.H = [q \in AllKeys(m) |-> Value(CHOOSE n \in 1..Len(keys) : keys[n] = q)]]

Base(s, S, ref, ph, dh, coef) ==
  LET ks == SetToSeq(S)
  IN [spins |-> s, ref |-> ref, prodHel |-> ph, decHel |-> dh, coef |-> coef, h |-> H0, H |-> <<>>,
      chains |-> [n \in 1..Len(ks) |-> Chain(s, ks[n], Pick(ProdLSs(s, ks[n])), Pick(DecLSs(s, ks[n])), Value(20 + n))]]

ReferenceIndependent ==
  LET m == TLCEval(WithValues(Base(spins, subs, 1, TRUE, TRUE, FALSE)))
      I == [r \in 1..3 |-> Intensity(Flip([m EXCEPT !.ref = r], FlipFor(m, r)))]
  IN /\ I[1] = I[2] /\ I[2] = I[3]
     /\ I[1] # 0                                    \* not vacuous
     /\ (Even(spins[1]) \/ 3 \notin subs) => Intensity(m) = I[2]

SingleSubsystem ==
  LET m == TLCEval(WithValues(Base(spins, {Min(subs)}, 3, TRUE, TRUE, FALSE)))
      k == Min(subs)
  IN Intensity(m) = FoldFunction(Add, 0, [l \in Helicities(m) |-> CNorm(SubsystemAmplitude(m, k, l))])

(* every LS combination of subsystem k as a chain of its own *)
LSModel(s, k, ph, dh) ==
  LET pls == IF ph THEN {Pick(ProdLSs(s, k))} ELSE ProdLSs(s, k)
      dls == IF dh THEN {Pick(DecLSs(s, k))} ELSE DecLSs(s, k)
      q == SetToSeq(pls \X dls)
  IN WithValues([Base(s, {k}, k, ph, dh, FALSE) EXCEPT
        !.chains = [n \in 1..Len(q) |-> Chain(s, k, q[n][1], q[n][2], Value(3))]])

(* the helicity couplings that it amounts to *)
RecoupledH(m, k) ==
  LET ch == m.chains[1]
      s  == m.spins
      pm == TRUE
      prod(lR, lk) == CSumOver([ls \in ProdLSs(s, k) |->
            LET c == [ch EXCEPT !.prodLS = ls]
                l == [[n \in 1..4 |-> 0] EXCEPT ![k + 1] = lk]
            IN CScale(ProdFactor(m, c, lR, l), m.H[LSKey(c, "production", ls)])], ProdLSs(s, k))
      dec(li, lj) == CSumOver([ls \in DecLSs(s, k) |->
            LET c == [ch EXCEPT !.decLS = ls]
                l == [[n \in 1..4 |-> 0] EXCEPT ![ChildI(k) + 1] = li, ![ChildJ(k) + 1] = lj]
            IN CScale(DecFactor(m, c, l), m.H[LSKey(c, "decay", ls)])], DecLSs(s, k))
      P1 == Proj(ch.J) \X Proj(s[k + 1])
      D1 == Proj(s[ChildI(k) + 1]) \X Proj(s[ChildJ(k) + 1])
      prodTab == IF m.prodHel
                 THEN [q \in { HelKey(ch, "production", p[1], p[2]) : p \in P1 } |->
                         IF q \in DOMAIN m.H THEN m.H[q] ELSE CZero]
                 ELSE [q \in { HelKey(ch, "production", p[1], p[2]) : p \in P1 } |->
                         LET p == CHOOSE p \in P1 : HelKey(ch, "production", p[1], p[2]) = q IN prod(p[1], p[2])]
      decTab == IF m.decHel
                THEN [q \in { HelKey(ch, "decay", p[1], p[2]) : p \in D1 } |->
                         IF q \in DOMAIN m.H THEN m.H[q] ELSE CZero]
                ELSE [q \in { HelKey(ch, "decay", p[1], p[2]) : p \in D1 } |->
                         LET p == CHOOSE p \in D1 : HelKey(ch, "decay", p[1], p[2]) = q IN dec(p[1], p[2])]
  IN prodTab @@ decTab

BasisEquivalent ==
  LET k == Min(subs) IN
  \A b \in { <<FALSE, FALSE>>, <<TRUE, FALSE>>, <<FALSE, TRUE>> } :
    LET m == TLCEval(LSModel(spins, k, b[1], b[2]))
        hm == [m EXCEPT !.prodHel = TRUE, !.decHel = TRUE, !.chains = <<m.chains[1]>>, !.H = TLCEval(RecoupledH(m, k))]
    IN AmplitudeTable(m) = AmplitudeTable(hm)

CoefficientEquivalent ==
  \A b \in BOOLEAN \X BOOLEAN :
    LET m == TLCEval(WithValues(Base(spins, subs, 1, b[1], b[2], FALSE)))
        c == [m EXCEPT !.coef = TRUE]
        term(n, l) == LET ch == m.chains[n] IN
            [coupl |-> CouplingKeys(m, ch, IsobarHelicity(ch, l), l),
             coeff |-> CouplingKeys(c, ch, IsobarHelicity(ch, l), l)]
        terms == { term(n, l) : n \in DOMAIN m.chains, l \in Helicities(m) }
        used == { t \in terms : t.coupl \subseteq DOMAIN m.H }
        key(t) == CHOOSE q \in t.coeff : TRUE
        cm == [c EXCEPT !.H = [q \in { key(t) : t \in used } |->
                   ProdKeys(m.H, (CHOOSE t \in used : key(t) = q).coupl)]]
    IN /\ \A t, u \in used : (key(t) = key(u)) <=> (t.coupl = u.coupl)
       /\ AmplitudeTable(m) = AmplitudeTable(cm)

AnglesCompose ==
  /\ \A i \in 1..3 : \A x, y, z \in 1..3 :
       /\ Rot(Zeta(H0, i, x, y), Zeta(H0, i, y, z)) = Zeta(H0, i, x, z)
       /\ Zeta(H0, i, x, x) = RotZero
  /\ \A x, y, z \in 1..3 : Rot(ThetaHat(H0, x, y), ThetaHat(H0, y, z)) \in
                             { ThetaHat(H0, x, z), FullTurn(ThetaHat(H0, x, z)) }
  /\ \A x \in 1..3 : ThetaHat(H0, x, x) = RotZero
  /\ \A x, y \in 1..3 : Rot(ThetaHat(H0, x, y), ThetaHat(H0, y, x)) = RotZero

Dim(s) == (s[1] + 1) * (s[2] + 1) * (s[3] + 1) * (s[4] + 1)
Init == /\ what \in Theorems
        /\ spins \in { s \in SpinSet \X SpinSet \X SpinSet \X SpinSet :
                         Even(s[1] + s[2] + s[3] + s[4]) /\ Dim(s) <= MaxDim }
        /\ subs \in IF what \in {"reference"} THEN { S \in SUBSET {1, 2, 3} : Cardinality(S) >= 2 }
                    ELSE IF what = "coefficient" THEN {{1, 2, 3}} ELSE { {k} : k \in 1..3 }
        /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<spins, subs, what>>

Holds == done =>
  CASE what = "reference" -> ReferenceIndependent
    [] what = "single" -> SingleSubsystem
    [] what = "basis" -> BasisEquivalent
    [] what = "coefficient" -> CoefficientEquivalent
    [] what = "angles" -> AnglesCompose
============================================================================
