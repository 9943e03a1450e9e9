-------------------------------- MODULE DPD --------------------------------
(***************************************************************************)
(* Dalitz-plot decomposition: what an amplitude model of a three-body      *)
(* decay means.                                                            *)
(*                                                                         *)
(* A model m is a record                                                   *)
(*   spins    <<2 j0, 2 j1, 2 j2, 2 j3>>                                   *)
(*   ref      reference subsystem of the alignment                         *)
(*   prodHel, decHel   basis of the production and decay couplings         *)
(*   coef     one coefficient per chain instead of two couplings           *)
(*   chains   sequence of chains: k (spectator), R (label), J (2 spin),    *)
(*            prodLS, decLS = <<L, 2S>>, prodSwap, decSwap (order of the   *)
(*            children), x (value of the lineshape)                        *)
(*   H        values of the couplings, by key                              *)
(*   h        half angles (module Angles)                                  *)
(***************************************************************************)
EXTENDS Spin, Angles, Functions

Str(n) == ToString(n)
HelKey(ch, typ, a, b) == typ \o "|" \o ch.R \o "|" \o Str(a) \o "|" \o Str(b)
LSKey(ch, typ, ls)    == "LS," \o typ \o "|" \o ch.R \o "|" \o Str(2 * ls[1]) \o "|" \o Str(ls[2])

CoefBase(m) == IF m.prodHel /\ m.decHel THEN "hel"
               ELSE IF m.prodHel THEN "LS,\\lambda"
               ELSE IF m.decHel THEN "\\lambda,LS"
               ELSE "LS"

(* keys of the coupling parameters in term lR of chain ch at helicities l *)
CouplingKeys(m, ch, lR, l) ==
  LET k == ch.k
      i == ChildI(k)
      j == ChildJ(k)
      pi == IF m.prodHel THEN Str(lR) \o "|" \o Str(l[k + 1])
            ELSE Str(2 * ch.prodLS[1]) \o "|" \o Str(ch.prodLS[2])
      di == IF m.decHel THEN Str(l[i + 1]) \o "|" \o Str(l[j + 1])
            ELSE Str(2 * ch.decLS[1]) \o "|" \o Str(ch.decLS[2])
  IN IF m.coef
     THEN { CoefBase(m) \o "|" \o ch.R \o "|" \o pi \o "|" \o di }
     ELSE { (IF m.prodHel THEN "production" ELSE "LS,production") \o "|" \o ch.R \o "|" \o pi,
            (IF m.decHel THEN "decay" ELSE "LS,decay") \o "|" \o ch.R \o "|" \o di }

RECURSIVE ProdKeys(_, _)
ProdKeys(H, ks) == IF ks = {} THEN COne
                   ELSE LET q == CHOOSE q \in ks : TRUE
                        IN CMul(IF q \in DOMAIN H THEN H[q] ELSE CZero, ProdKeys(H, ks \ {q}))

(* LS factors, with the children in the order in which the chain has them *)
ProdFactor(m, ch, lR, l) ==
  LET k == ch.k IN
  IF m.prodHel THEN 1
  ELSE IF ch.prodSwap
       THEN Recoupling(m.spins[1], ch.prodLS[1], ch.prodLS[2], m.spins[k + 1], l[k + 1], ch.J, lR)
       ELSE Recoupling(m.spins[1], ch.prodLS[1], ch.prodLS[2], ch.J, lR, m.spins[k + 1], l[k + 1])
DecFactor(m, ch, l) ==
  LET i == ChildI(ch.k)
      j == ChildJ(ch.k)
  IN IF m.decHel THEN 1
     ELSE IF ch.decSwap
          THEN Recoupling(ch.J, ch.decLS[1], ch.decLS[2], m.spins[j + 1], l[j + 1], m.spins[i + 1], l[i + 1])
          ELSE Recoupling(ch.J, ch.decLS[1], ch.decLS[2], m.spins[i + 1], l[i + 1], m.spins[j + 1], l[j + 1])

(* helicity that the isobar must have: lambda_0 = lambda_R - lambda_k *)
IsobarHelicity(ch, l) == l[1] + l[ch.k + 1]
Conserved(ch, l) == LET lR == IsobarHelicity(ch, l)
                    IN Abs(lR) <= ch.J /\ Even(lR + ch.J)

(* one decay chain *)
ChainAmplitude(m, ch, l) ==
  IF ~Conserved(ch, l) THEN CZero
  ELSE LET k == ch.k
           i == ChildI(k)
           j == ChildJ(k)
           lR == IsobarHelicity(ch, l)
           th == Theta(m.h, k)
           sgn == Mul(SignPow((m.spins[k + 1] - l[k + 1]) \div 2),
                      SignPow((m.spins[j + 1] - l[j + 1]) \div 2))
           real == Mul(sgn, Mul(WignerD(ch.J, lR, l[i + 1] - l[j + 1], th[1], th[2]),
                                Mul(ProdFactor(m, ch, lR, l), DecFactor(m, ch, l))))
       IN IF real = 0 THEN CZero
          ELSE CScale(real, CMul(ch.x, ProdKeys(m.H, CouplingKeys(m, ch, lR, l))))

Helicities(m) == Proj(m.spins[1]) \X Proj(m.spins[2]) \X Proj(m.spins[3]) \X Proj(m.spins[4])
Subsystems(m) == { m.chains[n].k : n \in DOMAIN m.chains }

(* amplitude of subsystem k at helicities l *)
SubsystemAmplitude(m, k, l) ==
  CSum([n \in DOMAIN m.chains |-> IF m.chains[n].k = k THEN ChainAmplitude(m, m.chains[n], l) ELSE CZero])

AmplitudeTable(m) ==
  [k \in Subsystems(m) |-> [l \in Helicities(m) |-> SubsystemAmplitude(m, k, l)]]

(* Alignment matrix of state i in subsystem k: first index is summed over  *)
(* (primed helicity), second is the helicity in the reference frame        *)
AlignMatrix(m, i, k) ==
  LET z == Zeta(m.h, i, k, m.ref)
      J == m.spins[i + 1]
  IN [a \in Proj(J) |-> [b \in Proj(J) |->
        IF i = 0 THEN WignerD(J, b, a, z[1], z[2]) ELSE WignerD(J, a, b, z[1], z[2])]]

(* contract the amplitude tensor of one subsystem with the alignment       *)
(* matrices, one state at a time                                           *)
Contract(m, T, i, M) ==
  [l \in Helicities(m) |->
     FoldFunction(CAdd, CZero,
       [a \in Proj(m.spins[i + 1]) |->
          LET lp == [l EXCEPT ![i + 1] = a]
          IN IF T[lp] = CZero THEN CZero ELSE CScale(M[a][l[i + 1]], T[lp])])]

AlignSubsystem(m, T, k) ==
  LET T0 == TLCEval(Contract(m, T, 0, TLCEval(AlignMatrix(m, 0, k))))
      T1 == TLCEval(Contract(m, T0, 1, TLCEval(AlignMatrix(m, 1, k))))
      T2 == TLCEval(Contract(m, T1, 2, TLCEval(AlignMatrix(m, 2, k))))
  IN TLCEval(Contract(m, T2, 3, TLCEval(AlignMatrix(m, 3, k))))

IntensityOf(m, A) ==
  LET B == TLCEval([k \in Subsystems(m) |-> AlignSubsystem(m, A[k], k)])
      total == [l \in Helicities(m) |->
                  CNorm(FoldFunction(CAdd, CZero, [k \in Subsystems(m) |-> B[k][l]]))]
  IN FoldFunction(Add, 0, total)

Intensity(m) == IntensityOf(m, TLCEval(AmplitudeTable(m)))

----------------------------------------------------------------------------
(* The coupling parameters a model needs: those of every allowed helicity  *)
(* configuration.                                                          *)
RequiredCouplings(m) ==
  UNION { LET ch == m.chains[n] IN
          UNION { IF Conserved(ch, l) THEN CouplingKeys(m, ch, IsobarHelicity(ch, l), l) ELSE {}
                  : l \in Helicities(m) }
          : n \in DOMAIN m.chains }

(* default reference: the subsystem with most chains, smallest id on ties  *)
NChains(m, k) == Cardinality({ n \in DOMAIN m.chains : m.chains[n].k = k })
DefaultReference(m) ==
  CHOOSE k \in Subsystems(m) :
     \A q \in Subsystems(m) : \/ NChains(m, q) < NChains(m, k)
                              \/ NChains(m, q) = NChains(m, k) /\ k <= q

(* Flip the sign of one subsystem: what a different reference amounts to   *)
(* for a decaying particle of half-integer spin, see module Angles: only   *)
(* hat_{3(1)} involves the full turn.                                      *)
FlipFor(m, ref) == IF Even(m.spins[1]) THEN {}
                   ELSE IF ref = 1 THEN {3} ELSE IF ref = 3 THEN {1} ELSE {}
Flip(m, F) == [m EXCEPT !.chains = [n \in DOMAIN m.chains |->
                 IF m.chains[n].k \in F
                 THEN [m.chains[n] EXCEPT !.x = CSub(CZero, @)] ELSE m.chains[n]]]
============================================================================
