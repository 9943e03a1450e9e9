------------------------------- MODULE Arith -------------------------------
(***************************************************************************)
(* Exact arithmetic for the amplitude specification.                       *)
(*                                                                         *)
(* Helicity amplitudes are polynomials, over Q, in the couplings, the      *)
(* lineshape values, cos/sin of half angles, i, and square roots of small  *)
(* integers.  The specification evaluates them under a ring homomorphism   *)
(* into the Gaussian field GF(P)[i]/(i^2+1): P = 3 (mod 4), so that i is   *)
(* not in GF(P) and complex conjugation survives as the Frobenius map, and *)
(* 2, 3, 5, 7, 11, 13, 17 are squares mod P, so that the square roots in   *)
(* Clebsch-Gordan coefficients and Wigner functions exist.  An identity    *)
(* that holds for the code holds after the homomorphism (no false alarms); *)
(* a wrong expression survives a random point with probability of order    *)
(* degree/P.  P^2 < 2^31, as TLC's integers require.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

P == 42719

Mod(a)    == a % P
Add(a, b) == (a + b) % P
Sub(a, b) == (a - b) % P
Mul(a, b) == (a * b) % P
Neg(a)    == (-a) % P

RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1
             ELSE IF n % 2 = 1 THEN (Pow((a * a) % P, n \div 2) * a) % P
             ELSE Pow((a * a) % P, n \div 2)
Inv(a)    == Pow(a, P - 2)
Div(a, b) == Mul(a, Inv(b))
(* the square root that is itself a square: multiplicative in its argument *)
Sqrt(a)   == Pow(a, (P + 1) \div 4)
IsSquare(a) == a = 0 \/ Pow(a, (P - 1) \div 2) = 1

Even(n)   == n % 2 = 0
SignPow(n) == IF Even(n) THEN 1 ELSE P - 1      \* (-1)^n
Abs(n)    == IF n < 0 THEN -n ELSE n
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Sign(n)   == IF n < 0 THEN -1 ELSE IF n = 0 THEN 0 ELSE 1

----------------------------------------------------------------------------
(* Complex numbers <<re, im>> over GF(P)                                   *)
CZero == <<0, 0>>
COne  == <<1, 0>>
CI    == <<0, 1>>
CReal(a) == <<a % P, 0>>
CAdd(x, y) == << (x[1] + y[1]) % P, (x[2] + y[2]) % P >>
CSub(x, y) == << (x[1] - y[1]) % P, (x[2] - y[2]) % P >>
CMul(x, y) == << (x[1] * y[1] - x[2] * y[2]) % P,
                 (((x[1] * y[2]) % P) + ((x[2] * y[1]) % P)) % P >>
CScale(a, x) == << (a * x[1]) % P, (a * x[2]) % P >>
CConj(x) == << x[1], (-x[2]) % P >>
CNorm(x) == (((x[1] * x[1]) % P) + ((x[2] * x[2]) % P)) % P
CInv(x)  == LET n == Inv(CNorm(x)) IN << (x[1] * n) % P, ((P - x[2]) * n) % P >>
CDiv(x, y) == CMul(x, CInv(y))

RECURSIVE SumSeq(_, _)
SumSeq(s, n) == IF n = 0 THEN 0 ELSE (SumSeq(s, n - 1) + s[n]) % P
SumF(s) == SumSeq(s, Len(s))

RECURSIVE CSumSeq(_, _)
CSumSeq(s, n) == IF n = 0 THEN CZero ELSE CAdd(CSumSeq(s, n - 1), s[n])
CSum(s) == CSumSeq(s, Len(s))

RECURSIVE CProdSeq(_, _)
CProdSeq(s, n) == IF n = 0 THEN COne ELSE CMul(CProdSeq(s, n - 1), s[n])
CProd(s) == CProdSeq(s, Len(s))

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0
                 ELSE LET x == CHOOSE x \in S : TRUE IN (f[x] + SumOver(f, S \ {x})) % P
RECURSIVE CSumOver(_, _)
CSumOver(f, S) == IF S = {} THEN CZero
                  ELSE LET x == CHOOSE x \in S : TRUE IN CAdd(f[x], CSumOver(f, S \ {x}))

----------------------------------------------------------------------------
(* Factorials, their inverses, and square roots of both, up to MaxFact.    *)
MaxFact == 17
RECURSIVE FactR(_)
FactR(n) == IF n = 0 THEN 1 ELSE (FactR(n - 1) * n) % P
FactTab     == [n \in 0..MaxFact |-> FactR(n)]
InvFactTab  == [n \in 0..MaxFact |-> Inv(FactR(n))]
SqrtFactTab == [n \in 0..MaxFact |-> Sqrt(FactR(n))]
SqrtInvFactTab == [n \in 0..MaxFact |-> Sqrt(Inv(FactR(n)))]
Fact(n)    == FactTab[n]
InvFact(n) == InvFactTab[n]
============================================================================
