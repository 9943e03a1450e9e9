------------------------------ MODULE Lineshapes ------------------------------
(***************************************************************************)
(* Lineshapes at integer arguments.  A quantity is either rational or the  *)
(* square root of a rational times a power of i: it is described by        *)
(*    dir  power of i (0..3), and                                          *)
(*    q(p) = <<n, d>>: its absolute square n/d modulo the prime p.         *)
(* Every lineshape v is described by w = (m0^2 - s) - N/v with N = 1 or    *)
(* m0 Gamma0 as documented, so that w = i m0 Gamma(s).                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Primes == <<42719, 46337, 46327, 46309>>

(* arithmetic with fractions <<n, d>> modulo p *)
M(a, b, p)    == ((a % p) * (b % p)) % p
Fr(n, d, p)   == <<n % p, d % p>>
FMul(x, y, p) == <<M(x[1], y[1], p), M(x[2], y[2], p)>>
FDiv(x, y, p) == <<M(x[1], y[2], p), M(x[2], y[1], p)>>
FAdd(x, y, p) == <<(M(x[1], y[2], p) + M(y[1], x[2], p)) % p, M(x[2], y[2], p)>>
FSqr(x, p)    == FMul(x, x, p)
FEq(x, y, p)  == M(x[1], y[2], p) = M(y[1], x[2], p)
RECURSIVE FPow(_, _, _)
FPow(x, n, p) == IF n = 0 THEN <<1, 1>> ELSE FMul(x, FPow(x, n - 1, p), p)

RECURSIVE Rising(_, _, _)
Rising(a, b, p) == IF a > b THEN 1 ELSE M(b, Rising(a, b - 1, p), p)       \* a (a+1) ... b

(* Blatt-Weisskopf B_l^2(z) = 1 / (z |h_l(sqrt z)|^2), normalised to       *)
(* B_l^2(1) = 1, with the series of the spherical Hankel function          *)
Coeff(l, k, p) == Fr(M(Rising(l - k + 1, 2 * l - k, p), Rising(l - k + 1, 2 * l - 2 * k, p), p), Rising(1, k, p), p)
RECURSIVE HankelSeries(_, _, _, _)
HankelSeries(l, k, z, p) ==
  IF k < 0 THEN <<0, 1>>
  ELSE FAdd(HankelSeries(l, k - 1, z, p), FMul(FMul(Coeff(l, k, p), Fr(4 ^ k, 1, p), p), FPow(z, k, p), p), p)
BlattWeisskopf2(l, z, p) ==
  FDiv(FMul(FPow(z, l, p), HankelSeries(l, l, <<1, 1>>, p), p), HankelSeries(l, l, z, p), p)

(* (s - (a + b)^2) (s - (a - b)^2), for masses a, b *)
Above(s, a, b) == s - (a + b) * (a + b)
Below(s, a, b) == s - (a - b) * (a - b)
Lambda(s, a, b, p) == M(Above(s, a, b), Below(s, a, b), p)
(* the same for squared masses: s^2 + x^2 + y^2 - 2 (s x + s y + x y) *)
Kallen(s, x, y, p) == (M(s - x - y, s - x - y, p) - 4 * M(x, y, p)) % p

Z(s, a, b, R, p) == Fr(M(Lambda(s, a, b, p), M(R, R, p), p), M(4, s, p), p)
FF2(s, a, b, l, R, p) == BlattWeisskopf2(l, Z(s, a, b, R, p), p)

Neg(n) == IF n < 0 THEN 1 ELSE 0
(* phase-space factor sqrt(s - (a+b)^2) sqrt(s - (a-b)^2) / s *)
RhoDir(s, a, b, kind) == IF kind = "standard" THEN Neg(Above(s, a, b)) + Neg(Below(s, a, b)) ELSE 0
AbsLambda(s, a, b, p) == IF (Neg(Above(s, a, b)) + Neg(Below(s, a, b))) % 2 = 1
                         THEN (-Lambda(s, a, b, p)) % p ELSE Lambda(s, a, b, p)
Stub(s, a, b) == s + 2 * (a + b)
Rho2(s, a, b, kind, p) == IF kind = "stub" THEN Fr(M(Stub(s, a, b), Stub(s, a, b), p), 1, p)
                          ELSE Fr(AbsLambda(s, a, b, p), M(s, s, p), p)

(* energy-dependent width: Gamma0 (FF/FF0)^2 rho/rho0; squared *)
Width2(v, p) ==
  LET s0 == v.m0 * v.m0 IN
  FMul(FSqr(FMul(Fr(v.g0, 1, p),
                 FDiv(FF2(v.s, v.a, v.b, v.l, v.R, p), FF2(s0, v.a, v.b, v.l, v.R, p), p), p), p),
       FDiv(Rho2(v.s, v.a, v.b, v.phsp, p), Rho2(s0, v.a, v.b, v.phsp, p), p), p)
WidthDir(v) == (4 + RhoDir(v.s, v.a, v.b, v.phsp) - RhoDir(v.m0 * v.m0, v.a, v.b, v.phsp)) % 4
TimesM0(v, x, p) == FMul(Fr(M(v.m0, v.m0, p), 1, p), x, p)

(* the sign of form factors below threshold is not predicted *)
SignKnown(v) == v.l = 0 \/ (Above(v.s, v.a, v.b) > 0 /\ Above(v.m0 * v.m0, v.a, v.b) > 0)

(* plain: constant width *)
PlainW2(v, p) == FSqr(Fr(M(v.m0, v.g0, p), 1, p), p)

(* one channel: Gamma0 m0 / sqrt(s) FF^2, with r = sqrt(s) an integer *)
ChannelWidth(v, c, p) == FMul(Fr(M(c.g0, v.m0, p), v.r, p), FF2(v.r * v.r, c.a, c.b, c.l, c.R, p), p)
RECURSIVE ChannelSum(_, _, _)
ChannelSum(v, n, p) == IF n = 0 THEN <<0, 1>>
                       ELSE FAdd(ChannelSum(v, n - 1, p), ChannelWidth(v, v.channels[n], p), p)
MultiW2(v, p) == FSqr(FMul(Fr(v.m0, 1, p), ChannelSum(v, Len(v.channels), p), p), p)

(* Bugg: (s - sA) / (m0^2 - sA) m0 Gamma0 exp(-gamma s), sA = a^2 - b^2/2 *)
Bugg2W(v) == 2 * v.s - (2 * v.a * v.a - v.b * v.b)
Bugg0(v)  == 2 * v.m0 * v.m0 - (2 * v.a * v.a - v.b * v.b)
BuggW2(v, p) == FSqr(FMul(Fr(M(v.m0, v.g0, p), 1, p), Fr(Bugg2W(v), Bugg0(v), p), p), p)
BuggDir(v) == IF (Bugg2W(v) < 0) = (Bugg0(v) < 0) THEN 1 ELSE 3
BuggLog(v, p) == Fr(-v.gamma * v.s, 1, p)

(* Flatte: m0 (Gamma1 p/p0 + Gamma2 q/q0) m0/sqrt(s); both are normalised  *)
(* to the break-up momentum of the second channel at m0                    *)
FlatteTerm2(v, g, a, b, p) ==
  FMul(Fr(M(g, g, p), 1, p),
  FMul(FDiv(Fr(AbsLambda(v.s, a, b, p), v.s, p), Fr(AbsLambda(v.m0 * v.m0, v.a2, v.b2, p), v.m0 * v.m0, p), p),
       Fr(M(v.m0, v.m0, p), v.s, p), p), p)
FlatteDir(v, a, b) == (4 + RhoDir(v.s, a, b, "standard") - RhoDir(v.m0 * v.m0, v.a2, v.b2, "standard")) % 4
(* second masses zero and sqrt(s) = r: all break-up momenta are rational   *)
FlatteRational(v, g, a, p) ==
  FMul(Fr(g, 1, p), FMul(FDiv(Fr(v.r * v.r - a * a, v.r, p), Fr(v.m0 * v.m0 - v.a2 * v.a2, v.m0, p), p),
                         Fr(v.m0, v.r, p), p), p)

(* min-L Breit-Wigner: 1/v = (m0^2 - s - i m0 Gamma) / F with              *)
(* F = FFprod/FF0prod FFdec/FF0dec; production in M -> sqrt(s), spectator   *)
ZProd(v, s, p) == Fr(M(Kallen(v.M * v.M, s, v.c * v.c, p), M(v.Rp, v.Rp, p), p), M(4, v.M * v.M, p), p)
MinLF2(v, p) ==
  LET s0 == v.m0 * v.m0 IN
  FMul(FDiv(BlattWeisskopf2(v.lp, ZProd(v, v.s, p), p), BlattWeisskopf2(v.lp, ZProd(v, s0, p), p), p),
       FDiv(FF2(v.s, v.a, v.b, v.l, v.R, p), FF2(s0, v.a, v.b, v.l, v.R, p), p), p)
MinLRe2(v, p) == FDiv(FSqr(Fr(v.m0 * v.m0 - v.s, 1, p), p), MinLF2(v, p), p)
MinLIm2(v, p) == FDiv(TimesM0(v, Width2(v, p), p), MinLF2(v, p), p)

(* what the Breit-Wigner builder makes for a chain M -> R c, R -> a b:     *)
(* 1/v = (m0^2 - s - i m0 Gamma) / (N F), where Gamma is constant (N = 1)  *)
(* or energy dependent (N = m0 Gamma0), F the form factors switched on     *)
DecayFF2(v, s, p) == IF v.decFF THEN FF2(s, v.a, v.b, v.l, v.R, p) ELSE <<1, 1>>
ProductionFF2(v, p) == IF v.prodFF THEN BlattWeisskopf2(v.lp, ZProd(v, v.m0 * v.m0, p), p) ELSE <<1, 1>>
BuilderF2(v, s, p) ==
  FMul(IF v.edw THEN TimesM0(v, Fr(M(v.g0, v.g0, p), 1, p), p) ELSE <<1, 1>>,
       FMul(DecayFF2(v, s, p), ProductionFF2(v, p), p), p)
BuilderVanishes(v) == v.edw /\ v.g0 = 0 \* no width, no resonance
BuilderRe2(v, s, p) == FDiv(FSqr(Fr(v.m0 * v.m0 - v.s, 1, p), p), BuilderF2(v, s, p), p)
BuilderIm2(v, s, p) == FDiv(IF v.edw THEN TimesM0(v, Width2(v, p), p) ELSE PlainW2(v, p), BuilderF2(v, s, p), p)
================================================================================
