----------------------------- MODULE MCLineshapes -----------------------------
(***************************************************************************)
(* Consistency of module Lineshapes on a grid of integer arguments: form   *)
(* factors are one at z = 1 and fall off as z^l, widths are Gamma0 at the  *)
(* pole and symmetric in the two masses, channels add up in any order.     *)
(***************************************************************************)
EXTENDS Lineshapes

CONSTANTS MaxL, MaxMass, MaxS

VARIABLES v, done

Init == /\ v \in [m0 : 3..(2 * MaxMass + 2), g0 : {1, 3}, a : 1..MaxMass, b : 1..MaxMass, l : 0..MaxL,
                  R : {1, 2}, s : { k * k : k \in 3..MaxS }, phsp : {"standard", "abs", "stub"}]
        /\ v.a <= v.b
        /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED v

Everywhere(Op(_)) == \A n \in 1..4 : Op(Primes[n])

Normalised == Everywhere(LAMBDA p : FEq(BlattWeisskopf2(v.l, <<1, 1>>, p), <<1, 1>>, p))
(* the two simplest form factors of the literature *)
Known == Everywhere(LAMBDA p :
  LET z == Z(v.s, v.a, v.b, v.R, p) IN
  /\ v.l = 0 => FEq(BlattWeisskopf2(0, z, p), <<1, 1>>, p)
  /\ v.l = 1 => FEq(BlattWeisskopf2(1, z, p), FDiv(FMul(<<2, 1>>, z, p), FAdd(<<1, 1>>, z, p), p), p)
  /\ v.l = 2 => FEq(BlattWeisskopf2(2, z, p),
                    FDiv(FMul(<<13, 1>>, FSqr(z, p), p),
                         FAdd(FSqr(FAdd(z, <<p - 3, 1>>, p), p), FMul(<<9, 1>>, z, p), p), p), p))
AtPole == LET w == [v EXCEPT !.s = v.m0 * v.m0] IN
  Above(w.s, w.a, w.b) # 0 => /\ Everywhere(LAMBDA p : FEq(Width2(w, p), Fr(v.g0 * v.g0, 1, p), p))
                              /\ WidthDir(w) = 0
Symmetric == LET w == [v EXCEPT !.a = v.b, !.b = v.a] IN
  /\ Everywhere(LAMBDA p : FEq(Width2(w, p), Width2(v, p), p))
  /\ WidthDir(w) = WidthDir(v)
KallenIsLambda == Everywhere(LAMBDA p : Kallen(v.s, v.a * v.a, v.b * v.b, p) = Lambda(v.s, v.a, v.b, p))
Ch(a, b, l) == [g0 |-> v.g0, a |-> a, b |-> b, l |-> l, R |-> v.R]
Additive ==
  LET one == Ch(v.a, v.b, v.l)
      two == Ch(v.b, v.b, 0)
      r == CHOOSE k \in 1..MaxS : k * k = v.s
      W(cs, p) == ChannelSum([m0 |-> v.m0, r |-> r, channels |-> cs], Len(cs), p)
  IN Everywhere(LAMBDA p : /\ FEq(W(<<one, two>>, p), W(<<two, one>>, p), p)
                           /\ FEq(W(<<one, two>>, p), FAdd(W(<<one>>, p), W(<<two>>, p), p), p))
Holds == done => Normalised /\ Known /\ AtPole /\ Symmetric /\ KallenIsLambda /\ Additive
================================================================================
