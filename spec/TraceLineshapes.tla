---------------------------- MODULE TraceLineshapes ----------------------------
(***************************************************************************)
(* Judges values of lineshapes recorded at integer arguments.  An observed *)
(* quantity is a record [dir, q]: the power of i, and its absolute square  *)
(* as fractions modulo the primes; dir = -1 if it lies on no axis, -2 if   *)
(* it vanishes.                                                            *)
(***************************************************************************)
EXTENDS Lineshapes, TraceBase

VARIABLES idx, verdict

Square(o, q(_)) == \A n \in 1..4 : FEq(o.q[n], q(Primes[n]), Primes[n])
Vanishes(q(_))  == \A n \in 1..4 : q(Primes[n])[1] = 0
Same(o, dir, q(_)) == IF Vanishes(q) THEN o.dir = -2 ELSE o.dir = dir % 4 /\ Square(o, q)
UpToSign(o, dir, q(_)) == IF Vanishes(q) THEN o.dir = -2 ELSE o.dir >= 0 /\ (o.dir + dir) % 2 = 0 /\ Square(o, q)

WidthOf(o, v) == LET q(p) == TimesM0(v, Width2(v, p), p)
                 IN IF SignKnown(v) THEN Same(o, 1 + WidthDir(v), q) ELSE UpToSign(o, 1 + WidthDir(v), q)

JudgeLine(ev) ==
  LET v == ev.v IN
  IF ev.raised # "" THEN {"raised " \o ev.raised}
  ELSE CASE ev.kind \in {"energy dependent", "relativistic"} -> Clause("width", WidthOf(ev.w, v))
    [] ev.kind = "simple" -> Clause("width", Same(ev.w, 1, LAMBDA p : PlainW2(v, p)))
    [] ev.kind = "multichannel" -> Clause("sum of channel widths", Same(ev.w, 1, LAMBDA p : MultiW2(v, p)))
    [] ev.kind = "channel" ->
         Clause("channel width", Same(ev.w, 0, LAMBDA p : FSqr(ChannelWidth(v, v.channels[1], p), p)))
    [] ev.kind = "bugg" -> Clause("width without exponential", Same(ev.w, BuggDir(v), LAMBDA p : BuggW2(v, p)))
                     \cup Clause("exponential", \A n \in 1..4 : FEq(ev.log[n], BuggLog(v, Primes[n]), Primes[n]))
    [] ev.kind = "flatte one" ->
         LET q(p) == TimesM0(v, FMul(<<1, 1>>, IF v.g1 # 0 THEN FlatteTerm2(v, v.g1, v.a1, v.b1, p)
                                               ELSE FlatteTerm2(v, v.g2, v.a2, v.b2, p), p), p)
             d == IF v.g1 # 0 THEN FlatteDir(v, v.a1, v.b1) ELSE FlatteDir(v, v.a2, v.b2)
         IN Clause("width of one channel", Same(ev.w, 1 + d, q))
    [] ev.kind = "flatte two" ->
         LET q(p) == TimesM0(v, FSqr(FAdd(FlatteRational(v, v.g1, v.a1, p), FlatteRational(v, v.g2, v.a2, p), p), p), p)
         IN Clause("sum of two widths", UpToSign(ev.w, 1, q))
    [] ev.kind = "min L" ->
         Clause("real part", Same(ev.re, IF v.m0 * v.m0 > v.s THEN 0 ELSE 2, LAMBDA p : MinLRe2(v, p)))
    \cup Clause("imaginary part", Same(ev.im, 3, LAMBDA p : MinLIm2(v, p)))
    [] ev.kind = "form factor" -> Clause("form factor", Same(ev.w, 0, LAMBDA p : FF2(v.s, v.a, v.b, v.l, v.R, p)))

Init == idx \in 1..Len(Trace) /\ verdict = "pending"
Next_ == /\ verdict = "pending"
         /\ LET fails == JudgeLine(Trace[idx])
            IN /\ Report(idx, fails)
               /\ verdict' = IF fails = {} THEN "accepted" ELSE "rejected"
         /\ UNCHANGED idx
================================================================================
