------------------------------ MODULE TraceSpin ------------------------------
(***************************************************************************)
(* Judges generated spin ranges and LS couplings.  A number is a pair      *)
(* <<numerator, denominator>>, or <<>> if the code returned no exact       *)
(* rational.                                                               *)
(***************************************************************************)
EXTENDS Spin, TraceBase

VARIABLES idx, verdict

Exact(x)  == Len(x) = 2 /\ x[2] \in {1, 2}
Twice(x)  == IF x[2] = 1 THEN 2 * x[1] ELSE x[1]
AllExact(s) == \A n \in DOMAIN s : Exact(s[n])

JudgeRange(ev) ==
  IF ev.raised # "" THEN {"raised " \o ev.raised}
  ELSE IF ~AllExact(ev.got) THEN {"exact numbers"}
  ELSE Clause("projections", [n \in DOMAIN ev.got |-> Twice(ev.got[n])] = ProjSeq(ev.J))

(* from ev.a to ev.b (doubled) in steps of one *)
JudgeSpan(ev) ==
  IF ev.raised # "" THEN {"raised " \o ev.raised}
  ELSE IF ~AllExact(ev.got) THEN {"exact numbers"}
  ELSE LET len == IF ev.b < ev.a THEN 0 ELSE ((ev.b - ev.a) \div 2) + 1
       IN Clause("span", [n \in DOMAIN ev.got |-> Twice(ev.got[n])] = [n \in 1..len |-> ev.a + 2 * (n - 1)])

(* an LS coupling is <<L, S>> *)
GotLS(s) == { <<Twice(s[n][1]) \div 2, Twice(s[n][2])>> : n \in DOMAIN s }
ExactLS(s) == \A n \in DOMAIN s : Exact(s[n][1]) /\ s[n][1][2] = 1 /\ Exact(s[n][2])
Ascending(s) == \A n \in 1..(Len(s) - 1) :
                  \/ Twice(s[n][1]) < Twice(s[n + 1][1])
                  \/ Twice(s[n][1]) = Twice(s[n + 1][1]) /\ Twice(s[n][2]) < Twice(s[n + 1][2])

JudgeLS(ev) ==
  IF ev.raised # "" THEN {"raised " \o ev.raised}
  ELSE IF ~ExactLS(ev.got) THEN {"exact numbers"}
  ELSE Clause("allowed couplings", GotLS(ev.got) = LSCouplings(ev.J, ev.S1, ev.S2, ev.Lmax))
  \cup Clause("each once, in order", Ascending(ev.got))

JudgeParity(ev) ==
  IF ev.raised # "" THEN {"raised " \o ev.raised}
  ELSE IF ~ExactLS(ev.got) THEN {"exact numbers"}
  ELSE Clause("parity conserving couplings",
              GotLS(ev.got) = ParityAllowed(GotLS(ev.given), ev.eta[1], ev.eta[2], ev.eta[3]))
  \cup Clause("each once", Len(ev.got) = Cardinality(GotLS(ev.got)))
  \cup Clause("input unchanged", ev.after = ev.given)

Judge(ev) == CASE ev.kind = "range"  -> JudgeRange(ev)
               [] ev.kind = "span"   -> JudgeSpan(ev)
               [] ev.kind = "ls"     -> JudgeLS(ev)
               [] ev.kind = "parity" -> JudgeParity(ev)

Init == idx \in 1..Len(Trace) /\ verdict = "pending"
Next == /\ verdict = "pending"
        /\ LET fails == Judge(Trace[idx])
           IN /\ Report(idx, fails)
              /\ verdict' = IF fails = {} THEN "accepted" ELSE "rejected"
        /\ UNCHANGED idx
============================================================================
