--------------------------- MODULE TraceInvariants ---------------------------
(***************************************************************************)
(* Judges mass symbols and invariants of recorded models: at integer       *)
(* masses and invariants, sigma_k is the sum of the squared masses minus   *)
(* the other two, and m_i belongs to state i.                              *)
(***************************************************************************)
EXTENDS Kinematics, TraceBase

VARIABLES idx, verdict

MassName(i) == "m" \o ToString(i)
SigmaName(k) == "sigma" \o ToString(k)
MassNames == { MassName(i) : i \in 0..3 }
SumSquares(m) == m[1] * m[1] + m[2] * m[2] + m[3] * m[3] + m[4] * m[4]

(* what is eliminated, given the other two *)
ThirdMandelstam(ev, x, y) == SumSquares(ev.at) - ev.s[x] - ev.s[y]

JudgeInvariants(ev) ==
  IF ev.raised # "" THEN {"raised " \o ev.raised}
  ELSE Clause("names of invariants", SeqSet(ev.names) = { SigmaName(k) : k \in 1..3 } /\ Len(ev.names) = 3)
  \cup { "invariant " \o ToString(k) : k \in { k \in 1..3 :
           ~ /\ SigmaName(k) \in DOMAIN ev.values
             /\ ev.values[SigmaName(k)] = <<ThirdMandelstam(ev, Next(k), Prev(k)), 1>>
             /\ SeqSet(ev.refs[SigmaName(k)]) = MassNames \cup { SigmaName(Next(k)), SigmaName(Prev(k)) } } }
  \cup { "third Mandelstam " \o ToString(t.x) \o ToString(t.y) : t \in { t \in SeqSet(ev.third) :
           t.value # <<ThirdMandelstam(ev, t.x, t.y), 1>> } }
  \cup Clause("masses", /\ DOMAIN ev.masses = MassNames
                        /\ \A i \in 0..3 : ev.masses[MassName(i)] = ev.m[i + 1])
  \cup Clause("defaults of masses", \A i \in 0..3 : /\ MassName(i) \in DOMAIN ev.defaults
                                                   /\ ev.defaults[MassName(i)] = ev.m[i + 1])
  \cup Clause("one symbol per mass", ev.sameSymbols)
  \cup { "mass symbol of " \o r.name : r \in { r \in SeqSet(ev.resonances) :
           r.symbol \in MassNames \/ ~r.fromNodeSame \/ ~r.stable } }
  \cup Clause("resonances share a symbol exactly if they have one LaTeX name",
              \A a, b \in SeqSet(ev.resonances) : (a.symbol = b.symbol) <=> (a.latex = b.latex))

Init == idx \in 1..Len(Trace) /\ verdict = "pending"
Next_ == /\ verdict = "pending"
         /\ LET fails == JudgeInvariants(Trace[idx])
            IN /\ Report(idx, fails)
               /\ verdict' = IF fails = {} THEN "accepted" ELSE "rejected"
         /\ UNCHANGED idx
==============================================================================
