--------------------------- MODULE TraceReference ---------------------------
(***************************************************************************)
(* Judges the intensities of one decay formulated with each reference      *)
(* subsystem.  ev.I[r][f]: reference r, with the sign of the amplitudes of *)
(* subsystem f flipped (f = 0: none).  ev.sameAs: references r for which   *)
(* the model formulated without request equals the one formulated with r.  *)
(* ev.I is empty if only that is judged.                                   *)
(***************************************************************************)
EXTENDS DPD, TraceBase

VARIABLES idx, verdict

Flipped(ev, r) == LET F == FlipFor([spins |-> ev.spins], r)
                  IN IF F = {} THEN 0 ELSE CHOOSE f \in F : TRUE
I(ev, r, f) == ev.I[r][f + 1]

Judge(ev) ==
  IF ev.raised # "" THEN {"raised " \o ev.raised}
  ELSE LET subs == { ev.chains[n].k : n \in DOMAIN ev.chains }
           m == [chains |-> ev.chains, spins |-> ev.spins]
           (* references between which no full turn is passed *)
           exact(r, q) == \/ Even(ev.spins[1])
                          \/ \A f \in FlipFor(m, r) \cup FlipFor(m, q) : f \notin subs
           default == Clause("default reference", DefaultReference(m) \in SeqSet(ev.sameAs))
       IN IF ev.I = <<>> THEN default ELSE
            { "intensity of reference " \o Str(r) \o " differs from that of reference 2" :
                r \in { r \in {1, 3} : I(ev, r, Flipped(ev, r)) # I(ev, 2, 0) } }
       \cup { "intensities of references " \o Str(q[1]) \o " and " \o Str(q[2]) \o " differ" :
                q \in { q \in (1..3) \X (1..3) :
                          q[1] < q[2] /\ exact(q[1], q[2]) /\ I(ev, q[1], 0) # I(ev, q[2], 0) } }
       \cup { "undefined intensity" : r \in { r \in 1..3 : I(ev, r, 0)[1] < 0 } }
       \cup default

Init == idx \in 1..Len(Trace) /\ verdict = "pending"
Next == /\ verdict = "pending"
        /\ LET fails == Judge(Trace[idx])
           IN /\ Report(idx, fails)
              /\ verdict' = IF fails = {} THEN "accepted" ELSE "rejected"
        /\ UNCHANGED idx
============================================================================
