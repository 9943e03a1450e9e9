----------------------------- MODULE MCStructure -----------------------------
(***************************************************************************)
(* Every arrangement of a production node over a small set of numbers,     *)
(* well-formed or not: checks that the queries of module Structure are     *)
(* consistent, and prints the arrangements for the conformance check.      *)
(***************************************************************************)
EXTENDS Structure, TLC, Json

CONSTANTS Numbers      \* of the outer particles; 9: not a state

VARIABLES shape, done

Outer4 == Numbers
P(n, slot) == IF n = 9 THEN [type |-> "particle", index |-> -1, slot |-> slot]
              ELSE [type |-> "state", index |-> n, slot |-> slot]
R == [type |-> "particle", index |-> -1, slot |-> "R"]
N(p, a, b) == [type |-> "node", parent |-> p, c1 |-> a, c2 |-> b, ls |-> <<>>]

Chain(s) ==
  LET a == P(s.a, "a") b == P(s.b, "b") c == P(s.c, "c") p == P(s.p, "p")
      dec == N(R, a, IF s.nested THEN N(R, b, c) ELSE b)
  IN CASE s.arr = "node first"  -> N(p, dec, c)
       [] s.arr = "node second" -> N(p, c, dec)
       [] s.arr = "no node"     -> N(p, a, b)
       [] s.arr = "two nodes"   -> N(p, dec, N(R, c, a))

Swap(ch) == [ch EXCEPT !.c1 = ch.c2, !.c2 = ch.c1]
Sorted(f) == f[1].index < f[2].index /\ f[2].index < f[3].index

Consistent(ch) ==
  ValidChain(ch) =>
    /\ Sorted(FinalState(ch))
    /\ { FinalState(ch)[n] : n \in 1..3 } = {Products(ch)[1], Products(ch)[2], Spectator(ch)}
    /\ ValidChain(Swap(ch))
    /\ FinalState(Swap(ch)) = FinalState(ch) /\ Spectator(Swap(ch)) = Spectator(ch)
    /\ Resonance(Swap(ch)) = R

Init == /\ shape \in [p : Numbers, a : Numbers, b : Numbers, c : Numbers, nested : BOOLEAN,
                      arr : {"node first", "node second", "no node", "two nodes"}]
        /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED shape
        /\ PrintT("HISTORY " \o ToJson(shape))
Holds == Consistent(Chain(shape))
============================================================================
