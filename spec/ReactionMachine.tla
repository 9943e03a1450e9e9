--------------------------- MODULE ReactionMachine ----------------------------
(***************************************************************************)
(* A session with a reaction: transitions are collected, and renumbered,   *)
(* permuted, converted, selected and made into a decay in any order that   *)
(* is defined.                                                             *)
(***************************************************************************)
EXTENDS Reaction, Json

CONSTANTS Resonances,  \* names
          Ls,          \* couplings of a vertex, as numbers 10 L + 2S
          Hels,        \* doubled helicities of the resonance
          Depth

VARIABLES same,   \* name of each final state
          nrs,    \* numbers of the initial, final, intermediate states
          ts,     \* transitions
          stage,  \* "raw", "normal", "converted"
          hist
vars == <<same, nrs, ts, stage, hist>>

Part(name) == [name |-> name, latex |-> ""]
Made(spect, res, a, b, h) ==
  LET Nr(n) == nrs[n + 1]
      Dec(c) == IF c = 0 THEN NoLS ELSE <<c \div 10, c % 10>>
  IN [i |-> [id |-> Nr(0), p |-> Part("A"), hel |-> 0],
      f |-> [n \in 1..3 |-> [id |-> Nr(n), p |-> Part(same[n]), hel |-> 0]],
      x |-> [id |-> Nr(4), p |-> Part(res), hel |-> h],
      s |-> Nr(spect), ls |-> <<Dec(a), Dec(b)>>]

Names == { <<"a", "b", "c">>, <<"a", "a", "c">>, <<"a", "b", "a">>, <<"c", "b", "b">>, <<"a", "a", "a">> }
Numberings == { <<-1, 0, 1, 2, 3>>, <<0, 1, 2, 3, 4>>, <<3, 5, 7, 9, 11>>, <<0, 2, 4, 6, 8>>, <<-1, 1, 2, 3, 4>>,
                <<0, 1, 2, 4, 5>>, <<0, 1, 3, 4, 9>>, <<1, 2, 3, 4, 5>>,
                <<0, 1, 2, 3, -7>>, <<0, 1, 2, 4, 3>>, <<-5, 0, 1, 3, 2>>, <<9, 1, 5, 6, 0>>, <<0, 1, 2, 3, 17>> }
FewNumberings == { <<-1, 0, 1, 2, 3>>, <<0, 1, 2, 3, 4>>, <<0, 2, 4, 6, 8>>, <<5, 0, 1, 4, 2>> }
Init == /\ same \in Names
        /\ nrs \in Numberings
        /\ ts = {} /\ stage = "raw" /\ hist = <<>>

NoArg == [spect |-> 0, res |-> "", prod |-> 0, dec |-> 0, hel |-> 0, nodes |-> {}, select |-> FALSE]
Act(op, arg) == [op |-> op, arg |-> arg]

Add == \E spect \in 1..3, res \in Resonances, a \in Ls, b \in Ls, h \in Hels :
         /\ stage = "raw"
         /\ ts' = ts \cup {Made(spect, res, a, b, h)}
         /\ hist' = Append(hist, Act("add", [NoArg EXCEPT !.spect = spect, !.res = res, !.prod = a, !.dec = b, !.hel = h]))
         /\ UNCHANGED stage
Normalise == /\ ts # {} /\ stage # "converted"
             /\ ts' = { Normal(t) : t \in ts } /\ stage' = "normal"
             /\ hist' = Append(hist, Act("normalise", NoArg))
Permute == /\ ts # {}
           /\ ts' = PermutedAll(ts) /\ UNCHANGED stage
           /\ hist' = Append(hist, Act("permute", NoArg))
Convert == /\ ts # {} /\ \A t \in ts : IsNormal(t)
           /\ ts' = { Converted(t) : t \in ts } /\ stage' = "converted"
           /\ hist' = Append(hist, Act("convert", NoArg))
Filter == /\ ts # {} /\ stage = "converted"
          /\ \E V \in SUBSET {1, 2} :
               /\ ts' = Filtered(ts, V)
               /\ hist' = Append(hist, Act("filter", [NoArg EXCEPT !.nodes = V]))
          /\ UNCHANGED stage
Decay == /\ ts # {} /\ (stage = "converted" => \A t \in ts : IsNormal(t))
         /\ \E V \in SUBSET {1, 2}, select \in BOOLEAN :
              hist' = Append(hist, Act("decay", [NoArg EXCEPT !.nodes = V, !.select = select]))
         /\ UNCHANGED <<ts, stage>>

Next == /\ Len(hist) < Depth /\ UNCHANGED <<same, nrs>>
        /\ (Add \/ Normalise \/ Permute \/ Convert \/ Filter \/ Decay)

(* generation: transitions first, then operations *)
GenNext ==
  /\ Next
  /\ (Len(hist') <= (Depth + 1) \div 2) <=> (hist'[Len(hist')].op = "add")
  /\ Len(hist') = Depth => PrintT("HISTORY " \o ToJson([same |-> same, nrs |-> nrs, steps |-> hist']))

--------------------------------------------------------------------------------
(* what a user relies on *)
Vertices == SUBSET {1, 2}
NormalIdempotent == \A t \in ts : Normal(Normal(t)) = Normal(t)
NormalCommutes == { Normal(t) : t \in PermutedAll(ts) } = PermutedAll({ Normal(t) : t \in ts })
ConvertCommutes == { Converted(t) : t \in PermutedAll(ts) } = PermutedAll({ Converted(t) : t \in ts })
PermuteClosed == PermutedAll(PermutedAll(ts)) = PermutedAll(ts) /\ ts \subseteq PermutedAll(ts)
PermuteNothing == Cardinality(SeqRange(same)) = 3 => PermutedAll(ts) = ts
FilterIdempotent == stage = "converted" => \A V \in Vertices : Filtered(Filtered(ts, V), V) = Filtered(ts, V)
(* one per resonance and spectator *)
FilterOne ==
  stage = "converted" =>
    \A t, u \in Filtered(ts, {1, 2}) : t.x.p = u.x.p /\ t.s = u.s => t = u
FilterKeeps ==
  stage = "converted" =>
    \A V \in Vertices : { <<t.x.p, t.s>> : t \in Filtered(ts, V) } = { <<t.x.p, t.s>> : t \in ts }
FilterNothing == stage = "converted" => Filtered(ts, {}) = ts
(* all couplings of both vertices combined, as parity conservation or its   *)
(* absence leave them: then the selected transition is one of those given,  *)
(* and the two vertices can be selected one after the other                 *)
Product == \A t, u \in ts : t.x.p = u.x.p /\ t.s = u.s => [t EXCEPT !.ls = <<t.ls[1], u.ls[2]>>] \in ts
FilterSubset == stage = "converted" /\ Product => \A V \in Vertices : Filtered(ts, V) \subseteq ts
FilterComposes == stage = "converted" /\ Product => Filtered(Filtered(ts, {1}), {2}) = Filtered(ts, {1, 2})
(* the decay does not depend on whether transitions were renumbered and    *)
(* converted before                                                        *)
DecaySame ==
  (stage # "converted") =>
    LET T == { Normal(t) : t \in ts } C == { Converted(t) : t \in T }
    IN /\ DecayChains(ts, TRUE, {1, 2}) = DecayChains(T, TRUE, {1, 2})
       /\ DecayChains(T, FALSE, {}) = DecayChains(C, FALSE, {})
       /\ Cardinality(DecayChains(T, FALSE, {})) = Cardinality(C)
Holds == /\ NormalIdempotent /\ NormalCommutes /\ ConvertCommutes /\ PermuteClosed /\ PermuteNothing
         /\ FilterIdempotent /\ FilterOne /\ FilterKeeps /\ FilterNothing /\ FilterSubset /\ FilterComposes /\ DecaySame
View == <<same, nrs, ts, stage, Len(hist)>>
================================================================================
