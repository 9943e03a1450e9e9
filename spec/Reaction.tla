------------------------------ MODULE Reaction -------------------------------
(***************************************************************************)
(* Reactions as sets of transitions, and what is done with them: states    *)
(* are renumbered, equal final states are permuted, helicities are         *)
(* projected out, the smallest LS couplings are selected, and a decay with *)
(* chains is made.  A transition is                                        *)
(*   i, f, x  initial, three final (ascending), intermediate state: numbers*)
(*            with a particle and a doubled helicity (NoHel: none)         *)
(*   s        number of the spectator                                      *)
(*   ls       couplings <<L, 2S>> of both vertices, -1 for not given       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoHel == 99
NoLS  == <<-1, -1>>

Max(S) == CHOOSE a \in S : \A b \in S : b <= a
SeqRange(s) == { s[n] : n \in DOMAIN s }

--------------------------------------------------------------------------------
(* renumbering: initial, final, intermediate states, each in ascending order *)
Rank(all, n) == Cardinality({ m \in all : m < n })
Normal(t) == LET F == { t.f[n].id : n \in 1..3 }
                 R(n) == IF n = t.i.id THEN 0 ELSE IF n = t.x.id THEN 4 ELSE 1 + Rank(F, n) IN
  [t EXCEPT !.i.id = R(t.i.id), !.x.id = R(t.x.id), !.s = R(t.s),
            !.f = [n \in 1..3 |-> [t.f[n] EXCEPT !.id = R(t.f[n].id)]]]
IsNormal(t) == t.i.id = 0 /\ \A n \in 1..3 : t.f[n].id = n

(* the same for any topology, with edges [id, a, b] from vertex a to b, -1 for none *)
Stage(e) == IF e.a = -1 THEN 0 ELSE IF e.b = -1 THEN 1 ELSE 2
Before(e, f) == Stage(e) < Stage(f) \/ (Stage(e) = Stage(f) /\ e.id < f.id)
NormalEdges(E) == { [e EXCEPT !.id = Cardinality({ f \in E : Before(f, e) })] : e \in E }

--------------------------------------------------------------------------------
(* permutation: another final state with the same name takes the place of  *)
(* the spectator                                                           *)
Final(t, id) == CHOOSE st \in SeqRange(t.f) : st.id = id
Permuted(t) == { [t EXCEPT !.s = st.id] : st \in { st \in SeqRange(t.f) : st.p.name = Final(t, t.s).p.name } }
PermutedAll(T) == UNION { Permuted(t) : t \in T }

--------------------------------------------------------------------------------
(* conversion *)
Plain(st) == [id |-> st.id, hel |-> NoHel,
              p |-> [st.p EXCEPT !.latex = IF st.p.latex = "" THEN st.p.name ELSE st.p.latex]]
Coupling(ls) == IF ls[1] = -1 \/ ls[2] = -1 THEN NoLS ELSE ls
Converted(t) == [t EXCEPT !.i = Plain(t.i), !.x = Plain(t.x), !.f = [n \in 1..3 |-> Plain(t.f[n])],
                          !.ls = <<Coupling(t.ls[1]), Coupling(t.ls[2])>>]

(* a chain of the decay *)
Chain(t) == [x |-> t.x.p, s |-> t.s, ls |-> t.ls,
             d |-> LET rest == { t.f[n].id : n \in 1..3 } \ {t.s} IN <<CHOOSE a \in rest : \A b \in rest : a <= b, Max(rest)>>]

--------------------------------------------------------------------------------
(* selection of the smallest couplings at the vertices V of {1, 2}         *)
Below(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Smallest(S) == IF NoLS \in S THEN NoLS ELSE CHOOSE a \in S : \A b \in S : Below(a, b)
(* transitions with the same content outside V *)
Alike(t, u, V) == /\ t.x.p = u.x.p /\ t.s = u.s
                  /\ \A v \in {1, 2} \ V : t.ls[v] = u.ls[v]
Filtered(T, V) ==
  { LET group == { u \in T : Alike(t, u, V) }
    IN [t EXCEPT !.ls = [v \in 1..2 |-> IF v \in V THEN Smallest({ u.ls[v] : u \in group }) ELSE t.ls[v]]] : t \in T }

(* with minLS "no" nothing is selected, otherwise the vertices of V         *)
DecayStates(t) == { t.i } \cup SeqRange(t.f)
DecayChains(T, select, V) ==
  LET C == { Converted(IF IsNormal(t) THEN t ELSE Normal(t)) : t \in T }
  IN { Chain(t) : t \in IF select THEN Filtered(C, V) ELSE C }
================================================================================
