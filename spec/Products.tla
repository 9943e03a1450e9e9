------------------------------- MODULE Products --------------------------------
(***************************************************************************)
(* Defined expressions and their products, as a state machine.  A defined  *)
(* expression is an expression with default values for some symbols.       *)
(* Expressions are abstracted to their value at one point, modulo a prime, *)
(* defaults to a function from names to codes of values.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Names,       \* names of parameters
          Values,      \* codes of their values
          Atoms,       \* expressions that can be given
          Parameters,  \* what sets of defaults can be given: numbers of rows of Defaults
          MaxObjects,
          Depth

P == 42719
AtomValue == <<12345, 777, 31415, P - 1, 2, 21360, 40000, 0>>   \* 21360 = 1/2

(* sets of defaults that objects are created with *)
Row(names, f(_)) == [x \in names |-> f(x)]
Defaults(n) == LET some == CHOOSE f \in [1..Cardinality(Names) -> Names] : { f[k] : k \in DOMAIN f } = Names
                   size == Cardinality(Names)
                   used == { some[k] : k \in { k \in 1..size : (n \div (2 ^ (k - 1))) % 2 = 1 } }
                   Code(x) == (n + (CHOOSE k \in 1..size : some[k] = x)) % Cardinality(Values)
               IN Row(used, Code)

VARIABLES objs,        \* every object made so far: [val, par]
          hist

vars == <<objs, hist>>

(* the value of the right factor prevails *)
Override(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
Times(a, b) == [val |-> (a.val * b.val) % P, par |-> Override(a.par, b.par)]
Empty == [x \in {} |-> 0]
One == [val |-> 1, par |-> Empty]
Plain(atom) == [val |-> AtomValue[atom], par |-> Empty]

(* an action: a, b number objects; what does not apply is 0                *)
Act(op, a, b, atom, row, name, value) ==
  [op |-> op, a |-> a, b |-> b, atom |-> atom, par |-> IF row = 0 THEN Empty ELSE Defaults(row), name |-> name, value |-> value]

(* objects after an action *)
After(o, e) ==
  CASE e.op = "new"     -> Append(o, [val |-> AtomValue[e.atom], par |-> e.par])
    [] e.op = "default" -> Append(o, One)
    [] e.op \in {"times", "times in place"} -> Append(o, Times(o[e.a], o[e.b]))
    [] e.op = "pair"    -> Append(o, Times(o[e.a], [val |-> AtomValue[e.atom], par |-> e.par]))
    [] e.op = "scalar"  -> Append(o, Times(o[e.a], Plain(e.atom)))
    [] e.op = "set"     -> [o EXCEPT ![e.a].par = Override(@, [x \in {e.name} |-> e.value])]
    [] e.op = "drop"    -> [o EXCEPT ![e.a].par = [x \in (DOMAIN @) \ {e.name} |-> @[x]]]

Do(e) == objs' = After(objs, e) /\ hist' = Append(hist, e)

Init == objs = <<>> /\ hist = <<>>
Next ==
  /\ Len(hist) < Depth
  /\ \/ /\ Len(objs) < MaxObjects
        /\ \/ \E atom \in Atoms, row \in Parameters : Do(Act("new", 0, 0, atom, row, "", 0))
           \/ Do(Act("default", 0, 0, 0, 0, "", 0))
           \/ \E a, b \in DOMAIN objs, op \in {"times", "times in place"} : Do(Act(op, a, b, 0, 0, "", 0))
           \/ \E a \in DOMAIN objs, atom \in Atoms, row \in Parameters : Do(Act("pair", a, 0, atom, row, "", 0))
           \/ \E a \in DOMAIN objs, atom \in Atoms : Do(Act("scalar", a, 0, atom, 0, "", 0))
     \/ \E a \in DOMAIN objs, x \in Names, v \in Values : Do(Act("set", a, 0, 0, 0, x, v))
     \/ \E a \in DOMAIN objs : \E x \in DOMAIN objs[a].par : Do(Act("drop", a, 0, 0, 0, x, 0))

(* Generation: every kind of action is equally likely *)
GenNext ==
  /\ Len(hist) < Depth
  /\ \E op \in {RandomElement(IF Len(objs) < 2 THEN {"new", "default"} ELSE IF Len(objs) = MaxObjects THEN {"set", "drop"}
                              ELSE {"new", "default", "times", "times in place", "pair", "scalar", "set", "drop"})} :
     \E a \in {RandomElement(0..7)}, b \in {RandomElement(0..7)}, atom \in {RandomElement(Atoms)}, row \in {RandomElement(Parameters)},
        v \in {RandomElement(Values)}, x \in {RandomElement(Names)} :
        LET n == Len(objs)
            On(k) == IF n = 0 THEN 0 ELSE 1 + (k % n)
        IN Do(CASE op = "new" -> Act(op, 0, 0, atom, row, "", 0)
                [] op = "default" -> Act(op, 0, 0, 0, 0, "", 0)
                [] op \in {"times", "times in place"} -> Act(op, On(a), On(b), 0, 0, "", 0)
                [] op = "pair" -> Act(op, On(a), 0, atom, row, "", 0)
                [] op = "scalar" -> Act(op, On(a), 0, atom, 0, "", 0)
                [] op = "drop" /\ x \in DOMAIN objs[On(a)].par -> Act(op, On(a), 0, 0, 0, x, 0)
                [] OTHER -> Act("set", On(a), 0, 0, 0, x, v))
  /\ Len(hist') = Depth => PrintT("HISTORY " \o ToJson(hist'))

--------------------------------------------------------------------------------
(* multiplication is associative and has a neutral element *)
Associative == \A a, b, c \in DOMAIN objs : Times(Times(objs[a], objs[b]), objs[c]) = Times(objs[a], Times(objs[b], objs[c]))
Neutral == \A a \in DOMAIN objs : Times(objs[a], One) = objs[a] /\ Times(One, objs[a]) = objs[a]
(* factors only matter where the product does not define a value itself    *)
RightWins == \A a, b \in DOMAIN objs : LET c == Times(objs[a], objs[b]) IN
               /\ DOMAIN c.par = DOMAIN objs[a].par \cup DOMAIN objs[b].par
               /\ \A x \in DOMAIN objs[b].par : c.par[x] = objs[b].par[x]
Holds == Associative /\ Neutral /\ RightWins

(* an action changes nothing but the object that it names *)
Isolated == [][\A n \in DOMAIN objs : \/ objs'[n] = objs[n]
                                      \/ hist'[Len(hist')].op \in {"set", "drop"} /\ hist'[Len(hist')].a = n]_vars
================================================================================
