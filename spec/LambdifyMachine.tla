--------------------------- MODULE LambdifyMachine ----------------------------
(***************************************************************************)
(* A cache in memory on top of a cache on disk, as an implementation of    *)
(* module Lambdify.  Compiled functions live in the heap; a function that  *)
(* the user holds is a wrapper with its own parameters (Wrap) or the       *)
(* cached object itself.  KeyOf says what the caches look at.              *)
(***************************************************************************)
EXTENDS Lambdify, Json

CONSTANTS Exprs, Backends, ParChoices, DataChoices, Depth, Wrap, KeyOf(_, _, _), Some(_)

VARIABLES heap,    \* compiled functions: [expr, backend, pars, key]
          memory,  \* key -> index in the heap
          disk,    \* key -> [expr, backend, pars]
          held,    \* functions of the user: [obj, pars]
          funcs,   \* what they have to be (module Lambdify)
          hist
vars == <<heap, memory, disk, held, funcs, hist>>

Empty == [k \in {} |-> 0]
Init == heap = <<>> /\ memory = Empty /\ disk = Empty /\ held = <<>> /\ funcs = <<>> /\ hist = <<>>

With(f, k, v) == [q \in DOMAIN f \cup {k} |-> IF q = k THEN v ELSE f[q]]
Do(op) == funcs' = After(funcs, op) /\ hist' = Append(hist, op)

Compiled(e, b, ps) == [expr |-> e, backend |-> b, pars |-> ps]
DoLambdify(e, b, ps, style) ==
  LET key == KeyOf(e, b, <<style = "params", ps>>)
      loaded == IF key \in DOMAIN disk THEN disk[key] ELSE Compiled(e, b, ps)
      obj == IF key \in DOMAIN memory THEN memory[key] ELSE Len(heap) + 1
  IN /\ heap' = IF key \in DOMAIN memory THEN heap ELSE Append(heap, loaded)
     /\ memory' = IF key \in DOMAIN memory THEN memory ELSE With(memory, key, obj)
     /\ disk' = IF key \in DOMAIN disk \/ key \in DOMAIN memory THEN disk ELSE With(disk, key, loaded)
     /\ held' = Append(held, [obj |-> obj, pars |-> ps])
     /\ Do([op |-> "lambdify", expr |-> e, backend |-> b, style |-> style, pars |-> ps])

ParsOf(h) == IF Wrap THEN held[h].pars ELSE heap[held[h].obj].pars
DoUpdate(h, new) ==
  /\ funcs[h].style = "params"
  /\ IF ~Known(ParsOf(h), new) THEN UNCHANGED <<heap, held>>
     ELSE IF Wrap THEN held' = [held EXCEPT ![h].pars = Updated(@, new)] /\ UNCHANGED heap
     ELSE heap' = [heap EXCEPT ![held[h].obj].pars = Updated(@, new)] /\ UNCHANGED held
  /\ UNCHANGED <<memory, disk>>
  /\ Do([op |-> "update", h |-> h, pars |-> new])
DoCall(h, data) == UNCHANGED <<heap, memory, disk, held>> /\ Do([op |-> "call", h |-> h, data |-> data])
DoMeddle(h)  == funcs[h].style = "params" /\ UNCHANGED <<heap, memory, disk, held>> /\ Do([op |-> "meddle", h |-> h])
DoRestart == heap' = <<>> /\ memory' = Empty /\ held' = <<>> /\ UNCHANGED disk /\ Do([op |-> "restart"])

Hs == DOMAIN held
Next ==
  /\ Len(hist) < Depth
  /\ \/ \E e \in Some(Exprs), b \in Some(Backends), ps \in Some(ParChoices) : DoLambdify(e, b, ps, "params")
     \/ \E e \in Some(Exprs), b \in Some(Backends) : \E style \in Some({"none", "positional"}) : DoLambdify(e, b, NoPars, style)
     \/ \E h \in Some(Hs), new \in Some(ParChoices) : DoUpdate(h, new)
     \/ \E h \in Some(Hs), data \in Some(DataChoices) : DoCall(h, data)
     \/ \E h \in Some(Hs) : DoMeddle(h)
     \/ hist # <<>> /\ hist[Len(hist)].op # "restart" /\ DoRestart

(* what a function computes and shows is what the history says *)
Shows == \A h \in Hs : ParsOf(h) = funcs[h].pars
Computes == \A h \in Hs : LET f == heap[held[h].obj] IN
              /\ f.backend = funcs[h].backend
              /\ \A data \in DataChoices : Value(f.expr, Over(ParsOf(h), data)) = Value(funcs[h].expr, Over(funcs[h].pars, data))
Holds == Shows /\ Computes

(* keys of designs *)
FullKey(e, b, ps) == <<e, b, ps>>
NoBackend(e, b, ps) == <<e, ps>>
Spelling(e, b, ps) == <<[e EXCEPT !.wrap = IF @ = "scaled3" THEN "scaled2" ELSE @], b, ps>>
Every(S) == S
OneOf(S) == IF S = {} THEN {} ELSE { RandomElement(S) }

(* exhaustive runs *)
P1 == << <<4000003, 1, 0, 1, 0>>, <<2, 0, 2, 0, 1>> >>
P2 == << <<4000003, 1, 0, 0, 1>>, <<2, 0, 2, 1, 0>> >>
E_(p, w, v) == [terms |-> p, wrap |-> w, via |-> v]
SmallExprs == { E_(P1, "scaled2", ""), E_(P1, "scaled3", "") }
D_(x, y, a, b) == [x |-> x, y |-> y, a |-> a, b |-> b]
SmallData == { D_(<<2, 0>>, <<-1, 0>>, <<1, 1>>, <<3, 0>>) }
SmallPars == { ("a" :> <<1, 0>>), ("a" :> <<2, 0>>), ("b" :> <<1, -1>>) }
MoreExprs == SmallExprs \cup { E_(P2, "plain", ""), E_(P1, "plain", "subs") }
MorePars == SmallPars \cup { ("a" :> <<1, 0>> @@ "b" :> <<0, 2>>), NoPars }

(* generation *)
Polys == << P1, P2,
            << <<3999999, 0, 1, 1, 1>>, <<1, 0, 0, 0, 0>> >>,
            << <<4000003, 1, 0, 1, 0>>, <<2, 0, 2, 0, 1>>, <<-7, 1, 1, 0, 0>> >>,
            << <<-3500001, 1, 1, 0, 0>>, <<1999999, 0, 0, 2, 0>> >>,
            << <<1234567, 2, 0, 0, 1>>, <<-2345678, 0, 2, 1, 0>>, <<1, 1, 0, 0, 0>> >> >>
Wraps == <<"plain", "positive", "scaled2", "scaled3", "sum", "kallen">>
Vias == <<"", "", "doit", "unfold", "subs", "xreplace">>
Pick(s) == s[RandomElement(DOMAIN s)]
RandExpr(z) == E_(Pick(Polys), Pick(Wraps), Pick(Vias))
Real(r) == <<RandomElement(-r..r), 0>>
RandNumber(z) == <<RandomElement(-2..2), RandomElement(-1..1)>>
RandData(z) == D_(Real(3), Real(3), RandNumber(0), Real(2))
RandPars(z) == CASE z = 1 -> ("a" :> RandNumber(0)) [] z = 2 -> ("b" :> RandNumber(0)) [] z = 3 -> NoPars
                 [] z \in 4..6 -> ("a" :> RandNumber(0) @@ "b" :> RandNumber(0))
                 [] z = 7 -> ("a" :> RandNumber(0) @@ "z" :> <<5, 0>>)
                 [] z = 8 -> ("x" :> Real(2) @@ "b" :> RandNumber(0))
(* histories prefer the expressions that they have seen, and calls *)
Seen == { hist[n].expr : n \in { n \in DOMAIN hist : hist[n].op = "lambdify" } }
GenExpr(z) == LET e == IF Seen = {} \/ z = 1 THEN RandExpr(0) ELSE RandomElement(Seen)
              IN IF RandomElement(1..3) = 1 THEN [e EXCEPT !.wrap = Pick(Wraps)] ELSE e
Rand(S) == { RandomElement(S) }       \* \E x \in Rand(S): one draw
GenLambdifyStep == \E e \in { GenExpr(RandomElement(1..3)) }, b \in Rand(Backends), ps \in { RandPars(RandomElement(1..8)) },
                      style \in Rand({"none", "positional", "params"}) :
                     DoLambdify(e, b, IF style = "params" THEN ps ELSE NoPars, style)
Made == { n \in DOMAIN hist : hist[n].op = "lambdify" }
GenAgain == \E n \in Rand(Made) : DoLambdify(hist[n].expr, hist[n].backend, hist[n].pars, hist[n].style)
GenStep(z) ==
  IF Made # {} /\ z <= 2 THEN GenAgain
  ELSE IF Hs = {} \/ z <= 3 THEN GenLambdifyStep
  ELSE \E h \in Rand(Hs) :
       IF z <= 5 /\ funcs[h].style = "params" THEN \E ps \in { RandPars(RandomElement(1..8)) } : DoUpdate(h, ps)
       ELSE IF z = 6 /\ funcs[h].style = "params" THEN DoMeddle(h)
       ELSE IF z = 7 /\ hist[Len(hist)].op # "restart" THEN DoRestart
       ELSE \E data \in { RandData(0) } : DoCall(h, data)
GenNext ==
  IF Len(hist) < Depth THEN \E z \in Rand(1..12) : GenStep(z)
  ELSE /\ Len(hist) = Depth
       /\ PrintT("HISTORY " \o ToJson(hist))
       /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED <<heap, memory, disk, held, funcs>>
================================================================================
