----------------------------- MODULE TraceLambdify ----------------------------
(***************************************************************************)
(* Judges histories of lambdifying: every operation has the observation    *)
(* seen, with what the call computed (got, whole numbers; exact FALSE if   *)
(* it was none), on which back end, what was raised, and the parameters of *)
(* all functions held afterwards.                                          *)
(***************************************************************************)
EXTENDS Lambdify, TraceBase
VARIABLES idx, verdict

At(n, what) == what \o " at step " \o ToString(n)
SameFunction(f, g) == DOMAIN f = DOMAIN g /\ \A x \in DOMAIN f : f[x] = g[x]
AsFunction(x) == [v \in { x[n][1] : n \in DOMAIN x } |-> x[CHOOSE n \in DOMAIN x : x[n][1] = v][2]]

Shown(fs, seen) == Len(seen.shown) = Len(fs) /\ \A h \in DOMAIN fs :
  IF fs[h].style # "params" THEN seen.shown[h] = <<<<"", <<0, 0>>>>>>
  ELSE SameFunction(AsFunction(seen.shown[h]), fs[h].pars)
Expected(f, data) == Value(f.expr, IF f.style = "params" THEN Over(f.pars, data) ELSE data)

JudgeOp(fs, op, seen) ==
  CASE op.op = "update" /\ ~Known(fs[op.h].pars, op.pars) -> Clause("unknown parameter refused", seen.raised = "ValueError")
    [] seen.raised # "" -> {"raised " \o seen.raised \o " in " \o op.op}
    [] op.op = "call" -> LET f == fs[op.h] IN
         Clause("result", seen.exact /\ Len(seen.got) = Len(op.data)
                          /\ \A n \in DOMAIN op.data : seen.got[n] = Expected(f, op.data[n]))
         \cup Clause("back end", seen.backend = f.backend)
    [] OTHER -> {}

Clean(op) == IF Has(op, "pars") THEN [op EXCEPT !.pars = AsFunction(@)] ELSE op
RECURSIVE Fold(_, _, _, _)
Fold(fs, ops, n, fails) ==
  IF n > Len(ops) \/ fails # {} THEN fails
  ELSE LET op == Clean(ops[n])
           seen == ops[n].seen
           next == IF seen.raised # "" /\ op.op = "lambdify" THEN fs ELSE After(fs, op)
       IN Fold(next, ops, n + 1, JudgeOp(fs, op, seen) \cup Clause("parameters kept", Shown(next, seen)))

Judge(ev) == Fold(<<>>, ev.ops, 1, {})

Init == idx \in 1..Len(Trace) /\ verdict = "pending"
Next == /\ verdict = "pending"
        /\ LET fails == Judge(Trace[idx])
           IN /\ Report(idx, fails)
              /\ verdict' = IF fails = {} THEN "accepted" ELSE "rejected"
        /\ UNCHANGED idx
================================================================================
