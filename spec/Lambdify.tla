------------------------------- MODULE Lambdify -------------------------------
(***************************************************************************)
(* What lambdified functions compute, as a history of operations.          *)
(*                                                                         *)
(* Expressions are polynomials with Gaussian integers in the variables x,  *)
(* y, a, b, wrapped in different ways.  A function that was made of one    *)
(* has its own parameters.  A history is a sequence of operations in       *)
(* processes that share a cache.  Functions do not survive their process.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Vars == {"x", "y", "a", "b"}

Add(u, v) == <<u[1] + v[1], u[2] + v[2]>>
Mul(u, v) == <<u[1] * v[1] - u[2] * v[2], u[1] * v[2] + u[2] * v[1]>>
Scale(n, u) == <<n * u[1], n * u[2]>>
RECURSIVE Pow(_, _)
Pow(u, n) == IF n = 0 THEN <<1, 0>> ELSE Mul(u, Pow(u, n - 1))
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN <<0, 0>> ELSE Add(Head(s), SumOf(Tail(s)))

(* a term is <<coefficient, powers of x, y, a, b>>; env: variable -> number *)
Term(t, env) == Scale(t[1], Mul(Mul(Pow(env["x"], t[2]), Pow(env["y"], t[3])), Mul(Pow(env["a"], t[4]), Pow(env["b"], t[5]))))
Poly(ts, env) == SumOf([n \in DOMAIN ts |-> Term(ts[n], env)])
Kallen(x, y, z) == LET sq(u) == Mul(u, u) IN
  SumOf(<<sq(x), sq(y), sq(z), Scale(-2, Mul(x, y)), Scale(-2, Mul(y, z)), Scale(-2, Mul(z, x))>>)

(* e: [terms, wrap, via], wrap and via name constructions of the code:     *)
(* "scaled2" and "scaled3" are written alike and differ in an attribute;   *)
(* "sum" is the sum over i = 1, 2 of i times the polynomial                *)
Via(e, env) == IF e.via \in {"subs", "xreplace"} THEN [env EXCEPT !["a"] = env["b"]] ELSE env
Value(e, env0) ==
  LET env == Via(e, env0)
      p == Poly(e.terms, env)
  IN CASE e.wrap = "plain" -> p
       [] e.wrap = "positive" -> p
       [] e.wrap = "scaled2" -> Scale(2, p)
       [] e.wrap = "scaled3" -> Scale(3, p)
       [] e.wrap = "sum" -> Scale(3, p)
       [] e.wrap = "kallen" -> Add(p, Kallen(env["x"], env["y"], env["a"]))

(* parameters override data *)
Over(pars, data) == [v \in Vars |-> IF v \in DOMAIN pars THEN pars[v] ELSE data[v]]
Updated(pars, new) == [v \in DOMAIN pars |-> IF v \in DOMAIN new THEN new[v] ELSE pars[v]]
Known(pars, new) == DOMAIN new \subseteq DOMAIN pars

(* Functions: sequence of [expr, backend, pars]; style "none" has no       *)
(* parameters at all                                                       *)
NoPars == [v \in {} |-> <<0, 0>>]
After(fs, op) ==
  CASE op.op = "lambdify" -> Append(fs, [expr |-> op.expr, backend |-> op.backend, style |-> op.style,
                                         pars |-> IF op.style = "params" THEN op.pars ELSE NoPars])
    [] op.op = "update" -> IF Known(fs[op.h].pars, op.pars) THEN [fs EXCEPT ![op.h].pars = Updated(@, op.pars)] ELSE fs
    [] op.op = "restart" -> <<>>
    [] OTHER -> fs
=============================================================================
