"""C23: products of defined expressions."""

from __future__ import annotations

import copy
import random

import sympy as sp

from common import generate, observe

P = 42719
VALUES = [0, 1.0, 2.5, 1 + 2j]
X, Y, Z, U = sp.symbols("x y z u")
EXPRESSIONS = {1: X, 2: Y, 3: X * Y + Z * U, 4: sp.Integer(-1), 5: 2, 6: sp.Rational(1, 2), 7: (U - X) ** 2, 8: 0}
NAMES = {"x": X, "y": Y, "z": Z}


def value(expr, point):
    x = sp.Rational(sp.sympify(expr).subs(point))
    return int(x.p) * pow(int(x.q), -1, P) % P


def point_of():
    """A point at which the expressions have the values of Products!AtomValue."""
    x, y = 12345, 777
    u = x + 200
    z = (31415 - x * y) * pow(u, -1, P) % P
    return {X: x, Y: y, Z: z, U: u % P}


def code(x):
    return VALUES.index(x) if x in VALUES else -1


def row(par):
    """Codes of parameters by name, in any order."""
    return [[next((n for n, s in NAMES.items() if s == k), str(k)), code(v)] for k, v in par.items()]


class Session:
    def __init__(self, steps, seed) -> None:
        for e in steps:
            e["par"] = e["par"] or {}  # TLC writes an empty function as a list
        self.steps, self.rng, self.point = steps, random.Random(seed), point_of()
        self.label = f"history {seed}"
        self.objects, self.given = [], []

    def parameters(self, par):
        made = {NAMES[k]: VALUES[v] for k, v in par.items()}
        self.given.append((made, dict(made)))
        return made

    def act(self, e):
        from ampform_dpd import DefinedExpression

        op, objects, rng = e["op"], self.objects, self.rng
        expr = EXPRESSIONS.get(e["atom"])
        if op == "new":
            # the object owns what it is created with
            new = DefinedExpression(sp.sympify(expr), dict(self.parameters(e["par"])))
            if not e["par"] and rng.random() < 0.5:  # noqa: PLR2004
                new = DefinedExpression(sp.sympify(expr))
        elif op == "default":
            new = DefinedExpression()
        elif op == "times":
            new = objects[e["a"] - 1] * objects[e["b"] - 1]
        elif op == "times in place":
            new = objects[e["a"] - 1]
            new *= objects[e["b"] - 1]
        elif op == "pair":
            new = objects[e["a"] - 1] * rng.choice([tuple, list])([expr, self.parameters(e["par"])])
        elif op == "scalar":
            new = objects[e["a"] - 1] * expr
        elif op == "set":
            objects[e["a"] - 1].parameters[NAMES[e["name"]]] = VALUES[e["value"]]
            return
        elif op == "drop":
            del objects[e["a"] - 1].parameters[NAMES[e["name"]]]
            return
        objects.append(new)

    def see(self, o):
        try:
            return {"val": value(o.expression, self.point), "par": row(o.parameters)}
        except (TypeError, ValueError, AttributeError):
            return {"val": -1, "par": []}

    def event(self):
        seen = []
        for e in self.steps:
            status, got = observe(self.act, e)
            seen.append({
                "raised": got if status == "raised" else "", "objs": [self.see(o) for o in self.objects],
                "kept": all(a == b for a, b in self.given),
            })
            if status == "raised":
                break
        return {"label": self.label, "steps": [{**e, "par": [[k, v] for k, v in e["par"].items()]} for e in self.steps], "seen": seen}


def corrupted(event, how):
    e = copy.deepcopy(event)
    last = e["seen"][-1]
    if how == "val":
        last["objs"][0]["val"] = (last["objs"][0]["val"] + 1) % P
    elif how == "par":
        last["objs"][-1]["par"].append(["stray", 1])
    elif how == "kept":
        last["kept"] = False
    elif how == "drop":
        last["objs"].pop()
    return e


def run(check):
    check.rule = (
        "histories of creating, multiplying and changing defined expressions that TLC generates from module Products, replayed"
        " on the code; after every action all objects are compared, so that no action changes another object"
    )
    check.model_check("Products", f"MCProducts{'Thorough' if check.thorough else ''}.cfg")
    histories = generate("Products", "GenProducts.cfg", check.scratch, check.n(200, 3000), 14, check.seed)
    point = point_of()
    assert all(value(EXPRESSIONS[n], point) == v for n, v in enumerate([12345, 777, 31415, P - 1, 2, 21360, 40000, 0], 1))
    events = [Session(h, f"{check.seed}/{n}").event() for n, h in enumerate(histories)]
    check.extra["histories"] = len(events)
    check.extra["distinct_nontrivial"] = sum(len({e["op"] for e in h}) > 4 for h in histories)  # noqa: PLR2004
    whole = [e for e in events if len(e["seen"]) == len(e["steps"])]
    canaries = []
    if whole:
        for how, clause in (("val", "value after"), ("par", "defaults after"), ("kept", "given defaults"), ("drop", "objects after")):
            canaries.append(({**corrupted(whole[0], how), "canary_of": events.index(whole[0])}, clause))
    check.judge("TraceProducts", events, canaries)
