"""C20: lineshapes and form factors of serialized documents."""

from __future__ import annotations

import random

import mpmath
import sympy as sp

from common import observe, pmap, together
from decays import corrupt
from documents import edited, histories
from prop_c09 import DPS, rooted
from prop_c10 import value_of

LATEX = {"": (), "L:": (lambda x: "L:" + x,)}


def point(doc, rng):
    """Integer masses and invariants in the physical region of every subsystem, off the poles."""
    poles = {f.get("mass") for f in doc["functions"]}
    roots = [rng.choice([r for r in range(8, 15) if r not in poles]) for _ in range(3)]
    return roots, [r * r for r in roots]


def masses_of(doc):
    from ampform_dpd import create_mass_symbol
    from ampform_dpd.io.serialization.decay import get_states

    clean = {**doc, "dists": 1}
    return {create_mass_symbol(s): int(s.mass) for s in get_states(edited(clean, random.Random(0))).values()}


def judgeable(defined, outer, sigma, params=None):
    """Value of a defined expression with its own defaults; symbols without value."""
    expr = defined.expression.doit() if hasattr(defined.expression, "doit") else sp.sympify(defined.expression)
    values = {**outer, **(defined.parameters if params is None else params)}
    values = {k: x for k, x in values.items() if k in expr.free_symbols}
    values.update({sp.Symbol(f"sigma{i}", nonnegative=True): sigma[i - 1] for i in (1, 2, 3)})
    left = sorted(str(x) for x in expr.free_symbols if x not in values)
    status, x = (None, None) if left else observe(value_of, expr, values)
    return left, x if status == "ok" else None


def spoil(defined):
    """What is done to a result must not show in later ones."""
    for p in list(defined.parameters):
        defined.parameters[p] = 77
    defined.parameters[sp.Symbol("stray", nonnegative=True)] = 78
    defined.expression = sp.Symbol("spoiled")


def whole(x):
    return int(x) if x == int(x) else -1


def width_of(x, defined_mass, s):
    if x is None:
        return None
    with mpmath.workdps(DPS):
        return defined_mass**2 - s - 1 / x


def named(parameters, resonance, n_channels):
    """Default values of the own parameters of a lineshape, by name."""
    value = {p.name: whole(x) for p, x in parameters.items()}

    def get(*names):
        return [value.get(x, -1) for x in names]

    return {
        "line": get(f"m_{{{resonance}}}", Rf"\Gamma_{{{resonance}}}"),
        "channels": [
            get(Rf"\Gamma_{{{resonance}}}^\text{{ch. {c}}}", f"m_{{a,{c}}}^{{{resonance}}}", f"m_{{b,{c}}}^{{{resonance}}}",
                Rf"R_{{{resonance}}}^\text{{ch. {c}}}")
            for c in range(2, n_channels + 1)
        ],
    }


def find(functions, name):
    return next((f for f in functions if f["name"] == name), None)


def events_of(job):
    from ampform_dpd.io.serialization import dynamics as dyn
    from ampform_dpd.io.serialization.amplitude import formulate

    doc, shared, mode, seed, label, earlier = job
    rng = random.Random(seed)
    roots, sigma = point(doc, rng)
    model = edited(doc, rng, earlier)
    outer = masses_of(doc)
    prefix = rng.choice(list(LATEX))
    latex = LATEX[prefix]
    to_latex = {"to_latex": latex[0]} if latex else {}
    status, full = observe(formulate, model, **to_latex)
    out = [{"kind": "model", "label": label, "doc": doc, "raised": full if status == "raised" else ""}]
    ways = [("alone", None)]
    if status == "ok":
        ways.append(("in the model", full.parameter_defaults))
    none = rooted(None)
    parameters = []
    for n, c in enumerate(doc["chains"]):
        if len(c["props"]) != 1:
            continue
        chain = model["distributions"][0]["decay_description"]["chains"][n] if doc["dists"] else None
        if chain is None:
            continue
        status, made = observe(dyn.formulate_dynamics, chain, model, *latex)
        if status == "ok":
            parameters.append((c["name"], [x.name for x in made.parameters]))
        for way, params in ways:
            where = ("shared parameters " if shared and params else "") + f"{label}, {way}, chain {n}"
            ev = {"kind": "line", "label": where, "doc": doc, "chain": n + 1, "sigma": sigma, "roots": roots, "leftover": [],
                  "raised": made if status == "raised" else "", "w": none, "masses": [], "named": {"line": [], "channels": []}}
            if status == "ok":
                left, x = judgeable(made, outer, sigma, params)
                i, j = c["props"][0]["node"]
                ev["masses"] = [[k, whole(x)] for k in (1, 2, 3) for p, x in made.parameters.items() if p.name == f"m{k}"]
                ev["leftover"] = left
                definition = find(doc["functions"], c["props"][0]["fn"])
                ev["named"] = named(made.parameters, prefix + c["name"], len(definition.get("channels", [])))
                mass = definition["mass"]
                if not left:
                    ev["w"] = rooted(width_of(x, mass, sigma[5 - i - j]))
            out.append(ev)
            for v, vx in enumerate(c["vertices"]):
                if v > 1:
                    continue
                st, form = observe(dyn.formulate_form_factor, chain["vertices"][v], model)
                e = {"kind": "form", "label": f"{where}, vertex {v}", "doc": doc, "chain": n + 1, "vertex": v + 1, "sigma": sigma,
                     "raised": form if st == "raised" else "", "w": none, "leftover": []}
                if st == "ok":
                    left, x = judgeable(form, outer, sigma, params)
                    e["leftover"] = left
                    if not left:
                        e["w"] = rooted(x)
                    spoil(form)
                out.append(e)
        if status == "ok":
            spoil(made)
    for a in range(len(parameters)):
        for b in range(a):
            if parameters[a][0] != parameters[b][0]:
                pa, pb = parameters[a][1], parameters[b][1]
                out.append({"kind": "pair", "label": f"{label} pair {a},{b}", "doc": doc, "first": pa, "second": pb,
                            "radii": sorted({x for x in (*pa, *pb) if x == R"R_\mathrm{res}"}), "stateMasses": [x.name for x in outer]})
    if doc["dists"] == 1:
        out.append(custom_event(doc, model, prefix, label))
    return out


def custom_event(doc, model, prefix, label):
    """Own lineshapes are called with the propagator, resonance and document, also for known types."""
    from ampform_dpd import DefinedExpression
    from ampform_dpd.io.serialization import dynamics as dyn

    calls = []

    def build(propagator, resonance, model):
        whole = model["functions"] == doc["functions"]
        calls.append([propagator["parametrization"], resonance, [int(x) for x in propagator["node"]], whole])
        return DefinedExpression(sp.Symbol("X"), {sp.Symbol("p"): 1.0})

    expected = []
    kinds = dict.fromkeys({f["type"] for f in doc["functions"]}, build)
    for c, chain in zip(doc["chains"], model["distributions"][0]["decay_description"]["chains"]):
        if all(find(doc["functions"], p["fn"]) for p in c["props"]):
            observe(dyn.formulate_dynamics, chain, model, *LATEX[prefix], additional_definitions=kinds)
            expected += [[p["fn"], prefix + c["name"], p["node"], True] for p in c["props"]]
    return {"kind": "custom", "label": f"{label} own lineshapes", "doc": doc, "calls": calls, "expected": expected}


def run(check):
    check.rule = (
        "documents edited by TLC's simulator (DocumentMachine) with edited lineshape parameters and channels; every propagator and"
        " form factor is evaluated at integer invariants with its own defaults and with the defaults of the whole model;"
        " non-trivial: Breit-Wigners with energy-dependent width or form factors with L > 0"
    )
    check.assumptions.append(
        "parameters that share one symbol by design (radius of resonances, of the decaying particle, masses of final states) and"
        " have different values in the document are judged in the whole model as known finding K3"
    )
    sizes = {"lines": check.n(45, 500), "wild": check.n(30, 300), "forms": check.n(30, 300), "harm": check.n(25, 250)}
    _, *got = together(
        lambda: check.model_check("MCLineshapes", f"MCLineshapes{'Thorough' if check.thorough else ''}.cfg"),
        *[lambda mode=mode: histories(check, mode, sizes[mode], "shared") for mode in sizes],
    )
    jobs = [(doc, shared, mode, f"{check.seed}/{mode}/{n}", f"{mode} {n}", docs[n - 1][0]) for mode, docs in zip(sizes, got)
            for n, (doc, shared) in enumerate(docs)]
    events = [e for es in pmap(events_of, jobs) for e in es]
    check.extra["distinct_nontrivial"] = sum(e["kind"] in {"line", "form"} and e["w"]["dir"] not in {0, -1} for e in events)
    check.extra["refused"] = sum(e.get("raised", "") != "" for e in events)
    check.judge("TraceDocLines", events, canaries(events))


def canaries(events):
    out = []
    for kind, clause in (("line", "value of the lineshape"), ("form", "value of the form factor")):
        n = next((n for n, e in enumerate(events) if e["kind"] == kind and not e["raised"] and "alone" in e["label"]
                  and not e["leftover"] and e["w"]["dir"] >= 0), None)
        if n is None:
            continue
        e = events[n]
        out += [
            (corrupt(e, n, w={**e["w"], "q": [[2 * x[0], x[1]] for x in e["w"]["q"]]}), clause),
            (corrupt(e, n, w={**e["w"], "dir": (e["w"]["dir"] + 1) % 4}), clause),
            *([(corrupt(e, n, masses=[[k, x + 1] for k, x in e["masses"]]), "default masses")] if e.get("masses") else []),
            *([(corrupt(e, n, named={**e["named"], "line": e["named"]["line"][::-1] + [1]}), "named defaults")] if kind == "line" else []),
            (corrupt(e, n, leftover=["x"]), "no other symbols"),
            (corrupt(e, n, raised="KeyError"), "raised"),
        ]
    n = next((n for n, e in enumerate(events) if e["kind"] == "pair"), None)
    if n is not None:
        out.append((corrupt(events[n], n, second=[*events[n]["second"], "x"], first=["x"]), "shared parameter"))
    n = next((n for n, e in enumerate(events) if e["kind"] == "custom" and e["calls"]), None)
    if n is not None:
        out.append((corrupt(events[n], n, calls=[]), "own lineshape"))
    return out
