"""Serialized models: documents of spec/DocumentMachine.tla as the JSON that the code reads."""

from __future__ import annotations

import copy
import json
import random
import re
import warnings
from fractions import Fraction

import sympy as sp

from common import generate, observe
from decays import FAIL, amplitude_key, safe
from geom import HalfAngles, assign
from gf import Evaluator, P, frac

DEPTH = {"tame": 24, "ls": 23, "harm": 18, "lines": 28, "wild": 28, "forms": 28}


def histories(check, mode, num, flag="collide"):
    """Documents that TLC's simulator edits; [(document, weights collide)]."""
    got = generate("DocumentMachine", f"GenDocument_{mode}.cfg", check.scratch, num, DEPTH[mode] + 2, check.seed)
    check.extra[f"documents_{mode}"] = len(got)
    return [(x["doc"], x["shared" if flag == "shared" else "collide"]) for x in got]


def plain(items):
    """[[1, 2], [3]] -> [[1, 2], 3]"""
    return [x[0] if len(x) == 1 else list(x) for x in items]


def optional(d):
    return {k: v for k, v in d.items() if v != "absent"}


def decode(doc, rng=None):
    """The JSON document, via text; `rng` varies what has no meaning."""
    rng = rng or random.Random(0)
    chains = []
    for c in doc["chains"]:
        vertices = []
        for v in c["vertices"]:
            x = optional({"type": v["type"], "node": plain(v["node"]), "formfactor": v["ff"], "parity_factor": v["pf"],
                          "l": v["l"], "s": v["s"]})
            if v["hel"]:
                x["helicities"] = v["hel"]
            vertices.append(x)
        chains.append({
            "name": c["name"], "weight": c["weight"], "topology": plain(c["topology"]), "vertices": vertices,
            "propagators": [{"spin": p["spin"], "node": p["node"], "parametrization": p["fn"]} for p in c["props"]],
        })
    dist = {
        "name": "first", "type": "HadronicUnpolarizedIntensity", "variables": [],
        "decay_description": {
            "kinematics": {"initial_state": doc["initial"], "final_state": doc["final"]},
            "reference_topology": plain(doc["reference"]), "chains": chains, "appendix": {},
        },
    }
    other = copy.deepcopy(dist)
    other["name"] = "other"
    other["decay_description"]["chains"] = chains[:1]
    other["decay_description"]["reference_topology"] = [1, [2, 3]]
    text = json.dumps({
        "distributions": [dist, other, other][: doc["dists"]], "functions": doc["functions"], "domains": [], "misc": {},
        "parameter_points": [],
    })
    model = json.loads(text)
    if rng.random() < 0.5:  # noqa: PLR2004
        # numbers where the text is one
        for c in (c for d in model["distributions"] for c in d["decay_description"]["chains"]):
            if re.fullmatch(r"-?\d+(\.\d+)?", c["weight"]):
                c["weight"] = float(c["weight"])
            for p in c["propagators"]:
                if p["spin"].isdigit():
                    p["spin"] = int(p["spin"])
    return model


def edited(doc, rng, earlier=None):
    """The document; sometimes as an object that held an earlier document, which was read before it was edited."""
    if earlier is None or rng.random() < 0.6:  # noqa: PLR2004
        return decode(doc, rng)
    model = decode(earlier, rng)
    read_all(model)
    morph(model, decode(doc, rng), rng, rng.choice([0, 0, 0.3]))
    return model


def morph(old, new, rng, replaced):
    """Change a JSON object in place, so that it keeps its parts, except for some that are replaced."""
    def part(a, b):
        if type(a) is type(b) and isinstance(a, (dict, list)) and rng.random() >= replaced:
            morph(a, b, rng, replaced)
            return a
        return b

    if isinstance(old, dict):
        content = {k: part(old.get(k), x) for k, x in new.items()}
        old.clear()
        old.update(content)
    else:
        old[:] = [part(old[n] if n < len(old) else None, x) for n, x in enumerate(new)]


def read_all(model):
    """Everything that can be read from a document; what it gives is not of interest."""
    from ampform_dpd.io.serialization import amplitude as amp
    from ampform_dpd.io.serialization import decay as dec
    from ampform_dpd.io.serialization import dynamics as dyn
    from ampform_dpd.io.serialization import format as fmt

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for f in (dec.get_states, dec.get_initial_state, dec.get_final_state, dec.to_decay, fmt.get_distribution_def,
                  fmt.get_decay_chains, fmt.get_reference_topology, amp.get_existing_subsystem_ids):
            observe(f, model)
        for name in [x["name"] for x in model["functions"]]:
            observe(fmt.get_function_definition, name, model)
        chains = [c for d in model["distributions"][:1] for c in d["decay_description"]["chains"]]
        for n, c in enumerate(chains):
            observe(dec.get_spectator_id, c["topology"])
            observe(dyn.formulate_dynamics, c, model)
            for v in range(len(c["vertices"])):
                observe(amp.formulate_recoupling, model, n, v)
                observe(dyn.formulate_form_factor, c["vertices"][v], model)
        if len(chains) <= 3:  # noqa: PLR2004
            observe(amp.formulate, model)


def integral(x):
    return int(x) if float(x) == int(x) else -999


def twice(x):
    return int(2 * Fraction(str(x)))


# -- reading --------------------------------------------------------------------
def read_event(doc, seed, label, earlier=None):
    from ampform_dpd.io.serialization import decay as dec
    from ampform_dpd.io.serialization import format as fmt
    from ampform_dpd.io.serialization.amplitude import get_existing_subsystem_ids

    rng = random.Random(seed)
    model = edited(doc, rng, earlier)
    before = json.dumps(model)
    prefix = rng.choice(["", "", "L:"])
    args = (lambda x: "L:" + x,) if prefix else ()
    ev = {"kind": "read", "label": label, "doc": doc, "prefix": prefix, "statesRaised": "", "states": [], "decayRaised": "",
          "chains": [], "sameStates": True, "distRaised": "", "distribution": 0, "warned": False, "nChains": -1,
          "reference": False, "subsystemsRaised": "", "subsystems": [], "lookups": [], "topologies": []}

    def particle(p):
        return {"name": p.name, "latex": p.latex, "spin": twice(p.spin), "mass": integral(p.mass), "width": integral(p.width),
                "parity": str(p.parity)}

    status, states = observe(dec.get_states, model, *args)
    if status == "raised":
        ev["statesRaised"] = states
    else:
        ev["states"] = [{"key": k, "index": s.index, **particle(s)} for k, s in states.items()]
        initial, final = observe(dec.get_initial_state, model, *args), observe(dec.get_final_state, model, *args)
        ev["sameStates"] = initial == ("ok", states[0]) and final == ("ok", {k: s for k, s in states.items() if k})
    status, decay = observe(dec.to_decay, model, *args)
    if status == "raised":
        ev["decayRaised"] = decay
    else:
        ev["sameStates"] &= decay.states == states
        for chain in decay.chains:
            top, iso = chain.decay, chain.decay.child1
            p = particle(iso.parent)
            ev["chains"].append({
                "resonance": p.pop("name"), **p, "products": [iso.child1.index, iso.child2.index], "spectator": top.child2.index,
                "couplings": "None" if iso.interaction is None and top.interaction is None else "some",
            })
            # the states are those of the decay
            ev["sameStates"] &= (
                top.parent == states[0] and all(states[s.index] == s for s in (iso.child1, iso.child2, top.child2))
                and chain.resonance == iso.parent and chain.spectator == top.child2
            )
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        try:
            dist = fmt.get_distribution_def(model)
            ev["distribution"] = 1 + next(n for n, x in enumerate(model["distributions"]) if x is dist or x == dist)
        except Exception as e:  # noqa: BLE001
            ev["distRaised"] = type(e).__name__
    ev["warned"] = bool(caught)
    if doc["dists"]:
        desc = model["distributions"][0]["decay_description"]
        status, chains = observe(fmt.get_decay_chains, model)
        ev["nChains"] = len(chains) if status == "ok" and chains == desc["chains"] else -1
        ev["reference"] = observe(fmt.get_reference_topology, model) == ("ok", desc["reference_topology"])
        status, ids = observe(get_existing_subsystem_ids, model)
        ev["subsystems"], ev["subsystemsRaised"] = (ids, "") if status == "ok" else ([], ids)
    names = {f["name"] for f in doc["functions"]} | {p["fn"] for c in doc["chains"] for p in c["props"]} | {"nothing", ""}
    near = {x for n in names for x in (n.swapcase(), n.lower(), n + " ", n[:-1], n[1:], n + "_1", n.replace("_", ""))}
    names |= set(rng.sample(sorted(near), min(4, len(near))))
    for name in sorted(names):
        status, got = observe(fmt.get_function_definition, name, model)
        at = 0
        if status == "ok":
            at = 1 + next((n for n, f in enumerate(model["functions"]) if f is got or f == got), -1)
        ev["lookups"].append({"name": name, "raised": got if status == "raised" else "", "at": at})
    for n, top in enumerate([doc["reference"], *(c["topology"] for c in doc["chains"])]):
        status, got = observe(dec.get_spectator_id, plain(top))
        ev["topologies"].append({"n": n, "raised": got if status == "raised" else "", "spectator": got if status == "ok" else 0})
    ev["untouched"] = json.dumps(model) == before
    return ev


# -- vertices -------------------------------------------------------------------
def spins_of(doc):
    return [twice(doc["initial"]["spin"]), *(twice(s["spin"]) for s in sorted(doc["final"], key=lambda s: s["index"]))]


def recoupling_events(doc, seed, label, earlier=None):
    from ampform_dpd.io.serialization.amplitude import formulate_recoupling

    model = edited(doc, random.Random(f"{seed}/vertices"), earlier)
    spins = spins_of(doc)
    out = []
    for n, c in enumerate(doc["chains"]):
        for v in range(3):
            ev = {"kind": "recoupling", "label": f"{label}, chain {n}, vertex {v}", "doc": doc, "chain": n + 1, "vertex": v + 1,
                  "raised": "", "table": []}
            if v == 2 and n:  # noqa: PLR2004
                continue
            status, expr = observe(formulate_recoupling, model, n, v)
            if status == "raised":
                ev["raised"] = expr
                out.append(ev)
                continue
            J = [spins[x[0]] if len(x) == 1 else twice(c["props"][0]["spin"]) for x in c["vertices"][v]["node"]]
            symbols = []
            for x in c["vertices"][v]["node"]:
                found = [
                    s for s in expr.free_symbols
                    if (s.name == f"lambda{x[0]}" if len(x) == 1 else not re.fullmatch(r"lambda\d", s.name))
                ]
                symbols.append(found[0] if len(found) == 1 else None)
            for a in range(-J[0], J[0] + 1, 2):
                for b in range(-J[1], J[1] + 1, 2):
                    env = {s: Fraction(x, 2) for s, x in zip(symbols, (a, b)) if s is not None}
                    # numbers before or after unfolding
                    if (a + b + n) % 3:
                        numbers = expr.xreplace({s: sp.Rational(x.numerator, x.denominator) for s, x in env.items()})
                        status, numbers = observe(numbers.doit)
                        value = FAIL if status == "raised" else safe(Evaluator({}, {}, {}), numbers)
                    else:
                        value = evaluate(expr, env)
                    ev["table"].append([a, b, value])
            out.append(ev)
    return out


def evaluate(expr, env):
    try:
        return list(Evaluator({}, {}, {}).ev(expr, env))
    except Exception:  # noqa: BLE001
        return FAIL


# -- models ---------------------------------------------------------------------
def line_key(fn, name):
    return f"{fn}|{name}"


class DocEvaluator(Evaluator):
    """Form factors are opaque."""

    def __init__(self, values, angles, amplitudes, forms) -> None:
        super().__init__(values, angles, {}, amplitudes)
        self.forms = forms

    def ev(self, e, env):
        if type(e).__name__ == "FormFactor":
            return self.forms.value(e)
        return super().ev(e, env)


class Forms:
    """Random value of each form factor, by vertex and angular momentum."""

    def __init__(self, rng) -> None:
        self.rng = rng
        self.table = {
            f"{kind}|{k}|{l}": (rng.randrange(1, P), rng.randrange(P))
            for kind in ("decay", "production") for k in (1, 2, 3) for l in range(5)
        }

    def value(self, e):
        key = form_key(e)
        if key not in self.table:
            self.table[key] = (self.rng.randrange(1, P), self.rng.randrange(P))
        return self.table[key]


def form_key(e):
    """Which form factor: from the invariant and masses that it takes."""
    from ampform_dpd import create_mass_symbol  # noqa: F401, PLC0415

    s, m1, m2, l = e.args[:4]
    masses = {str(m1), str(m2)}
    for k in (1, 2, 3):
        i, j = sorted({1, 2, 3} - {k})
        if str(s) == f"sigma{k}" and masses == {f"m{i}", f"m{j}"}:
            return f"decay|{k}|{l}"
        if str(s) == "m0**2" and masses == {f"m{k}", f"sqrt(sigma{k})"}:
            return f"production|{k}|{l}"
    return str(e)


def number(x):
    z = complex(x)
    return frac(Fraction(repr(z.real))), frac(Fraction(repr(z.imag)))


def opaque_builders(lines, rng):
    """Lineshapes that are a symbol; they override those that the code has."""
    from ampform_dpd import DefinedExpression

    def build(propagator, resonance, model):  # noqa: ARG001
        symbol = sp.Symbol(f"X[{line_key(propagator['parametrization'], resonance)}]")
        lines.setdefault(symbol, (rng.randrange(P), rng.randrange(P)))
        return DefinedExpression(symbol, {sp.Symbol(f"p[{resonance}]"): 1.0})

    return {"BreitWigner": build, "MultichannelBreitWigner": build, "Dirac": build}


def model_event(doc, seed, label, earlier=None):
    from ampform_dpd.io.serialization.amplitude import formulate

    rng = random.Random(f"{seed}/model")
    half = HalfAngles(rng)
    lines, forms = {}, Forms(rng)
    ev = {"kind": "model", "label": label, "doc": doc, "opaque": True, "raised": "", "amps": {"": FAIL}, "intensity": FAIL,
          "variants": {"": FAIL}, "masses": []}
    model = edited(doc, rng, earlier)
    builders = opaque_builders(lines, rng)
    status, got = observe(formulate, model, additional_builders=builders)
    if status == "ok":
        ev["variants"] = {}
        for what, made in (("", got), ("cleaned up", observe(formulate, model, cleanup_summations=True, additional_builders=builders)[1])):
            values = {s: number(x) for s, x in made.parameter_defaults.items() if not re.fullmatch(r"m_?\d", s.name)}
            angles, ev["unknown_angles"] = assign(made.variables, half, random.Random(f"{seed}/angles"))
            evaluator = DocEvaluator({**values, **lines}, angles, made.amplitudes, forms)
            if not what:
                ev["amps"] = {amplitude_key(k): safe(evaluator, k) for k in made.amplitudes} or {"": [0, 0]}
                ev["intensity"] = safe(evaluator, made.intensity)
                size = len(doc["chains"])
                for x in spins_of(doc):
                    size *= x + 1
                if size <= 8 and all(v["ff"] in {"", "absent"} for c in doc["chains"] for v in c["vertices"]):
                    ev["variants"]["full"] = safe(evaluator, made.full_expression)
                ev["masses"] = [integral(made.masses[s]) for s in sorted(made.masses, key=str)]
            else:
                ev["variants"][what] = safe(evaluator, made.intensity)
    else:
        ev["raised"] = got
    ev["pt"] = {"h": half.as_json(), "X": {s.name[2:-1]: list(v) for s, v in lines.items()} or {"": FAIL},
                "F": {k: list(v) for k, v in forms.table.items() if k.count("|") == 2}}  # noqa: PLR2004
    return ev
