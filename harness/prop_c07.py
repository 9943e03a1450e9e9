"""C07: invariants and masses."""

from __future__ import annotations

import random

import sympy as sp

from closure import Labels
from common import observe, pmap
from decays import build_decay, corrupt, random_config

NAMES = [f"m{i}" for i in range(4)] + [f"sigma{k}" for k in (1, 2, 3)]


def value_at(expr, point):
    """[numerator, denominator] of an expression at integer values given by name."""
    expr = sp.sympify(expr)
    v = expr.xreplace({s: sp.Integer(point[s.name]) for s in expr.free_symbols if s.name in point}).doit()
    return [int(v.p), int(v.q)] if isinstance(v, sp.Rational) else [0, 0]


def number(x):
    x = sp.nsimplify(x) if isinstance(x, float) else sp.sympify(x)
    return int(x) if x.is_Integer else -1


def make(cfg):
    from ampform_dpd import DalitzPlotDecompositionBuilder
    from ampform_dpd.decay import ThreeBodyDecay
    from ampform_dpd.dynamics.builder import BreitWignerBuilder

    decay = build_decay(cfg)
    decay = ThreeBodyDecay({i: decay.states[i] for i in cfg["order"]}, decay.chains)
    builder = DalitzPlotDecompositionBuilder(decay, min_ls=True)
    if cfg["bw"]:
        for chain in decay.chains:
            builder.dynamics_choices.register_builder(chain, BreitWignerBuilder(False, False, False))
    return decay, builder.formulate(reference_subsystem=cfg["ref"] or None)


def invariants_event(job):
    from ampform_dpd import create_mass_symbol, create_mass_symbol_mapping, formulate_third_mandelstam
    from ampform_dpd.decay import IsobarNode

    cfg, label, at, s = job
    ev = {"label": label, "raised": "", "m": cfg["masses"], "at": at, "s": s, "names": [], "values": {"": [0, 0]},
          "refs": {"": []}, "third": [], "masses": {"": 0}, "defaults": {"": 0}, "sameSymbols": False, "resonances": []}
    status, made = observe(make, cfg)
    if status == "raised":
        return {**ev, "raised": made}
    decay, model = made
    point = {f"m{i}": at[i] for i in range(4)} | {f"sigma{k}": s[k - 1] for k in (1, 2, 3)}
    labels = Labels()
    for x in (*model.masses, *model.invariants):
        labels(x)
    ev["names"] = [labels(x) for x in model.invariants]
    ev["values"] = {labels(x): value_at(e, point) for x, e in model.invariants.items()}
    ev["refs"] = {labels(x): sorted(labels(y) for y in e.free_symbols) for x, e in model.invariants.items()}
    for x in (1, 2, 3):
        for y in (1, 2, 3):
            if x != y:
                status, e = observe(formulate_third_mandelstam, decay, x, y)
                ev["third"].append({"x": x, "y": y, "value": value_at(e, point) if status == "ok" else [0, 0]})
    status, e = observe(formulate_third_mandelstam, decay)
    ev["third"].append({"x": 1, "y": 2, "value": value_at(e, point) if status == "ok" else [0, 0]})
    ev["masses"] = {labels(x): number(v) for x, v in model.masses.items()}
    mass_defaults = {labels(x): v for x, v in model.parameter_defaults.items() if x in model.masses}
    ev["defaults"] = {k: number(v) for k, v in mass_defaults.items()} or {"": 0}
    ev["sameSymbols"] = (
        create_mass_symbol_mapping(decay) == model.masses
        and all(create_mass_symbol(decay.states[i]) in model.masses for i in range(4))
        and {labels(create_mass_symbol(decay.states[i])): number(decay.states[i].mass) for i in range(4)} == ev["masses"]
    )
    for chain in decay.chains:
        r = chain.resonance
        symbol = create_mass_symbol(r)
        node = IsobarNode(r, *chain.decay_products)
        ev["resonances"].append({
            "name": r.name, "latex": r.latex, "symbol": labels(symbol),
            "fromNodeSame": create_mass_symbol(node) == symbol == create_mass_symbol(chain.decay_node),
            "stable": create_mass_symbol(r) == symbol,
        })
    return ev


LATEX = ["0", "1", "2", "3", "K^*", R"\Lambda", "m0", "{0}", "", "sigma1"]


def run(check):
    check.rule = (
        "random decays with integer masses, states listed in any order, resonances whose LaTeX names resemble those of"
        " states; invariants evaluated at random integers; non-trivial: more than one resonance"
    )
    check.model_check("MCKinematics", "MCKinematics.cfg")
    rng = random.Random(f"C07/{check.seed}")
    jobs = []
    for n in range(check.n(64, 800)):
        cfg = random_config(rng, max_dim=8, n_chains=(1, 5))
        for c in cfg["chains"]:
            if rng.random() < 0.6:
                c["R"] = rng.choice(LATEX)
            c["mass"] = float(rng.randint(1, 50))
        cfg["masses"] = [rng.randint(1, 99), *rng.sample(range(100), 3)] if rng.random() < 0.8 else [50, *[rng.randint(1, 3)] * 3]
        order = list(range(4))
        if rng.random() < 0.7:
            rng.shuffle(order)
        cfg.update(order=order, bw=rng.random() < 0.5)
        at = [rng.randint(1, 99) for _ in range(4)]
        jobs.append((cfg, f"model {n}", at, [rng.randint(-999, 9999) for _ in range(3)]))
    events = pmap(invariants_event, jobs)
    check.extra["distinct_nontrivial"] = sum(len(e["resonances"]) > 1 for e in events)
    e = events[0]
    canaries = [
        (corrupt(e, 0, values={**e["values"], "sigma2": [7, 1]}), "invariant 2"),
        (corrupt(e, 0, masses={**e["masses"], "m1": e["m"][1] + 1}), "masses"),
        (corrupt(e, 0, third=[*e["third"], {"x": 1, "y": 3, "value": [0, 0]}]), "third"),
        (corrupt(e, 0, resonances=[dict(r, symbol="m1") for r in e["resonances"]]), "mass symbol"),
        (corrupt(e, 0, refs={**e["refs"], "sigma1": ["m0"]}), "invariant 1"),
    ]
    check.judge("TraceInvariants", events, canaries)
