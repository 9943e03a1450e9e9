"""C06: self-contained models."""

from __future__ import annotations

import random

import sympy as sp

from closure import Labels, free_labels, is_number, refs
from common import NoAnswer, observe, patience, pmap
from decays import build_decay, corrupt, coupling_defaults, dim, lineshape_symbol, random_config
from geom import HalfAngles


def register(cfg, builder, decay):
    """Give each chain the lineshape that the configuration says, or none."""
    from ampform_dpd import DefinedExpression
    from ampform_dpd.dynamics.builder import BreitWignerBuilder

    for chain, kind in zip(decay.chains, cfg["lines"]):
        if kind == "none":
            continue
        if kind == "symbol":
            x = lineshape_symbol(decay.chains.index(chain))
            builder.dynamics_choices.register_builder(chain, lambda _, x=x: DefinedExpression(2 * x, {x: 1.5}))
            continue
        builder.dynamics_choices.register_builder(chain, BreitWignerBuilder(*kind))


def formulate(cfg):
    from ampform_dpd import DalitzPlotDecompositionBuilder

    decay = build_decay(cfg)
    if cfg["reorder"]:
        from ampform_dpd.decay import ThreeBodyDecay

        decay = ThreeBodyDecay({i: decay.states[i] for i in (2, 0, 3, 1)}, decay.chains)
    builder = DalitzPlotDecompositionBuilder(
        decay, min_ls=(cfg["prodHel"], cfg["decHel"]), all_subsystems=cfg["all"]
    )
    register(cfg, builder, decay)
    return builder.formulate(
        reference_subsystem=cfg["ref"] or None, cleanup_summations=cfg["cleanup"], use_coefficients=cfg["coef"]
    )


def label_key(labels, symbol):
    return labels.indexed(symbol, {}) if isinstance(symbol, sp.Indexed) else labels(symbol)


def closure_event(job):
    cfg, label, with_full = job
    ev = {
        "label": label, "raised": "", "spins": cfg["spins"], "ref": cfg["ref"], "prodHel": cfg["prodHel"],
        "decHel": cfg["decHel"], "coef": cfg["coef"], "H": {"": [0, 0]},
        "chains": [dict(c, x=[0, 0]) for c in cfg["chains"]], "h": HalfAngles(random.Random(0)).as_json(),
        "defs": {"": []}, "given": [], "intensity": [], "sigma": ["", "", ""], "sigmaNames": ["", "", ""],
        "couplings": [], "defaults": [], "notNumbers": [],
    }
    status, model = observe(formulate, cfg)
    if status == "raised":
        ev["raised"] = model
        return ev
    try:
        with patience():  # symbols are looked for in evaluated lineshapes
            record(ev, model, with_full)
    except NoAnswer:
        ev["raised"] = "NoAnswer"
    return ev


def record(ev, model, with_full):
    labels = Labels()
    # the symbols of the model's own tables come first and get the plain labels
    given = [label_key(labels, s) for s in model.parameter_defaults]
    definitions = {**model.amplitudes, **model.variables, **model.invariants}
    names = {label_key(labels, s): v for s, v in definitions.items()}
    ev["defs"] = {k: sorted(refs(v, labels) or ()) for k, v in names.items()}
    ev["given"] = sorted(given)
    ev["intensity"] = sorted(refs(model.intensity, labels) or ())
    ev["sigma"] = ([labels(s) for s in model.invariants] + ["", "", ""])[:3]
    ev["sigmaNames"] = sorted(s.name for s in model.invariants)
    defaults = coupling_defaults(model)
    ev["couplings"] = sorted(defaults)
    ev["defaults"] = sorted(k for k, v in defaults.items() if v == 1)
    ev["notNumbers"] = sorted(label_key(labels, s) for s, v in model.parameter_defaults.items() if not is_number(v))
    if with_full:
        full = model.full_expression.xreplace(model.variables).doit()
        ev["full"] = sorted(free_labels(full, labels))


FLAGS = [(a, b, c) for a in (False, True) for b in (False, True) for c in (False, True)]


def run(check):
    check.rule = (
        "random decays in all bases, coefficient or separate couplings, any reference, all subsystems or not, cleaned up"
        " or not, states in either order, each chain with no lineshape, a symbol or a Breit-Wigner builder with any of"
        " its eight flag combinations; non-trivial: the intensity refers to a parameter"
    )
    check.model_check("MCClosure", "MCClosureThorough.cfg" if check.thorough else "MCClosure.cfg")
    rng = random.Random(f"C06/{check.seed}")
    jobs = []
    for n in range(check.n(72, 700)):
        cfg = random_config(rng, max_dim=check.n(18, 36), n_chains=(1, 5), basis=(n % 3 != 1, n % 4 != 1), coef=n % 3 == 1)
        has_ls = all(c["prodLS"] and c["decLS"] for c in cfg["chains"])
        kinds = ["none", "symbol", *(FLAGS if has_ls else [(False, False, False)])]
        cfg["lines"] = [rng.choice(kinds) for _ in cfg["chains"]]
        cfg.update(cleanup=rng.random() < 0.4, all=rng.random() < 0.4, reorder=rng.random() < 0.3)
        jobs.append((cfg, f"model {n}", dim(cfg) * len(cfg["chains"]) <= check.n(8, 16)))
    events = pmap(closure_event, jobs)
    check.extra["distinct_nontrivial"] = sum(bool(e["defaults"]) for e in events)
    check.extra["with_full_expression"] = sum("full" in e for e in events)
    canaries = []
    for n, e in enumerate(events):
        if e["raised"] or not e["couplings"] or len(e["defs"]) < 5:
            continue
        amp = next((k for k in e["defs"] if k in e["intensity"]), None)
        if amp is None:
            continue
        c = e["couplings"][0]
        canaries = [
            (corrupt(e, n, given=[x for x in e["given"] if x != "m1"]), "undefined"),
            (corrupt(e, n, defs={k: v for k, v in e["defs"].items() if k != amp}), "undefined"),
            (corrupt(e, n, couplings=[*e["couplings"], "production|x|0|0"]), "superfluous"),
            (corrupt(e, n, defaults=[x for x in e["defaults"] if x != c]), "no default one"),
            (corrupt(e, n, defs={**e["defs"], amp: [amp]}), "defined in a circle"),
            (corrupt(e, n, full=["stray"]), "free in full"),
        ]
        break
    check.judge("TraceClosure", events, canaries)
