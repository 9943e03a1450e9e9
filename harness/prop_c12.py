"""C12: neutral options, repetition and purity."""

from __future__ import annotations

import random

from common import bump, generate, observe, pmap
from decays import (
    FAIL, Projection, build_decay, corrupt, dim, model_canaries, model_event, random_config, register_symbols,
)
from geom import HalfAngles

VARIANTS = ("cleanup", "all", "reversed", "states", "both", "repeat", "parts", "symbolic")


def with_order(cfg, decay, variant):
    """The same decay with chains or states in another order, and its chain numbering."""
    from ampform_dpd.decay import ThreeBodyDecay

    if variant == "reversed":
        return ThreeBodyDecay(decay.states, decay.chains[::-1])
    if variant == "states":
        return ThreeBodyDecay({i: decay.states[i] for i in (3, 1, 0, 2)}, decay.chains)
    return decay


def make_builder(cfg, decay, variant=""):
    from ampform_dpd import DalitzPlotDecompositionBuilder

    own = with_order(cfg, decay, variant)
    builder = DalitzPlotDecompositionBuilder(
        own, min_ls=(cfg["prodHel"], cfg["decHel"]), all_subsystems=variant in {"all", "both"}
    )
    register_symbols(builder, decay, fixed=True)
    return builder


def run_builder(builder, ref, cleanup, coef):
    return builder.formulate(reference_subsystem=ref or None, cleanup_summations=cleanup, use_coefficients=coef)


def from_parts(builder, ref, coef, symbolic):
    """Put a model together from amplitudes and alignment, formulated one by one."""
    import itertools

    import sympy as sp
    from ampform.sympy import PoolSum

    from ampform_dpd import AmplitudeModel

    decay, helicities = builder.decay, sp.symbols("lambda:4", rational=True)
    spins = [decay.states[i].spin for i in range(4)]
    ranges = [[-j + n for n in range(int(2 * j) + 1)] for j in spins]
    amplitudes, angles = {}, {}
    subsystems = {c.spectator.index for c in decay.chains}
    for k in sorted(subsystems, reverse=True):
        if symbolic:
            part = builder.formulate_subsystem_amplitude(*helicities, k, use_coefficients=coef)
            angles.update(part.variables)
            for values in itertools.product(*ranges):
                at = dict(zip(helicities, values))
                amplitudes.update({a.xreplace(at): x.xreplace(at) for a, x in part.amplitudes.items()})
        else:
            for values in itertools.product(*ranges):
                part = builder.formulate_subsystem_amplitude(*values, k, use_coefficients=coef)
                amplitudes.update(part.amplitudes)
                angles.update(part.variables)
    aligned, more = builder.formulate_aligned_amplitude(*helicities, *([ref] if ref else []))
    return AmplitudeModel(
        decay=decay, intensity=PoolSum(sp.Abs(aligned) ** 2, *zip(helicities, ranges)), amplitudes=amplitudes,
        variables={**angles, **more},
    )


def variant_event(job):
    cfg, seed, label = job
    ev, _ = model_event(cfg, seed, label)
    if ev["raised"]:
        return ev
    half_angles = HalfAngles(random.Random(f"{seed}/angles"))
    decay = build_decay(cfg)
    for v in VARIANTS:
        def go(v=v):
            builder = make_builder(cfg, decay, v)
            if v == "repeat":
                run_builder(builder, 3, True, not cfg["coef"])
            if v in {"parts", "symbolic"}:
                return from_parts(builder, cfg["ref"], cfg["coef"], v == "symbolic")
            return run_builder(builder, cfg["ref"], v in {"cleanup", "both"}, cfg["coef"])

        status, model = observe(go)
        ev["variants"][v] = Projection(cfg, model, seed, half_angles).intensity() if status == "ok" else FAIL
    return ev


def snapshot(model):
    return (model.intensity, dict(model.amplitudes), dict(model.variables),
            dict(model.parameter_defaults), dict(model.masses), dict(model.invariants))


def namesake(cfg, rng):
    """Another decay of particles with the same names."""
    if rng.random() < 0.5:  # noqa: PLR2004
        return {**random_config(rng, max_dim=8, basis=(cfg["prodHel"], cfg["decHel"])), "names": cfg["names"]}
    return {**cfg, "masses": [m + 0.1 for m in cfg["masses"]], "chains": [dict(c, mass=c["mass"] + 0.5, width=0.3) for c in cfg["chains"]]}


def masses_of(values):
    found = {str(k): v for k, v in values.items()}
    return [round(1e6 * found.get(f"m{i}", -1)) for i in range(4)]


def change(model):
    """What a user may do with the dictionaries of a model."""
    import sympy as sp

    for d, junk in ((model.amplitudes, sp.Symbol("junk")), (model.variables, sp.Symbol("junk")), (model.invariants, sp.Symbol("junk")),
                    (model.parameter_defaults, 99.0), (model.masses, 99.0)):
        for key in list(d)[::2]:
            d[key] = junk
        d.pop(next(iter(d), None), None)
        d[sp.Symbol("more")] = junk


def history_event(job):
    cfg, seed, label, steps = job
    half_angles = HalfAngles(random.Random(f"{seed}/angles"))
    cfgs = [cfg, namesake(cfg, random.Random(f"{seed}/namesake"))]
    decays = [build_decay(c) for c in cfgs]
    if len({masses for masses in (tuple(c["masses"]) for c in cfgs)}) == 1:
        cfgs[1]["masses"] = [m + 0.1 for m in cfgs[1]["masses"]]
        decays[1] = build_decay(cfgs[1])
    builders = {n: make_builder(cfg, decays[0], v) for n, v in enumerate(("", "all", "reversed", "states"), 1)}
    builders.update({n: make_builder(cfgs[1], decays[1], v) for n, v in enumerate(("", "all"), 5)})

    def state(b):
        lines = [b.dynamics_choices.get_builder(c)(c) for c in b.decay.chains]
        return ([(str(x.expression), {str(k): v for k, v in x.parameters.items()}) for x in lines], hash(str(b.decay)), b.all_subsystems, b.use_production_helicity_couplings, b.use_decay_helicity_couplings)

    # what an intact builder and decay look like
    intact = {n: state(b) for n, b in builders.items()}
    models, snaps, now, out = [], [], [], []
    for s in steps:
        if s["op"] == "edit":
            n = s["n"] - 1
            if n < len(models) and models[n] is not None:
                change(models[n])
                now[n] = snapshot(models[n])
            same = all(m is None or snapshot(m) == t for m, t in zip(models, now))
            out.append({"op": "edit", "n": s["n"], "modelsIntact": same})
            continue
        o = {"op": "formulate", **{f: s[f] for f in ("b", "ref", "cleanup", "coef")}}
        b = builders[s["b"]]
        own = cfgs[s["b"] > 4]  # noqa: PLR2004
        status, model = observe(run_builder, b, s["ref"], s["cleanup"], s["coef"])
        if status == "raised":
            for x in (models, snaps, now):
                x.append(None)
            out.append({**o, "raised": model, "id": -1, "value": FAIL, "decayIntact": True, "modelsIntact": True,
                        "masses": [], "defaults": []})
            continue
        snap = snapshot(model)
        ident = next((n for n, t in enumerate(snaps) if t == snap), len(models))
        intact_models = all(m is None or snapshot(m) == t for m, t in zip(models, now))
        models.append(model)
        snaps.append(snap)
        now.append(snap)
        out.append({**o, "raised": "", "id": ident, "value": Projection(own, model, seed, half_angles).intensity(),
                    "masses": masses_of(model.masses), "defaults": masses_of(model.parameter_defaults),
                    "decayIntact": {n: state(x) for n, x in builders.items()} == intact and model.decay == b.decay,
                    "modelsIntact": intact_models})
    return {"label": label, "steps": out, "masses": [[round(1e6 * m) for m in c["masses"]] for c in cfgs]}


def run(check):
    check.rule = (
        "A: random decays in all bases, judged against the specification, each also formulated with clean-up, all"
        " subsystems, reversed chains, reordered states, after another formulation, and put together"
        " from amplitudes formulated one by one at given or symbolic helicities; B: histories generated by TLC"
        " from Formulations, replayed on four builders of one random decay and two of another decay with the same names,"
        " with changes of formulated models in between; non-trivial: intensity != 0"
    )
    check.model_check("Formulations", "MCFormulations.cfg")
    rng = random.Random(f"C12/{check.seed}")

    def config(n, max_dim):
        return random_config(
            rng, max_dim=max_dim, basis=(n % 3 != 1, n % 4 != 1), coef=n % 5 == 1, n_chains=(1, 4),
        )

    jobs = [(config(n, check.n(18, 32)), f"{check.seed}/{n}", f"decay {n}") for n in range(check.n(70, 400))]
    for cfg, _, _ in jobs:
        cfg["ref"] = cfg["ref"] or 2
    events = pmap(variant_event, jobs)
    check.extra["distinct_nontrivial"] = sum(e["intensity"] not in ([0, 0], FAIL) for e in events)
    e = events[0]
    canaries = [*model_canaries(events), (corrupt(e, 0, variants={**e["variants"], "all": bump(e["intensity"])}), "variant")]
    check.judge("TraceModel", events, canaries)

    histories = generate("Formulations", "GenFormulations.cfg", check.scratch, check.n(60, 400), 12, check.seed)
    by_prefix = {}
    for h in histories:
        by_prefix.setdefault(str(h[:-1]), []).append(h)
    chosen = [rng.choice(v) for v in by_prefix.values()][: check.n(40, 240)]
    jobs = []
    for n, h in enumerate(chosen):
        while True:
            cfg = config(n, check.n(8, 16))
            if dim(cfg) > 1 and len(cfg["chains"]) > 1:
                break
        jobs.append((cfg, f"{check.seed}/h{n}", f"history {n}", h))
    events = pmap(history_event, jobs)
    check.extra["histories"] = len(events)
    check.extra["history_steps"] = sum(len(e["steps"]) for e in events)
    check.extra["edits"] = sum(s["op"] == "edit" for e in events for s in e["steps"])
    steps = [dict(s) for s in events[0]["steps"]]
    again = dict(steps[0], id=99)
    other = dict(steps[0], value=bump(steps[0]["value"]), b=steps[0]["b"] % 4 + 1 if steps[0]["b"] < 5 else 11 - steps[0]["b"], id=98)  # noqa: PLR2004
    canaries = [
        (corrupt(events[0], 0, steps=[*steps, again]), "same options"),
        (corrupt(events[0], 0, steps=[*steps, dict(steps[0], modelsIntact=False)]), "formulating changed an earlier"),
        (corrupt(events[0], 0, steps=[steps[0], other]), "neutral option"),
        (corrupt(events[0], 0, steps=[dict(steps[0], masses=[1, 2, 3, 4])]), "masses of another"),
        (corrupt(events[0], 0, steps=[*steps, {"op": "edit", "n": 1, "modelsIntact": False}]), "changing one model"),
    ]
    check.judge("TraceFormulations", events, canaries)
