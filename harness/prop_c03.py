"""C03: independence of the reference subsystem."""

from __future__ import annotations

import random

import sympy as sp

from common import bump, observe, pmap
from decays import FAIL, Projection, build_decay, corrupt, dim, formulate, random_config
from geom import HalfAngles


def event(job):
    cfg, seed, label = job
    ev = {"label": label, "raised": "", "spins": cfg["spins"], "chains": cfg["chains"],
          "I": [[FAIL] * 4] * 3, "sameAs": []}
    half_angles = HalfAngles(random.Random(f"{seed}/angles"))
    models = {}
    for ref in (0, 1, 2, 3):
        status, models[ref] = observe(formulate, {**cfg, "ref": ref})
        if status == "raised":
            ev["raised"] = models[ref]
            return ev
    ev["I"] = [
        [Projection(cfg, models[r], seed, half_angles, flip={f}).intensity() for f in (0, 1, 2, 3)]
        for r in (1, 2, 3)
    ]
    ev["sameAs"] = [r for r in (1, 2, 3) if models[r] == models[0]]
    return ev


def default_event(job):
    """Which reference is taken if none is asked for, for decays with many chains."""
    from ampform_dpd import DalitzPlotDecompositionBuilder

    cfg, label = job
    ev = {"label": label, "raised": "", "spins": cfg["spins"], "chains": cfg["chains"], "I": [], "sameAs": []}
    models = {}
    for ref in (0, 1, 2, 3):
        status, models[ref] = observe(formulate, {**cfg, "ref": ref})
        if status == "raised":
            return {**ev, "raised": models[ref]}
    builder = DalitzPlotDecompositionBuilder(build_decay(cfg), min_ls=(cfg["prodHel"], cfg["decHel"]))
    symbols = sp.symbols("lambda:4", rational=True)
    alone = [builder.formulate_aligned_amplitude(*symbols, *ref) for ref in ([], [1], [2], [3])]
    return {**ev, "sameAs": [r for r in (1, 2, 3) if models[r] == models[0] and alone[r] == alone[0]]}


def many_chains(rng, n):
    pool = [[1, 2, 3], [1, 2], [2, 3], [1, 3]][n % 4]
    spins = [(0, 0, 0, 0), (2, 0, 0, 0), (1, 1, 0, 0), (1, 0, 1, 0), (0, 0, 0, 2)][n % 5]
    cfg = random_config(rng, subsystems=pool, spins=spins, n_chains=(3, 8), max_j=6, basis=(n % 3 != 1, n % 2 != 1),
                        shared_names=(0.0, 0.5, 0.8)[n % 3])
    order = rng.sample(range(len(cfg["chains"])), len(cfg["chains"]))
    return {**cfg, "chains": [cfg["chains"][c] for c in order]}


def run(check):
    check.rule = (
        "random decays with chains in 2-3 subsystems, spins 2j <= 3, all bases; every decay formulated with"
        " references 1, 2, 3 and without request, at one random point; decays with up to eight chains, some of one resonance,"
        " formulated without request compared with every reference; non-trivial: intensity != 0"
    )
    check.model_check("MCModel", "MCReferenceThorough.cfg" if check.thorough else "MCReference.cfg")
    rng = random.Random(f"C03/{check.seed}")
    jobs = []
    for n in range(check.n(48, 400)):
        pool = [[1, 2, 3], [1, 2], [2, 3], [1, 3], [1, 2, 3]][n % 5]
        # half-integer spin of the decaying particle in every third
        while True:
            cfg = random_config(
                rng, subsystems=pool, n_chains=(2, 5), max_dim=check.n(24, 48), coef=n % 4 == 1,
                basis=(n % 3 != 1, n % 5 != 1),
            )
            if len({c["k"] for c in cfg["chains"]}) < min(2, len(pool)):
                continue
            if n % 3 == 0 and cfg["spins"][0] % 2 == 0:
                continue
            if sum(cfg["spins"]) == 0 or dim(cfg) > check.n(24, 48):
                continue
            break
        jobs.append((cfg, f"{check.seed}/{n}", f"decay {n}"))
    events = pmap(event, jobs)
    defaults = [(many_chains(rng, n), f"default of decay {n}") for n in range(check.n(60, 600))]
    events += pmap(default_event, defaults)
    check.extra["distinct_nontrivial"] = sum(bool(e["I"]) and e["I"][0][0] not in ([0, 0], FAIL) for e in events)
    check.extra["half_integer_initial"] = sum(e["spins"][0] % 2 for e in events)
    canaries = []
    e = events[1]
    canaries.append((corrupt(e, 1, I=[[bump(x) for x in e["I"][0]], e["I"][1], e["I"][2]]), "intensity of reference 1"))
    canaries.append((corrupt(e, 1, sameAs=[]), "default reference"))
    check.judge("TraceReference", events, canaries)
