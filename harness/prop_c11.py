"""C11: one coefficient per chain."""

from __future__ import annotations

import random

from common import bump, pmap
from decays import corrupt, dim, model_canaries, model_event, random_config
from gf import cmul

BASES = {
    "hel": ("production", "decay"),
    "LS,\\lambda": ("production", "LS,decay"),
    "\\lambda,LS": ("LS,production", "decay"),
    "LS": ("LS,production", "LS,decay"),
}


def products(couplings: list[str], coefficients: list[str], value) -> dict:
    """Value of every coefficient: the product of the two couplings its indices name."""
    out = {}
    for c in coefficients:
        base, R, *idx = c.split("|")
        if base in BASES and len(idx) == 4:  # noqa: PLR2004
            p, d = BASES[base]
            keys = "|".join([p, R, *idx[:2]]), "|".join([d, R, *idx[2:]])
            out[c] = cmul(tuple(value(keys[0])), tuple(value(keys[1])))
    return out


def event(job):
    cfg, seed, label, full = job
    pair, _ = model_event({**cfg, "coef": False}, seed, label)
    if pair["raised"]:
        return {**pair, "pair": {"H": {"": [0, 0]}, "amps": {"": [0, 0]}, "intensity": [0, 0], "couplings": []}}
    from decays import Couplings, coupling_defaults, formulate
    from common import observe

    status, model = observe(formulate, {**cfg, "coef": True})
    fixed = {}
    if status == "ok":
        fixed = products(pair["couplings"], sorted(coupling_defaults(model)), Couplings(seed).value)
    ev, _ = model_event({**cfg, "coef": True}, seed, label, full, fixed=fixed)
    ev["pair"] = {f: pair[f] for f in ("H", "amps", "intensity", "couplings")}
    return ev


def run(check):
    check.rule = (
        "random decays as in C01 in all four coupling bases; each formulated with separate couplings and with"
        " one coefficient per chain set to the product of its couplings; non-trivial: intensity != 0"
    )
    check.model_check("MCModel", "MCCoefficientThorough.cfg" if check.thorough else "MCCoefficient.cfg")
    rng = random.Random(f"C11/{check.seed}")
    jobs = []
    for n in range(check.n(48, 500)):
        cfg = random_config(
            rng, max_dim=check.n(24, 40), basis=[(True, True), (True, False), (False, True), (False, False)][n % 4],
            n_chains=(1, 4),
        )
        jobs.append((cfg, f"{check.seed}/{n}", f"decay {n}", dim(cfg) * len(cfg["chains"]) <= check.n(6, 20)))
    events = pmap(event, jobs)
    check.extra["distinct_nontrivial"] = sum(e["intensity"] not in ([0, 0], [-1, -1]) for e in events)
    e = events[3]
    canaries = [
        *model_canaries(events),
        (corrupt(e, 3, couplings=e["couplings"][1:]), "coefficients of pairs"),
        (corrupt(e, 3, pair={**e["pair"], "intensity": bump(e["pair"]["intensity"])}), "intensity differs"),
    ]
    check.judge("TraceCoefficient", events, canaries)
