"""C02: LS and mixed coupling bases."""

from __future__ import annotations

import random

from common import pmap
from decays import dim, model_canaries, model_event, random_config

BASES = [(False, False), (True, False), (False, True)]


def run(check):
    check.rule = (
        "random decays as in C01 with a random LS coupling at every vertex, in the three bases with LS"
        " couplings, one coefficient per chain or separate couplings; every 8th without LS coupling"
        " at one vertex, which has to be refused; non-trivial: intensity != 0"
    )
    check.model_check("MCModel", "MCBasisThorough.cfg" if check.thorough else "MCBasis.cfg")
    rng = random.Random(f"C02/{check.seed}")
    jobs = []
    for n in range(check.n(64, 600)):
        cfg = random_config(
            rng, max_spin=4 if n % 6 == 0 else 3, max_dim=check.n(30, 48), basis=BASES[n % 3],
            coef=n % 4 == 1, n_chains=(2, 5),
        )
        if n % 8 == 7:  # noqa: PLR2004
            c = rng.choice(cfg["chains"])
            c[rng.choice(["prodLS", "decLS"])] = []
        jobs.append((cfg, f"{check.seed}/{n}", f"model {n}", dim(cfg) * len(cfg["chains"]) <= check.n(9, 24)))
    events = pmap(lambda j: model_event(*j)[0], jobs)
    check.extra["distinct_nontrivial"] = sum(e["intensity"] not in ([0, 0], [-1, -1]) for e in events)
    check.extra["refused"] = sum(e["raised"] != "" for e in events)
    check.judge("TraceModel", events, model_canaries(events))
