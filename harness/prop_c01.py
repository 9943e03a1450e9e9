"""C01: helicity amplitudes and intensity of the Dalitz-plot decomposition."""

from __future__ import annotations

import random

import gf
from common import MachineryError, pmap
from decays import dim, model_canaries, model_event, random_config


def with_twin(cfg, rng):
    """Another resonance that differs in mass only, and chains that share a lineshape or have none."""
    chains = cfg["chains"]
    twin = rng.randrange(len(chains))
    sharing = [rng.choice([None, rng.randrange(len(chains))]) for _ in chains]
    cfg.update(chains=[*chains, dict(chains[twin], mass=3.5)], sharing=[*sharing, sharing[twin]])


def run(check):
    check.rule = (
        "random spins (2j <= 4), 1-4 chains over 1-3 subsystems, isobar spins 2J <= 5, both orders of"
        " children, any reference subsystem, random couplings/lineshapes/angles in GF(p);"
        " one in four with resonances that differ in mass only and chains that share a lineshape or have none;"
        " non-trivial: intensity != 0"
    )
    rng = random.Random(f"C01/{check.seed}")
    if not gf.wigner_agrees_with_sympy(rng, check.n(12, 200), check.n(3, 6)):
        msg = "evaluator disagrees with SymPy's Wigner functions"
        raise MachineryError(msg)
    check.model_check("MCSpin", "MCSpin.cfg" if not check.thorough else "MCSpinThorough.cfg")
    jobs = []
    for n in range(check.n(64, 600)):
        cfg = random_config(rng, max_spin=4 if n % 6 == 0 else 3, max_dim=check.n(36, 60))
        if n % 4 == 1:
            with_twin(cfg, rng)
        jobs.append((cfg, f"{check.seed}/{n}", f"model {n}", dim(cfg) * len(cfg["chains"]) <= check.n(9, 24)))
    events = pmap(lambda j: model_event(*j)[0], jobs)
    check.extra["distinct_nontrivial"] = sum(e["intensity"] != [0, 0] for e in events)
    check.extra["with_full_expression"] = sum("full" in e for e in events)
    check.judge("TraceModel", events, model_canaries(events))
