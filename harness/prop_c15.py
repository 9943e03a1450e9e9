"""C15: conversion of reactions to decays."""

from __future__ import annotations

import random
from fractions import Fraction

from common import generate, observe, pmap
from reactions import Catalogue, Session, corrupt

DEPTH = 12


def sessions(check, num):
    """Histories from TLC's simulator, replayed on the code."""
    check.model_check("ReactionMachine", f"MCReaction{'Thorough' if check.thorough else ''}.cfg")
    histories = generate("ReactionMachine", "GenReaction.cfg", check.scratch, num, DEPTH, check.seed)
    histories = random.Random(check.seed).sample(histories, min(num, len(histories)))  # TLC reports each alternative last step
    check.extra["histories"] = len(histories)
    check.extra["operations"] = sum(a["op"] != "add" for h in histories for a in h["steps"])
    return [
        e for events in pmap(lambda x: Session(x[1], f"{check.seed}/{x[0]}").run(), list(enumerate(histories)))
        for e in events
    ]


def canaries(events, hows=("drop", "ls", "spectator")):
    out = []
    for how in hows:
        for n, e in enumerate(events):
            if e["kind"] in {"op", "decay"} and not e["raised"] and (e.get("chains") or e.get("post")):
                out.append(({**corrupt(e, how), "canary_of": n}, ""))
                if len(out) % 5 == 0:
                    break
    return out


def refusals():
    from qrules.quantum_numbers import InteractionProperties
    from qrules.topology import Edge, FrozenTransition, Topology, create_isobar_topologies
    from qrules.transition import State

    from ampform_dpd.adapter.qrules import to_three_body_decay

    catalogue = Catalogue(random.Random(1))

    def transition(top):
        return FrozenTransition(
            top, {i: State(catalogue.get("abcARQdefgh"[n]), Fraction(0)) for n, i in enumerate(sorted(top.edges))},
            {i: InteractionProperties(l_magnitude=0, s_magnitude=0) for i in top.nodes},
        )

    cases = {"no transitions": []}
    for n in (2, 4, 5):
        cases[f"{n} final states"] = [transition(create_isobar_topologies(n)[-1])]
    cases["two initial states"] = [transition(Topology({0, 1}, {
        -2: Edge(None, 0), -1: Edge(None, 0), 0: Edge(0, None), 1: Edge(1, None), 2: Edge(1, None), 3: Edge(0, 1)}))]
    cases["one node"] = [transition(Topology({0}, {
        -1: Edge(None, 0), 0: Edge(0, None), 1: Edge(0, None), 2: Edge(0, None)}))]
    out = []
    for what, ts in cases.items():
        status, got = observe(to_three_body_decay, ts)
        out.append({"kind": "refuse", "label": what, "what": what, "raised": got if status == "raised" else ""})
    return out


def run(check):
    events = [e for e in sessions(check, check.n(150, 1500)) if e["op"] in {"convert", "decay"}]
    check.rule = (
        "Every conversion of transitions and every decay made from them, in histories that TLC generates from "
        "ReactionMachine (random particles, numbering, couplings, node and state order, container), has exactly the states and "
        "chains of the specification."
    )
    events += refusals()
    check.judge("TraceReaction", events, canaries(events))
