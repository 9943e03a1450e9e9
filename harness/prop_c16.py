"""C16: selection of minimal LS couplings."""

from __future__ import annotations

import random
from fractions import Fraction

from common import observe
from prop_c15 import canaries, sessions
from reactions import Catalogue


def refusals():
    from qrules.topology import Edge, FrozenTransition, Topology, create_isobar_topologies

    from ampform_dpd.adapter.qrules import filter_min_ls
    from ampform_dpd.decay import LSCoupling

    catalogue = Catalogue(random.Random(1))

    def transition(top):
        return FrozenTransition(
            top, {i: catalogue.get("abcARQdefgh"[n]) for n, i in enumerate(sorted(top.edges))},
            {i: LSCoupling(L=0, S=Fraction(0)) for i in top.nodes},
        )

    cases = {f"{n} final states": transition(create_isobar_topologies(n)[-1]) for n in (2, 4)}
    cases["one node"] = transition(Topology({0}, {-1: Edge(None, 0), 0: Edge(0, None), 1: Edge(0, None)}))
    cases["other node numbers"] = transition(Topology({1, 2}, {
        -1: Edge(None, 1), 0: Edge(1, None), 1: Edge(2, None), 2: Edge(2, None), 3: Edge(1, 2)}))
    cases["two intermediate states"] = transition(Topology({0, 1}, {
        -1: Edge(None, 0), 0: Edge(1, None), 1: Edge(1, None), 2: Edge(0, 1), 3: Edge(0, 1)}))
    out = []
    for what, t in cases.items():
        status, got = observe(filter_min_ls, [t])
        out.append({"kind": "refuse", "label": what, "what": what, "raised": got if status == "raised" else ""})
    return out


def run(check):
    events = [
        e for e in sessions(check, check.n(250, 2500)) if e["op"] == "filter" or (e["op"] == "decay" and e["arg"]["select"])
    ]
    check.rule = (
        "Every selection of minimal couplings (all choices of vertices, also through to_three_body_decay) in histories that "
        "TLC generates from ReactionMachine leaves exactly the transitions of the specification."
    )
    events += refusals()
    check.judge("TraceReaction", events, canaries(events, ("drop", "ls")))
