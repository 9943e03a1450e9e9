"""C18: decays of serialized documents."""

from __future__ import annotations

from common import pmap, together
from decays import corrupt
from documents import histories, read_event


def run(check):
    check.rule = (
        "documents edited by TLC's simulator (DocumentMachine), half of them damaged in the last steps: states, decay chains and"
        " all lookups are judged, with and without LaTeX conversion; some are read from an object that held another document before; non-trivial: at least two chains"
    )
    sizes = {"tame": check.n(120, 1200), "ls": check.n(30, 300), "harm": check.n(150, 1500)}
    _, *got = together(
        lambda: check.model_check("MCDocument", f"MCDocumentRead{'Thorough' if check.thorough else ''}.cfg", jit=True),
        *[lambda mode=mode: histories(check, mode, sizes[mode]) for mode in sizes],
    )
    jobs = [(doc, f"{check.seed}/{mode}/{n}", f"{mode} {n}", docs[n - 1][0]) for mode, docs in zip(sizes, got) for n, (doc, _) in enumerate(docs)]
    events = pmap(lambda j: read_event(*j), jobs)
    check.extra["distinct_nontrivial"] = sum(len(e["chains"]) > 1 for e in events)
    check.extra["refused"] = sum(any(e[x] for x in ("statesRaised", "decayRaised", "distRaised")) for e in events)
    check.judge("TraceDocument", events, canaries(events))


def canaries(events):
    n = next((n for n, e in enumerate(events) if len(e["chains"]) > 1), None)
    if n is None:
        return []
    e = events[n]
    first, *rest = e["chains"]
    state, *states = e["states"]
    *lookups, look = sorted(e["lookups"], key=lambda x: x["at"])
    top, *tops = e["topologies"]
    return [
        (corrupt(e, n, chains=rest), "missing chain"),
        (corrupt(e, n, chains=[first, *e["chains"]]), "chain listed twice"),
        (corrupt(e, n, chains=[{**first, "products": first["products"][::-1]}, *rest]), "superfluous chain"),
        (corrupt(e, n, chains=[{**first, "mass": 1}, *rest]), "particle"),
        (corrupt(e, n, states=states), "one state per number"),
        (corrupt(e, n, states=[{**state, "spin": 7}, *states]), "state"),
        (corrupt(e, n, sameStates=False), "states of the decay"),
        (corrupt(e, n, lookups=[{**look, "at": 99}, *lookups]), "function"),
        (corrupt(e, n, topologies=[{**top, "spectator": 4 - top["spectator"] if top["spectator"] != 2 else 1}, *tops]), "spectator"),
        (corrupt(e, n, subsystems=[]), "subsystems"),
        (corrupt(e, n, decayRaised="ValueError"), "decay raised"),
        (corrupt(e, n, untouched=False), "document unchanged"),
    ]
