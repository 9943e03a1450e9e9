"""C19: amplitude models of serialized documents."""

from __future__ import annotations

from common import bump, pmap, together
from decays import FAIL, corrupt
from documents import histories, model_event, recoupling_events


def run(check):
    check.rule = (
        "documents edited by TLC's simulator (DocumentMachine): random spins, orders, topologies, vertex types, weights, form"
        " factors, references; amplitudes at all helicities, intensity, and every vertex are judged at random points of"
        " angles and lineshape values; some with LS vertices, some damaged; some in an object that held another document before; non-trivial: intensity != 0"
    )
    check.assumptions += [
        "chains of one resonance name and helicities with different weights are judged separately (known finding)",
        "full amplitude models are formulated for helicity and parity vertices only: weights are named by helicities",
    ]
    sizes = {"tame": check.n(90, 900), "ls": check.n(40, 400), "harm": check.n(40, 400)}
    _, *got = together(
        lambda: check.model_check("MCDocument", "MCDocumentThorough.cfg" if check.thorough else "MCDocument.cfg", jit=True),
        *[lambda mode=mode: histories(check, mode, sizes[mode]) for mode in sizes],
    )
    docs = dict(zip(sizes, got))
    jobs = [(mode, n, doc, collide, docs[mode][n - 1][0]) for mode in docs for n, (doc, collide) in enumerate(docs[mode])]

    def work(job):
        mode, n, doc, collide, earlier = job
        seed, label = f"{check.seed}/{mode}/{n}", f"{mode} {n}"
        out = []
        if mode != "ls":
            out.append(model_event(doc, seed, f"colliding weights {label}" if collide else label, earlier))
        return out + recoupling_events(doc, seed, label, earlier)

    events = [e for es in pmap(work, jobs) for e in es]
    models = [e for e in events if e["kind"] == "model"]
    check.extra["distinct_nontrivial"] = sum(e["intensity"] not in ([0, 0], FAIL) for e in models)
    check.extra["refused"] = sum(e["raised"] != "" for e in events)
    check.judge("TraceDocument", events, canaries(events))


def canaries(events):
    out = []
    n = next((n for n, e in enumerate(events) if e["kind"] == "model" and e["intensity"] not in ([0, 0], FAIL)
              and "collid" not in e["label"]), None)
    if n is not None:
        e = events[n]
        key = next(k for k, v in e["amps"].items() if v not in ([0, 0], FAIL))
        out += [
            (corrupt(e, n, intensity=bump(e["intensity"])), "intensity"),
            (corrupt(e, n, amps={**e["amps"], key: bump(e["amps"][key])}), "amplitude"),
            (corrupt(e, n, raised="ValueError"), "raised"),
            (corrupt(e, n, masses=e["masses"][::-1]), "masses"),
        ]
    for n, e in enumerate(events):
        if e["kind"] == "recoupling" and e["table"]:
            a, b, x = e["table"][0]
            out += [(corrupt(e, n, table=[[a, b, bump(x)], *e["table"][1:]]), "vertex at"),
                    (corrupt(e, n, table=e["table"][1:]), "all helicities")]
            break
    n = next((n for n, e in enumerate(events) if e["kind"] == "model" and e["raised"]), None)
    if n is not None:
        out.append((corrupt(events[n], n, raised=""), "unusable"))
    return out
