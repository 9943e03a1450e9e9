"""C17: renumbering and permutation."""

from __future__ import annotations

import random

from common import observe
from prop_c15 import canaries, sessions


def edges_event(top):
    none = lambda x: -1 if x is None else x  # noqa: E731
    return [{"id": i, "a": none(e.originating_node_id), "b": none(e.ending_node_id)} for i, e in top.edges.items()]


def topologies(seed, num):
    """Renumbering of topologies with any number of final states and any numbers."""
    from qrules.topology import MutableTransition, create_isobar_topologies, create_n_body_topology
    from qrules.transition import ProblemSet

    from ampform_dpd.adapter.qrules import normalize_state_ids

    rng = random.Random(f"topology/{seed}")
    pool = [t for n in (2, 3, 4, 5) for t in create_isobar_topologies(n)]
    pool += [create_n_body_topology(1, n) for n in (2, 3, 4)] + [create_n_body_topology(2, 2)]
    out = []
    for n in range(num):
        top = rng.choice(pool)
        old = sorted(top.edges)
        step, off = rng.choice([1, 2, 5]), rng.choice([-3, -1, 0, 1, 4, 40])
        numbers = [off + step * k for k in range(len(old))]
        choice = rng.random()
        if choice < 0.3:  # noqa: PLR2004
            numbers = sorted(rng.sample(range(-9, 30), len(old)))
        elif choice < 0.6:  # noqa: PLR2004
            # almost the required numbers: a gap somewhere
            gap = rng.randrange(len(old) + 1)
            numbers = [k + (k >= gap) * rng.choice([1, 3]) for k in range(len(old))]
            numbers = sorted(set(numbers)) if len(set(numbers)) == len(old) else list(range(len(old)))
        if rng.random() < 0.3:  # noqa: PLR2004
            rng.shuffle(numbers)
        # via numbers that overlap with neither
        top = top.relabel_edges(dict(zip(old, range(1000, 2000)))).relabel_edges(dict(zip(range(1000, 2000), numbers)))
        numbers = [i for some in (top.incoming_edge_ids, top.outgoing_edge_ids, top.intermediate_edge_ids) for i in sorted(some)]
        kind = rng.choice(["topology", "list", "problem set", "mutable"])
        states = {i: f"state {k}" for k, i in enumerate(numbers)}
        outer_only = rng.random() < 0.5  # noqa: PLR2004
        e = {"kind": "topology", "op": "topology", "pre": edges_event(top), "post": [], "again": [], "nodes": True}

        def apply(t):
            if kind == "list":
                got = normalize_state_ids(iter([t]))
                assert isinstance(got, list) and len(got) == 1
                return got[0], True
            if kind == "topology":
                return normalize_state_ids(t), True
            mutable = MutableTransition(t, {i: states[i] for i in t.edges}, {i: f"node {i}" for i in t.nodes})
            if kind == "mutable":
                new = normalize_state_ids(mutable)
                parts, ok = [new], True
            else:
                # initial facts have no states for intermediate edges
                known = (t.incoming_edge_ids | t.outgoing_edge_ids) if outer_only else set(t.edges)
                facts = MutableTransition(t, {i: states[i] for i in known}, {})
                new = normalize_state_ids(ProblemSet(t, facts, mutable))
                parts = [new.solving_settings]
                ok = new.initial_facts.interactions == {} and new.initial_facts.topology == new.topology
                ok = ok and new.initial_facts.states == {k: states[i] for k, i in enumerate(numbers) if i in known}
            ok = ok and all(
                [p.states[k] for k in sorted(p.states)] == list(states.values()) and set(p.states) == set(range(len(states)))
                and p.interactions == mutable.interactions and p.topology == new.topology for p in parts
            )
            return new.topology, ok and type(new) is (MutableTransition if kind == "mutable" else ProblemSet)

        status, got = observe(apply, top)
        e.update(raised=got if status == "raised" else "", label=f"topology {n}: {kind} with numbers {numbers}")
        if status == "ok":
            new, ok = got
            e["post"] = edges_event(new)
            e["again"] = edges_event(normalize_state_ids(new))
            e["nodes"] = bool(ok and new.nodes == top.nodes)
        out.append(e)
    return out


def refusals():
    from ampform_dpd.adapter.qrules import normalize_state_ids, permute_equal_final_states

    out = []
    for f in (normalize_state_ids, permute_equal_final_states):
        for thing in (1, None, 2.5):
            status, got = observe(f, thing)
            what = f"{f.__name__}({thing!r})"
            out.append({"kind": "refuse", "label": what, "what": what, "raised": got if status == "raised" else ""})
    return out


def run(check):
    events = [e for e in sessions(check, check.n(150, 1500)) if e["op"] in {"normalise", "permute"}]
    check.rule = (
        "Every renumbering and permutation in histories that TLC generates from ReactionMachine gives exactly the transitions "
        "of the specification, in the same kind of container; so does renumbering of topologies with 2 to 5 final states."
    )
    events += topologies(check.seed, check.n(120, 1500)) + refusals()
    check.judge("TraceReaction", events, canaries(events, ("drop", "spectator")))
