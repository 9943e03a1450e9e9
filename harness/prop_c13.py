"""C13: decay structures."""

from __future__ import annotations

import random
from fractions import Fraction

import numpy as np
import sympy as sp

from common import observe
from decays import corrupt, half


def project_particle(p):
    from ampform_dpd.decay import State

    is_state = isinstance(p, State)
    tag = f"{p.name}|{p.latex}|{p.spin}|{p.parity}|{p.mass}|{p.width}"
    return {"type": "state" if is_state else "particle", "index": p.index if is_state else -1, "name": p.name, "tag": tag}


def project(x):
    from ampform_dpd.decay import IsobarNode

    if isinstance(x, IsobarNode):
        ls = [] if x.interaction is None else [int(x.interaction.L), int(2 * x.interaction.S)]
        return {"type": "node", "parent": project(x.parent), "c1": project(x.child1), "c2": project(x.child2), "ls": ls}
    return project_particle(x)


def ls_list(x):
    return [] if x is None else [int(x.L), int(2 * x.S)]


def chain_queries(chain):
    return {
        "spectator": project(chain.spectator), "products": [project(x) for x in chain.decay_products],
        "resonance": project(chain.resonance), "parent": project(chain.parent), "initial": project(chain.initial_state),
        "final": [project(x) for x in chain.final_state], "production": project(chain.production_node),
        "decay": project(chain.decay_node), "incoming": ls_list(chain.incoming_ls), "outgoing": ls_list(chain.outgoing_ls),
    }


def chain_event(root, label):
    from ampform_dpd.decay import ThreeBodyDecayChain

    ev = {"kind": "chain", "label": label, "raised": "", "chain": project(root), "queries": {}}
    status, chain = observe(ThreeBodyDecayChain, root)
    if status == "raised":
        return {**ev, "raised": chain}
    status, queries = observe(chain_queries, chain)
    if status == "raised":
        return {**ev, "raised": f"query {queries}"}
    return {**ev, "queries": queries}


def shape_root(shape, salt):
    """The node that MCStructure!Chain describes."""
    from ampform_dpd.decay import IsobarNode, Particle, State

    def outer(slot):
        n = shape[slot]
        args = (f"{slot}{salt}", f"{slot}_{{{salt}}}", half(salt % 4), 1, 0.1 + salt % 7, 0.0)
        return Particle(*args) if n == 9 else State(*args, n)

    a, b, c, p = (outer(s) for s in "abcp")
    R = Particle("R", "R", half(salt % 5), -1, 1.0, 0.1)
    dec = IsobarNode(R, a, IsobarNode(R, b, c) if shape["nested"] else b, (salt % 3, half(salt % 2)))
    return {
        "node first": lambda: IsobarNode(p, dec, c, (1, half(1))),
        "node second": lambda: IsobarNode(p, c, dec),
        "no node": lambda: IsobarNode(p, a, b),
        "two nodes": lambda: IsobarNode(p, dec, IsobarNode(R, c, a)),
    }[shape["arr"]]()


NAMES = ("R0", "R1", "R2", "r0", "p1", "p", "P_2", "R", "")


def random_decay(rng):
    """States in any order, chains that may have a wrong state."""
    from ampform_dpd.decay import IsobarNode, Particle, State, ThreeBodyDecayChain

    same = rng.random() < 0.3
    def mk(i, mass):
        return State("p" if same and i else f"p{i}", f"P_{i}", half(i % 3), 1, mass, 0.0, i)
    states = {i: mk(i, 1.0 if same and i else 1.0 + i) for i in range(4)}
    wrong = rng.random() < 0.35
    n_chains = rng.randint(0, 5)
    bad = rng.randrange(n_chains) if wrong and n_chains else -1
    chains = []
    for n in range(n_chains):
        own = dict(states)
        if n == bad:
            i = rng.randrange(4)
            own[i] = (mk(i, 9.0), State(states[i].name, states[i].latex, states[i].spin, -1, states[i].mass, 0.0, i),
                      mk(i + 4, 1.0))[rng.randrange(3)]
        k = rng.choice([1, 2, 3])
        i, j = [x for x in (1, 2, 3) if x != k]
        if rng.random() < 0.5:
            i, j = j, i
        R = Particle(rng.choice(NAMES[:5]), rng.choice(NAMES), half(2 * rng.randrange(3)), 1, 1.0 + rng.randrange(2), 0.1)
        L = rng.randrange(3)
        node = IsobarNode(R, own[i], own[j], (L, half(rng.randrange(4))) if rng.random() < 0.6 else None)
        kids = (node, own[k]) if rng.random() < 0.5 else (own[k], node)
        chains.append(ThreeBodyDecayChain(IsobarNode(own[0], *kids, (1, half(1)) if rng.random() < 0.6 else None)))
    order = list(range(4))
    rng.shuffle(order)
    return {i: states[i] for i in order}, chains


def decay_event(states, chains, label):
    import warnings

    from ampform_dpd.decay import ThreeBodyDecay

    ev = {
        "kind": "decay", "label": label, "raised": "", "queries": {},
        "decay": {"states": [project(s) for s in states.values()], "chains": [project(c.decay) for c in chains]},
    }
    status, decay = observe(ThreeBodyDecay, states, chains)
    if status == "raised":
        return {**ev, "raised": decay}

    def find(name):
        status, c = observe(decay.find_chain, name)
        if status == "raised":
            return [] if c == "KeyError" else [c]
        return [project(c.decay)]

    def sub(k):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            d = decay.get_subsystem(k)
        return {"chains": [project(c.decay) for c in d.chains], "states": [project(s) for s in d.states.values()],
                "warned": any(issubclass(x.category, UserWarning) for x in w)}

    def queries():
        return {
            "initial": project(decay.initial_state), "final": {str(i): project(s) for i, s in decay.final_state.items()},
            "chains": [project(c.decay) for c in decay.chains], "find": {n: find(n) for n in (*NAMES, "X", "R0 ")},
            "subsystems": [sub(k) for k in (1, 2, 3)],
        }

    status, q = observe(queries)
    if status == "raised":
        return {**ev, "raised": f"query {q}"}
    return {**ev, "queries": q}


FORMS = {
    "float": float, "fraction": Fraction, "string": str, "rational": lambda f: sp.Rational(f.numerator, f.denominator),
    "numpy": lambda f: np.float64(float(f)),
    "int": lambda f: int(f) if f.denominator == 1 else float(f),
}


def spin_event(value, where, form="float"):
    from ampform_dpd.decay import LSCoupling, Particle

    f = Fraction(value)
    value = FORMS[form](f)
    if where == "particle":
        status, p = observe(Particle, "p", "p", value, 1, 1.0, 0.0)
        got = p.spin if status == "ok" else None
    elif where == "S":
        status, p = observe(LSCoupling, 1, value)
        got = p.S if status == "ok" else None
    else:
        from ampform_dpd.decay import IsobarNode, State

        kids = [State("a", "a", 0, 1, 1.0, 0.0, 1), State("b", "b", 0, 1, 1.0, 0.0, 2)]
        status, p = observe(IsobarNode, Particle("R", "R", 0, 1, 1.0, 0.0), *kids, (1, value))
        got = p.interaction.S if status == "ok" else None
    return {"kind": "spin", "label": f"{where} {f} as {form}", "num": f.numerator, "den": f.denominator,
            "accepted": status == "ok", "got": [] if got is None else [int(got.p), int(got.q)]}


def coupling_event(rng, form):
    """An interaction that is given in one of several forms."""
    from ampform_dpd.decay import IsobarNode, LSCoupling, Particle, State

    L, S = rng.randrange(5), half(rng.randrange(6))
    given = {
        "coupling": lambda: LSCoupling(L, S), "pair": lambda: (L, S), "none": lambda: None, "list": lambda: [L, S],
        "number": lambda: L, "string": lambda: f"{L}{L}", "triple": lambda: (L, S, L), "single": lambda: (L,), "empty": tuple,
        "mapping": lambda: {L: S, L + 1: S}, "set": lambda: {L, L + 1},
    }[form]()
    kids = [State("a", "a", 0, 1, 1.0, 0.0, 1), State("b", "b", 0, 1, 1.0, 0.0, 2)]
    status, node = observe(IsobarNode, Particle("R", "R", 0, 1, 1.0, 0.0), *kids, given)
    got = ["refused"]
    if status == "ok":
        x = node.interaction
        got = [] if x is None else [x.L, int(2 * x.S)] if isinstance(x, LSCoupling) else ["kept"]
    return {"kind": "coupling", "label": f"interaction as {form} {L} {S}", "form": form, "ls": [L, int(2 * S)], "got": [str(x) for x in got]}


COUPLING_FORMS = ("coupling", "pair", "none", "list", "number", "string", "triple", "single", "empty", "mapping", "set")


def run(check):
    from ampform_dpd.decay import get_decay_product_ids

    check.rule = (
        "all arrangements of a production node over numbers 0..3 and non-states (exhaustive, generated by TLC), random"
        " decays with well-formed and wrong chains in any order of states, and spins n/8;"
        " non-trivial: well-formed and queried"
    )
    shapes = check.enumerate("MCStructure", "MCStructure.cfg")
    events = []
    for n, shape in enumerate(shapes):
        status, root = observe(shape_root, shape, n % 12)
        if status == "raised":
            events.append({"kind": "spin", "label": f"building {shape}: {root}", "num": 1, "den": 1, "accepted": False, "got": []})
            continue
        events.append(chain_event(root, f"{shape}"))
    rng = random.Random(f"C13/{check.seed}")
    for n in range(check.n(400, 6000)):
        events.append(decay_event(*random_decay(rng), f"decay {n}"))
    for n in range(0, 41):
        for where in ("particle", "S", "node"):
            events.append(spin_event(Fraction(n, 8), where))
            form = rng.choice([x for x in FORMS if x != "float"])
            den = rng.choice([8, 2, 2, 3 if form in {"fraction", "string", "rational"} else 4])
            events.append(spin_event(Fraction(n, den), where, form))
    for _ in range(check.n(4, 20)):
        events += [coupling_event(rng, form) for form in COUPLING_FORMS]
    for k in (0, 1, 2, 3, 4, -1):
        status, got = observe(get_decay_product_ids, k)
        events.append({"kind": "products", "label": f"products {k}", "k": k, "raised": got if status == "raised" else "",
                       "got": list(got) if status == "ok" else []})
    nontrivial = [n for n, e in enumerate(events) if e.get("queries")]
    check.extra["distinct_nontrivial"] = len(nontrivial)
    check.extra["exhaustive_chain_shapes"] = len(shapes)
    canaries = []
    n = next((n for n in nontrivial if events[n]["kind"] == "chain"), None)
    if n is not None:
        e = events[n]
        q = e["queries"]
        canaries += [
            (corrupt(e, n, queries={**q, "products": q["products"][::-1]}), "decay products"),
            (corrupt(e, n, raised="ValueError"), "well-formed chain refused"),
            (corrupt(e, n, queries={**q, "final": q["final"][::-1]}), "final state"),
        ]
    n = next((n for n in nontrivial if events[n]["kind"] == "decay" and len(events[n]["decay"]["chains"]) > 1), None)
    if n is not None:
        e = events[n]
        q = e["queries"]
        canaries.append((corrupt(e, n, queries={**q, "chains": q["chains"][:-1]}), "chains"))
        subs = [dict(s, warned=not s["warned"]) for s in q["subsystems"]]
        canaries.append((corrupt(e, n, queries={**q, "subsystems": subs}), "subsystem"))
    n = next(n for n, e in enumerate(events) if e["kind"] == "coupling" and e["form"] == "pair")
    canaries += [(corrupt(events[n], n, got=["refused"]), "coupling of a vertex"), (corrupt(events[n], n, form="list"), "coupling of a vertex")]
    check.judge("TraceStructure", events, canaries)
