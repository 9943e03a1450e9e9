"""Reactions of qrules, their projection, and histories of operations on them."""

from __future__ import annotations

import random
from fractions import Fraction

from common import observe

OPS = {"normalise", "permute", "convert", "filter"}
SCALE = 64  # masses and widths are multiples of 1/64


def particle_event(p):
    def scaled(x):
        y = float(x) * SCALE
        return round(y) if y == round(y) else -1

    spin = 2 * Fraction(str(p.spin))
    return {
        "name": p.name, "latex": p.latex or "", "spin": int(spin) if spin.denominator == 1 else -1,
        "parity": 0 if p.parity is None else int(p.parity), "mass": scaled(p.mass), "width": scaled(p.width),
    }


def state_event(st, nr, inner=False):
    from ampform_dpd.decay import Particle, State

    if isinstance(st, Particle):
        hel = 99 if inner != isinstance(st, State) else 98
        if isinstance(st, State) and st.index != nr:
            nr = -99
        return {"id": nr, "hel": hel, "p": particle_event(st)}
    return {"id": nr, "hel": int(2 * Fraction(str(st.spin_projection))), "p": particle_event(st.particle)}


def ls_event(node):
    from ampform_dpd.decay import LSCoupling

    if node is None:
        return [-1, -1]
    if isinstance(node, LSCoupling):
        l, s = node.L, node.S
    else:
        l, s = node.l_magnitude, node.s_magnitude
    return [-1 if l is None else int(l), -1 if s is None else int(2 * Fraction(str(s)))]


def transition_event(t):
    top = t.topology
    (i,) = top.incoming_edge_ids
    (x,) = top.intermediate_edge_ids
    (s,) = top.get_edge_ids_outgoing_from_node(0) - {x}
    return {
        "i": state_event(t.states[i], i), "x": state_event(t.states[x], x, inner=True),
        "f": [state_event(t.states[n], n) for n in sorted(top.outgoing_edge_ids)], "s": s,
        "ls": [ls_event(t.interactions[0]), ls_event(t.interactions[1])],
    }


def chain_event(c):
    from ampform_dpd.decay import State

    ids = [p.index for p in c.decay_products] if all(isinstance(p, State) for p in c.decay_products) else [-9, -9]
    return {
        "x": particle_event(c.resonance), "s": c.spectator.index, "ls": [ls_event(c.incoming_ls), ls_event(c.outgoing_ls)],
        "d": ids,
    }


class Catalogue:
    """Particles with random properties."""

    def __init__(self, rng, homonyms=True) -> None:
        self.rng, self.known, self.homonyms = rng, {}, homonyms

    def get(self, name):
        from qrules.particle import Particle

        if name not in self.known:
            rng = self.rng
            shown = name + rng.choice(["", "", "_1", "(1260)+", "*0", "_{x}^~", " 2", r"\\d"])
            while shown in {p.name for p in self.known.values()}:
                shown += "'"
            twin = {}
            if name == "Q" and self.homonyms and rng.random() < 0.3:  # noqa: PLR2004
                other = self.get("R")
                shown = other.name  # another resonance of the same name
                if rng.random() < 0.6:  # noqa: PLR2004 (and nearly the same properties)
                    twin = {x: getattr(other, x) for x in ("latex", "spin", "mass", "width")}
                    twin.pop(rng.choice(("spin", "mass", "width")))
            parity = self.get("R").parity if "R" in self.known and shown == self.known["R"].name else rng.choice([None, 1, -1])
            width = rng.choice([0, 0, 3, 7]) if name in "abcA" else 2 + rng.randrange(20)
            self.known[name] = Particle(**{
                "name": shown, "pid": len(self.known) + 1,
                "latex": rng.choice([None, f"\\mathrm{{{name}}}_{{{rng.randrange(9)}}}"]),
                "spin": Fraction(rng.randrange(6), 2), "parity": parity,
                "mass": (10 * len(self.known) + 1 + rng.randrange(9)) / SCALE, "width": width / SCALE, **twin,
            })
        return self.known[name]


def topology(spect, nrs):
    """Three-body topology with given numbers of the states."""
    from qrules.topology import Edge, Topology

    nr = nrs.__getitem__
    edges = {nr(0): Edge(None, 0), nr(4): Edge(0, 1)}
    for n in (1, 2, 3):
        edges[nr(n)] = Edge(0 if n == spect else 1, None)
    return Topology(nodes={0, 1}, edges=edges)


class Session:
    """Replay of one history of module ReactionMachine."""

    def __init__(self, history, seed) -> None:
        self.h, self.rng = history, random.Random(f"reaction/{seed}")
        self.label = f"history {seed}"
        self.catalogue = Catalogue(self.rng)
        # which vertices have couplings, and how missing ones are written
        self.given = [self.rng.random() < 0.8, self.rng.random() < 0.8]  # noqa: PLR2004
        if self.rng.random() < 0.6:  # noqa: PLR2004
            self.given = [True, True]
        # vertices may also have couplings in some transitions only
        self.mixed = self.rng.random() < 0.12  # noqa: PLR2004
        self.label += " of mixed couplings" if self.mixed else ""
        self.missing = self.rng.choice([(None, None), (1, None), (None, Fraction(1))])
        self.objects: list = []
        self.events: list = []

    def make(self, a):
        from qrules.quantum_numbers import InteractionProperties
        from qrules.topology import FrozenTransition
        from qrules.transition import State

        nrs, rng = self.h["nrs"], self.rng

        def state(name, hel=None):
            p = self.catalogue.get(name)
            if hel is None:
                hel = Fraction(rng.randrange(int(2 * p.spin) + 1)) - p.spin
            return State(p, hel)

        def node(v, code):
            if not self.given[v] or self.mixed and rng.random() < 0.3:  # noqa: PLR2004
                l, s = self.missing
                return InteractionProperties(l_magnitude=l, s_magnitude=s)
            return InteractionProperties(
                l_magnitude=code // 10, s_magnitude=Fraction(code % 10, 2),
                l_projection=0, s_projection=rng.choice([Fraction(0), Fraction(1, 2)]),
            )

        states = {nrs[0]: state("A"), nrs[4]: state(a["res"], Fraction(a["hel"], 2))}
        for n in (1, 2, 3):
            states[nrs[n]] = state(self.h["same"][n - 1])
        nodes = {0: node(0, a["prod"]), 1: node(1, a["dec"])}
        shuffled = lambda d: {k: d[k] for k in rng.sample(sorted(d), len(d))}  # noqa: E731
        return FrozenTransition(topology(a["spect"], nrs), shuffled(states), shuffled(nodes))

    def run(self):
        for n, a in enumerate(self.h["steps"]):
            if a["op"] == "add":
                self.objects.append(self.make(a["arg"]))
            elif a["op"] == "decay":
                self.decay(a, n)
            elif not self.operate(a, n):
                break
        return self.events

    def container(self, fresh):
        """The objects, in random order and kind of container."""
        rng = self.rng
        objects = rng.sample(self.objects, len(self.objects))
        raw = not hasattr(objects[0].states[min(objects[0].states)], "mass")
        kinds = ["list", "tuple", "iterator", "single"] if fresh else ["list", "tuple", "iterator"]
        if raw and fresh and not self.mixed:
            kinds += ["reaction", "reaction"]
        return objects, rng.choice(kinds)

    def operate(self, a, n):
        from qrules.topology import FrozenTransition
        from qrules.transition import ReactionInfo

        from ampform_dpd.adapter.qrules import (
            convert_transitions, filter_min_ls, normalize_state_ids, permute_equal_final_states,
        )

        op = a["op"]
        function = {"normalise": normalize_state_ids, "permute": permute_equal_final_states,
                    "convert": convert_transitions, "filter": filter_min_ls}[op]
        objects, kind = self.container(op in {"normalise", "permute"})
        args = ()
        if op == "filter":
            nodes = {v - 1 for v in a["arg"]["nodes"]}
            args = (None if nodes == {0, 1} and self.rng.random() < 0.5 else nodes,)  # noqa: PLR2004
        result_type = tuple if op in {"convert", "filter"} else list
        pre = [transition_event(t) for t in objects]
        given = tuple(args)
        if kind == "reaction":
            argument = ReactionInfo(objects, "helicity")
            status, out = observe(function, argument)
            typed = status == "ok" and isinstance(out, ReactionInfo) and out.formalism == "helicity"
            post = list(out.transitions) if typed else []
        elif kind == "single":
            mutable = op == "normalise" and self.rng.random() < 0.5  # noqa: PLR2004
            status, typed, post = "ok", True, []
            for t in objects:
                argument = t.unfreeze() if mutable else t
                status, out = observe(function, argument)
                if status == "raised":
                    break
                if op == "permute":
                    typed &= isinstance(out, list)
                    post += out
                else:
                    typed &= type(out) is type(argument)
                    post.append(out.freeze() if mutable else out)
        else:
            argument = {"list": list, "tuple": tuple, "iterator": iter}[kind](objects)
            if op == "convert" and self.mixed and self.rng.random() < 0.5:  # noqa: PLR2004 (each on its own)
                status, out = observe(lambda: tuple({x: None for t in objects for x in function([t])}))
            else:
                status, out = observe(function, argument, *args)
            typed = status == "ok" and isinstance(out, result_type)
            post = list(out) if typed else []
        event = {
            "kind": "op", "op": op, "arg": a["arg"], "label": f"{self.label} step {n} {op} of a {kind}", "pre": pre,
            "raised": out if status == "raised" else "", "typed": typed, "sorts": kind == "reaction",
            "kept": [transition_event(t) for t in objects] == pre and args == given,
            "post": [],
        }
        self.events.append(event)
        if status == "raised" or not typed or not all(isinstance(t, FrozenTransition) for t in post):
            event["typed"] = status == "raised"
            return False
        event["post"] = [transition_event(t) for t in post]
        self.objects = post
        return True

    def decay(self, a, n):
        from ampform_dpd.adapter.qrules import to_three_body_decay

        objects, kind = self.container(False)
        pre = [transition_event(t) for t in objects]
        nodes = set(a["arg"]["nodes"])
        if not a["arg"]["select"]:
            min_ls = False
        elif nodes == {1, 2} and self.rng.random() < 0.5:  # noqa: PLR2004
            min_ls = True
        else:
            min_ls = (1 in nodes, 2 in nodes)
        argument = {"list": list, "tuple": tuple, "iterator": iter}[kind](objects)
        # no selection is the default
        status, out = observe(to_three_body_decay, argument, *([min_ls] if min_ls or n % 2 else []))
        event = {
            "kind": "decay", "op": "decay", "arg": a["arg"], "label": f"{self.label} step {n} decay min_ls={min_ls}", "pre": pre,
            "raised": out if status == "raised" else "", "kept": [transition_event(t) for t in objects] == pre,
            "states": [], "chains": [], "same": True,
        }
        self.events.append(event)
        if status == "ok":
            event["states"] = [{"key": k, "st": state_event(st, k)} for k, st in out.states.items()]
            event["chains"] = [chain_event(c) for c in out.chains]
            event["same"] = all(
                c.parent == out.states[0] and c.spectator == out.states[c.spectator.index]
                and all(p == out.states[p.index] for p in c.decay_products) for c in out.chains
            )


def corrupt(event, how):
    import copy

    e = copy.deepcopy(event)
    if how == "drop":
        e["chains" if e["kind"] == "decay" else "post"].pop()
        e["post"] = e.get("post", [])
    elif how == "ls":
        ls = e["chains"][0]["ls"] if e["kind"] == "decay" else e["post"][0]["ls"]
        ls[0] = [7, 7]
    elif how == "spectator":
        x = e["chains"][0] if e["kind"] == "decay" else e["post"][0]
        x["s"] += 77
    return e
