"""C08: every chain gets the lineshape registered for it."""

from __future__ import annotations

import random

import sympy as sp

from common import bump, generate, observe, pmap
from decays import (
    FAIL, Projection, build_decay, corrupt, coupling_defaults, random_config,
)
from gf import P
from geom import HalfAngles

N, SHAPES = 4, (1, 2, 3)


def shape_symbol(c, shape):
    return sp.Symbol(f"X_{c}_{shape}")


class Shape:
    """A lineshape builder whose result shows for which chain it was called."""

    def __init__(self, shape, decay) -> None:
        self.shape = shape
        self.decay = decay

    def __call__(self, chain):
        from ampform_dpd import DefinedExpression

        c = self.decay.chains.index(chain) + 1
        return DefinedExpression(shape_symbol(c, self.shape), {
            sp.Symbol(f"p{self.shape}_{c}"): 100 * self.shape + c, sp.Symbol(f"q{self.shape}"): 1000 + self.shape,
        })


def foreign_chains(decay, rng):
    """For each chain of the decay one that differs in one respect."""
    from attrs import evolve

    from ampform_dpd.decay import IsobarNode, ThreeBodyDecayChain

    def made(chain, how):
        top, node = chain.decay, chain.decay_node
        first = isinstance(top.child1, IsobarNode)
        k, (a, b), parent, R = chain.spectator, chain.decay_products, top.parent, node.parent
        prod, dec = top.interaction, node.interaction
        if how == "production LS":
            prod = (7, 3 if prod is None else prod.S)
        elif how == "decay LS":
            dec = (7, 3 if dec is None else dec.S)
        elif how == "no production LS":
            prod = None
        elif how == "no decay LS":
            dec = None
        elif how == "decay products":
            a, b = b, a
        elif how == "children":
            first = not first
        elif how == "spectator":
            k, a = a, k
        elif how in {"mass", "width"}:
            R = evolve(R, **{how: getattr(R, how) + 0.125})
        elif how == "parity":
            R = evolve(R, parity=-R.parity)
        elif how == "spin":
            R = evolve(R, spin=R.spin + 1)
        elif how == "name":
            R = evolve(R, name=R.name + "'")
        elif how == "latex":
            R = evolve(R, latex=R.latex + "'")
        elif how == "initial state":
            parent = evolve(parent, mass=parent.mass + 0.125)
        elif how == "spectator state":
            k = evolve(k, mass=k.mass + 0.125)
        else:
            a = evolve(a, parity=-a.parity)
        isobar = IsobarNode(R, a, b, dec)
        return ThreeBodyDecayChain(IsobarNode(parent, *((isobar, k) if first else (k, isobar)), prod))

    out = []
    for chain in decay.chains:
        while True:
            how = rng.choice(DIFFERENCES)
            other = made(chain, how)
            if all(signature(other) != signature(c) for c in decay.chains):
                break
        out.append((how, other))
    return out


DIFFERENCES = ("production LS", "decay LS", "no production LS", "no decay LS", "decay products", "children", "spectator", "mass",
               "width", "parity", "spin", "name", "latex", "initial state", "spectator state", "decay product state")


def signature(chain):
    """The chain as text, independent of how the code compares."""
    from prop_c13 import project

    return str(project(chain.decay))


def with_names(cfg, names):
    """The decay with the given resonance names; None if two chains become the same."""
    chains = [dict(c, name=n) for c, n in zip(cfg["chains"], names)]
    return {**cfg, "chains": chains}


class History:
    def __init__(self, cfg, seed) -> None:
        from ampform_dpd import DalitzPlotDecompositionBuilder

        self.cfg, self.seed = cfg, seed
        self.decay = build_decay(cfg)
        self.copy = build_decay(cfg)  # equal chains that are other objects
        self.foreign = foreign_chains(self.decay, random.Random(f"{seed}/foreign"))
        self.shapes = {s: Shape(s, self.decay) for s in SHAPES}
        self.builders = {
            n: DalitzPlotDecompositionBuilder(self.decay, min_ls=(cfg["prodHel"], cfg["decHel"])) for n in (1, 2)
        }
        self.half = HalfAngles(random.Random(f"{seed}/angles"))
        rng = random.Random(f"{seed}/X")
        self.x = [[(rng.randrange(1, P), rng.randrange(1, P)) for _ in SHAPES] for _ in range(N)]

    def identifier(self, i, n):
        if i["by"] == "name":
            return i["name"]
        if i["by"] == "chain":
            return (self.decay if n % 2 else self.copy).chains[i["chain"] - 1]
        if i["by"] == "foreign chain":
            return self.foreign[n % N][1]
        return (3, None, ("R0",), 1.5)[n % 4]

    def shape_of(self, builder, c):
        """Which lineshape a registered builder is; 0 for none."""
        for s, b in self.shapes.items():
            if builder is b:
                return s
        status, result = observe(builder, self.decay.chains[c])
        if status == "ok":
            for s in SHAPES:
                if any(result.expression == shape_symbol(k + 1, s) for k in range(N)):
                    return s
            if result.expression == 1 and not result.parameters:
                result.parameters[sp.Symbol("stray")] = 7  # of nobody's concern but this object's
                return 0
        return -1

    def step(self, a, n):
        b = self.builders[a["on"]]
        dyn = b.dynamics_choices
        out = {**a, "raised": ""}
        if a["op"] == "register":
            status, got = observe(dyn.register_builder, self.identifier(a["id"], n), self.shapes[a["shape"]])
            return {**out, "raised": got if status == "raised" else ""}
        if a["op"] == "get":
            status, got = observe(dyn.get_builder, self.identifier(a["id"], n))
            if status == "raised":
                return {**out, "raised": got, "shape": -1}
            i = a["id"]
            if i["by"] == "chain":
                c = i["chain"] - 1
            else:
                c = next((c for c, x in enumerate(self.cfg["chains"]) if x["name"] == i["name"]), 0)
            return {**out, "shape": self.shape_of(got, c)}
        out.update(amps={"": FAIL}, intensity=FAIL, variants={"": FAIL}, couplings=[], defaults=[], params={"": 0})
        del out["variants"][""]
        status, model = observe(b.formulate, reference_subsystem=self.cfg["ref"] or None, use_coefficients=self.cfg["coef"])
        if status == "raised":
            return {**out, "raised": model, "variants": {"": FAIL}}
        proj = Projection(self.cfg, model, self.seed, self.half)
        proj.evaluator.values = {shape_symbol(c + 1, s): self.x[c][s - 1] for c in range(N) for s in SHAPES}
        for c in range(n % 2, N, 2):
            got = observe(dyn.get_builder, self.decay.chains[c])
            if got[0] == "ok":
                self.shape_of(got[1], c)
        out["amps"] = proj.amplitudes()
        out["intensity"] = proj.intensity()
        out["variants"] = {"base": out["intensity"]}
        defaults = coupling_defaults(model)
        out["couplings"] = sorted(defaults)
        out["defaults"] = sorted(k for k, v in defaults.items() if v == 1)
        out["params"] = {
            s.name: int(v) for s, v in model.parameter_defaults.items()
            if isinstance(s, sp.Symbol) and s not in model.masses
        } or {"": 0}
        self.keys = getattr(self, "keys", {}) | {
            k: list(proj.couplings.value(k)) for k in proj.couplings.used | set(defaults)
        }
        return out


def history_event(job):
    cfg, seed, label, steps = job
    h = History(cfg, seed)
    h.keys = {}
    out = [h.step(a, n) for n, a in enumerate(steps)]
    return {
        "label": label, "spins": cfg["spins"], "ref": cfg["ref"], "prodHel": cfg["prodHel"], "decHel": cfg["decHel"],
        "coef": cfg["coef"], "judgeDefaults": True, "names": [c["name"] for c in cfg["chains"]],
        "chains": [dict(c, x=[0, 0]) for c in cfg["chains"]], "X": h.x, "H": h.keys or {"": FAIL},
        "h": h.half.as_json(), "steps": out,
    }


def run(check):
    check.rule = (
        "histories of registering (by first name, chain, equal copy of a chain, unknown name, foreign chain, wrong type),"
        " looking up and formulating on two builders of one decay with four chains, generated by TLC from Registration;"
        " every formulated model is judged with the lineshapes the state of the specification says;"
        " non-trivial: a lineshape is registered when formulating"
    )
    check.model_check("Registration", "MCRegistrationThorough.cfg" if check.thorough else "MCRegistration.cfg")
    rng = random.Random(f"C08/{check.seed}")
    count = check.n(40, 400)
    histories = generate("Registration", "GenRegistration.cfg", check.scratch, count, 9, check.seed)
    by_prefix = {}
    for h in histories:
        by_prefix.setdefault(str((h["names"], h["steps"][:-1])), []).append(h)
    chosen = [rng.choice(v) for v in by_prefix.values()][:count]
    jobs = []
    for n, h in enumerate(chosen):
        while True:
            cfg = random_config(rng, max_dim=6, max_j=3, n_chains=(N, N), shared_names=0.0,
                                basis=(n % 3 != 1, n % 4 != 1), coef=n % 5 == 2)
            if len(cfg["chains"]) == N:
                break
        cfg = with_names(cfg, h["names"])
        if n % 2:  # resonances of one name are one particle, as far as the structure allows
            first = {}
            for c in cfg["chains"]:
                c["R"] = first.setdefault(c["name"], c["R"])
                c["mass"] = 1.5
            sigs = [tuple(str(c[f]) for f in ("name", "k", "J", "prodLS", "decLS", "prodSwap", "decSwap")) for c in cfg["chains"]]
            for c, s in zip(cfg["chains"], sigs):
                if sigs.count(s) > 1:
                    c["mass"] = 1.0 + 0.1 * sigs.index(s) + 0.01 * cfg["chains"].index(c)
        jobs.append((cfg, f"{check.seed}/{n}", f"history {n}", h["steps"]))
    events = pmap(history_event, jobs)
    check.extra["histories"] = len(events)
    check.extra["steps"] = sum(len(e["steps"]) for e in events)
    check.extra["distinct_nontrivial"] = sum(any(len(s.get("params", ())) > 1 for s in e["steps"]) for e in events)
    canaries = []
    for n, e in enumerate(events):
        steps = e["steps"]
        f = next((i for i, s in enumerate(steps) if s["op"] == "formulate" and len(s["params"]) > 1), None)
        if f is None:
            continue

        def changed(i, **kw):
            return [*steps[:i], {**steps[i], **kw}, *steps[i + 1:]]

        s = steps[f]
        key = next((k for k, v in s["amps"].items() if v != [0, 0]), None)
        canaries += [
            (corrupt(e, n, steps=changed(f, params={"stray": 1, **s["params"]})), "superfluous parameter"),
            (corrupt(e, n, steps=changed(f, params={"": 0})), "missing parameter"),
        ]
        if key:
            canaries.append((corrupt(e, n, steps=changed(f, amps={**s["amps"], key: bump(s["amps"][key])})), "amplitude"))
        r = next((i for i, x in enumerate(steps) if x["op"] == "register"), None)
        if r is not None:
            canaries.append((corrupt(e, n, steps=changed(r, raised="" if steps[r]["raised"] else "KeyError")), "identifier"))
        g = next((i for i, x in enumerate(steps) if x["op"] == "get" and not x["raised"]), None)
        if g is not None:
            canaries.append((corrupt(e, n, steps=changed(g, shape=9)), "lineshape of the chain"))
        if len(canaries) > 4:
            break
    check.judge("TraceRegistration", events, canaries)
