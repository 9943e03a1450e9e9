"""Random three-body decays and the projection of amplitude models to trace events."""

from __future__ import annotations

import random
import re
import zlib
from fractions import Fraction

import sympy as sp

from common import observe
from geom import NEXT, PREV, HalfAngles, assign
from gf import Evaluator, P

FAIL = [-1, -1]


def half(n):
    return sp.Rational(n, 2)


NUMBERS = {"rational": half, "float": lambda n: n / 2, "fraction": lambda n: Fraction(n, 2)}


def ls_couplings(J, s1, s2, lmax=4):
    """Allowed [L, 2S] of 2J -> 2s1, 2s2 (harness-side generator of inputs)."""
    out = []
    for L in range(lmax + 1):
        for S in range(abs(s1 - s2), s1 + s2 + 1, 2):
            if abs(2 * L - S) <= J <= 2 * L + S and (2 * L + S - J) % 2 == 0:
                out.append([L, S])
    return out


def random_spins(rng, max_spin=3, max_dim=40):
    while True:
        s = [rng.choice([0, 1, 1, 2, 2, 3, 4][: max_spin + 3]) for _ in range(4)]
        s = [x for x in s]
        if sum(x % 2 for x in s) % 2:
            continue
        if max(s) > max_spin:
            continue
        dim = 1
        for x in s:
            dim *= x + 1
        if dim <= max_dim:
            return s


MASSES = [
    (2.28646, 0.938272046, 0.13957018, 0.493677),
    (3.0969, 0.497611, 1.18937, 0.93827),
    (5.279, 0.5, 1.7, 0.14),
    (1.7, 0.3, 0.2, 0.7),
]


# names that are easily confused
CLOSE = [
    [R"\rho", R"\rho^{0}", R"\rho^{+}", R"\rho^{-}", R"\rho^{*}", R"\rho'", R"\overline{\rho}"],
    ["K^*", "K^{*0}", "K", "k", "K_{0}", "K^{0}", "K^*_0"],
    [R"\Lambda(1520)", R"\Lambda(1690)", R"\Lambda(1520)^{0}", R"\Lambda", R"\Delta(1520)", "L(1520)", R"\Lambda(1520)^{++}"],
]


def latex_of(name, style):
    n = int(name[1:])
    if style < 0.7 or n >= len(CLOSE[0]):  # noqa: PLR2004
        return "\\rho_{" + name[1:] + "}"
    return CLOSE[int((style - 0.7) * 10)][n]


def random_config(rng, *, n_chains=(1, 4), max_spin=3, max_dim=40, max_j=5, subsystems=None, spins=None,
                  basis=(True, True), coef=False, shared_names=0.25, high_j=0.1):
    """A JSON-able description of a decay plus formulation options."""
    spins = random_spins(rng, max_spin, max_dim) if spins is None else list(spins)
    n = rng.randint(*n_chains)
    chains = []
    pool = subsystems or rng.sample([1, 2, 3], rng.randint(1, 3))
    attempts, style = 0, rng.random()
    while len(chains) < n and attempts < 200:
        attempts += 1
        k = rng.choice(pool)
        i, j = NEXT[k], PREV[k]
        par = (spins[i] + spins[j]) % 2
        if (par + spins[k] + spins[0]) % 2:
            continue
        top = max_j + (3 if rng.random() < high_j else 0)
        J = rng.choice([x for x in range(max(0, top - 5), top + 1) if x % 2 == par])
        dec_swap = rng.random() < 0.4
        prod_swap = rng.random() < 0.4
        dec = ls_couplings(J, spins[i], spins[j], 7 if J > 5 else 4)
        prod = ls_couplings(spins[0], J, spins[k], 7 if J > 5 else 4)
        if not dec or not prod:
            continue
        name, twin = f"R{len(chains)}", None
        if chains and rng.random() < shared_names:
            other = rng.choice(chains)
            if other["J"] == J:
                name = other["name"]
                twin = other if rng.random() < 0.6 else None  # the same particle, or only the same name
        c = {
            "k": k, "name": name, "R": latex_of(name, style), "J": J,
            "prodLS": rng.choice(prod), "decLS": rng.choice(dec),
            "prodSwap": prod_swap, "decSwap": dec_swap, "mass": 1.0 + 0.1 * (len(chains) % 7),
        }
        if twin:
            c["mass"] = twin["mass"]
        # keep chains distinct
        if any(all(c[f] == o[f] for f in ("k", "name", "prodLS", "decLS", "prodSwap", "decSwap")) for o in chains):
            continue
        chains.append(c)
    if not chains:
        return random_config(rng, n_chains=n_chains, max_spin=max_spin, max_dim=max_dim, max_j=max_j,
                             basis=basis, coef=coef, shared_names=shared_names, high_j=high_j)
    if all(basis) and rng.random() < 0.5:  # noqa: PLR2004
        chains = [dict(c, prodLS=[], decLS=[]) for c in chains]
        chains = [c for n, c in enumerate(chains) if c not in chains[:n]]
    names = random_names(rng, spins, chains)
    masses = list(rng.choice(MASSES))
    if rng.random() < 0.2:  # noqa: PLR2004
        masses[rng.randint(1, 3)] = 0.0
    return {
        "spins": spins, "chains": chains, "ref": rng.choice([0, 1, 2, 3]),
        "prodHel": basis[0], "decHel": basis[1], "coef": coef,
        "masses": [masses[n] for n in like(names)], "cleanup": False, "all": False, "names": names,
        "order": rng.sample(range(4), 4) if rng.random() < 0.3 else [0, 1, 2, 3],  # noqa: PLR2004
        "number": rng.choice(["rational", "rational", "float", "fraction"]),
    }


def random_names(rng, spins, chains):
    """Usually different names, but also identical final states, and resonances called like a state."""
    names = [f"p{i}" for i in range(4)]
    what = rng.random()
    if what < 0.25:  # noqa: PLR2004
        for i in (1, 2, 3):
            same = [j for j in (1, 2, 3) if j < i and spins[j] == spins[i]]
            if same and rng.random() < 0.8:  # noqa: PLR2004
                names[i] = names[same[0]]
    elif what < 0.35:  # noqa: PLR2004
        names[rng.randrange(4)] = rng.choice(chains)["name"]
    return names


def like(names):
    """The first state of the same name."""
    return [0, *(names.index(x, 1) for x in names[1:])]


def build_decay(cfg):
    from ampform_dpd.decay import IsobarNode, Particle, State, ThreeBodyDecay, ThreeBodyDecayChain

    names = cfg.get("names") or [f"p{i}" for i in range(4)]
    half = NUMBERS[cfg.get("number", "rational")]
    states = {
        i: State(names[i], f"P_{like(names)[i]}", half(cfg["spins"][i]), rng_parity(like(names)[i]), cfg["masses"][i], 0.0, i)
        for i in cfg.get("order", range(4))
    }
    chains = []
    for n, c in enumerate(cfg["chains"]):
        k = c["k"]
        i, j = NEXT[k], PREV[k]
        resonance = Particle(c["name"], c["R"], half(c["J"]), 1, c.get("mass", 1.0 + 0.1 * (n % 7)), c.get("width", 0.1))
        dec = (c["decLS"][0], half(c["decLS"][1])) if c["decLS"] else None
        prod = (c["prodLS"][0], half(c["prodLS"][1])) if c["prodLS"] else None
        a, b = (states[j], states[i]) if c["decSwap"] else (states[i], states[j])
        node = IsobarNode(resonance, a, b, dec)
        x, y = (states[k], node) if c["prodSwap"] else (node, states[k])
        chains.append(ThreeBodyDecayChain(IsobarNode(states[0], x, y, prod)))
    return ThreeBodyDecay(states, chains)


def rng_parity(i):
    return -1 if i % 2 else 1


class Couplings(dict):
    """Random but fixed value for every coupling key."""

    def __init__(self, seed, fixed=None) -> None:
        super().__init__()
        self.seed = seed
        self.used: set[str] = set()
        self.fixed = fixed or {}

    def __contains__(self, key) -> bool:
        return normalise_coupling(key) is not None

    def __getitem__(self, key):
        return self.value(normalise_coupling(key))

    def value(self, key: str):
        self.used.add(key)
        if key in self.fixed:
            return tuple(self.fixed[key])
        r = random.Random(zlib.crc32(f"{self.seed}/{key}".encode()))
        return r.randrange(1, P), r.randrange(1, P)


_LABEL = re.compile(r"^\\mathcal\{H\}\^\\mathrm\{(.*)\}$")


def normalise_coupling(key) -> str | None:
    """Textual key of a coupling parameter, cf. CouplingKeys in spec/DPD.tla."""
    m = _LABEL.match(key[0])
    if m is None:
        return None
    label = m.group(1)
    rest = list(key[1:])
    if label in {"production", "decay", "LS,production", "LS,decay"}:
        base, R = label, rest.pop(0)
    else:
        for prefix in ("LS,\\lambda,", "\\lambda,LS,", "LS,"):
            if label.startswith(prefix):
                base, R = prefix[:-1], label[len(prefix):]
                break
        else:
            base, R = "hel", label
    try:
        nums = [str(int(2 * Fraction(x))) for x in rest]
    except (ValueError, TypeError):
        return None
    return "|".join([base, str(R), *nums])


def amplitude_key(indexed: sp.Indexed) -> str:
    k = re.search(r"(\d)", str(indexed.base.label)).group(1)
    return "|".join([k, *(str(int(2 * Fraction(int(sp.Rational(x).p), int(sp.Rational(x).q)))) for x in indexed.indices)])


def coupling_defaults(model) -> dict[str, object]:
    out = {}
    for symbol, value in model.parameter_defaults.items():
        if isinstance(symbol, sp.Indexed):
            ev = Evaluator({}, {}, {})
            key = normalise_coupling(ev.index_key(symbol, {}))
            out[key if key is not None else str(symbol)] = value
    return out


def lineshape_symbol(n: int) -> sp.Symbol:
    return sp.Symbol(f"X_{n}")


def register_symbols(builder, decay, skip=(), lines=(), fixed=False):
    """Give every chain its own lineshape symbol X_n, or the one that is listed, or none.

    The builder makes the same object at each call, if this is fixed.
    """
    from ampform_dpd import DefinedExpression

    for n, chain in enumerate(decay.chains):
        if n in skip:
            continue
        if lines:
            n = lines[n]  # noqa: PLW2901
            if n is None:
                continue

        def make(n=n):
            return DefinedExpression(lineshape_symbol(n), {sp.Symbol(f"p_{n}"): float(n)})

        made = make() if fixed else None
        builder.dynamics_choices.register_builder(chain, lambda _c, made=made, make=make: made or make())


def formulate(cfg, decay=None):
    from ampform_dpd import DalitzPlotDecompositionBuilder

    decay = build_decay(cfg) if decay is None else decay
    builder = DalitzPlotDecompositionBuilder(
        decay, min_ls=(cfg["prodHel"], cfg["decHel"]), all_subsystems=cfg["all"]
    )
    register_symbols(builder, decay, lines=cfg.get("sharing", ()))
    return builder.formulate(
        reference_subsystem=cfg["ref"] or None,
        cleanup_summations=cfg["cleanup"],
        use_coefficients=cfg["coef"],
    )


def safe(evaluator, expr):
    try:
        return list(evaluator.ev(expr, {}))
    except Exception:  # noqa: BLE001
        return FAIL


class Projection:
    """Evaluate a model at a random point of couplings, lineshapes and angles."""

    def __init__(self, cfg, model, seed, half_angles=None, flip=(), fixed=None):
        rng = random.Random(f"{seed}/point")
        self.half = half_angles or HalfAngles(rng)
        self.x = [(rng.randrange(P), rng.randrange(P)) for _ in cfg["chains"]]
        self.couplings = Couplings(seed, fixed)
        xs = [
            ((-a % P, -b % P) if c["k"] in flip else (a, b))
            for (a, b), c in zip(self.x, cfg["chains"])
        ]
        values = {lineshape_symbol(n): v for n, v in enumerate(xs)}
        if "sharing" in cfg:
            self.x = [(1, 0) if n is None else self.x[n] for n in cfg["sharing"]]
        angles, self.unknown = assign(model.variables, self.half, rng)
        self.evaluator = Evaluator(values, angles, self.couplings, model.amplitudes)
        self.model = model

    def amplitudes(self):
        return {amplitude_key(k): safe(self.evaluator, k) for k in self.model.amplitudes}

    def intensity(self):
        return safe(self.evaluator, self.model.intensity)

    def full(self):
        return safe(self.evaluator, self.model.full_expression)


def model_event(cfg, seed, label, with_full=False, fixed=None):
    """Formulate a model with the code and record what it evaluates to."""
    ev = {
        "label": label, "raised": "", "spins": cfg["spins"], "ref": cfg["ref"],
        "prodHel": cfg["prodHel"], "decHel": cfg["decHel"], "coef": cfg["coef"], "cleanup": cfg["cleanup"],
        "all": cfg["all"], "amps": {"": FAIL}, "intensity": FAIL, "H": {"": FAIL}, "defaults": [], "couplings": [], "judgeDefaults": cfg.get("judgeDefaults", False),
        "variants": {"": FAIL},
    }
    status, model = observe(formulate, cfg)
    half_angles = HalfAngles(random.Random(f"{seed}/angles"))
    ev["h"] = half_angles.as_json()
    ev["chains"] = [dict(c, x=[0, 0]) for c in cfg["chains"]]
    if status == "raised":
        ev["raised"] = model
        return ev, None
    proj = Projection(cfg, model, seed, half_angles, fixed=fixed)
    ev["amps"] = proj.amplitudes()
    ev["intensity"] = proj.intensity()
    if with_full:
        ev["full"] = proj.full()
    ev["chains"] = [dict(c, x=list(x)) for c, x in zip(cfg["chains"], proj.x)]
    defaults = coupling_defaults(model)
    ev["defaults"] = sorted(k for k, v in defaults.items() if v == 1)
    ev["couplings"] = sorted(defaults)
    ev["variants"] = {"base": ev["intensity"]}
    keys = sorted(proj.couplings.used | set(defaults))
    ev["H"] = {k: list(proj.couplings.value(k)) for k in keys} or {"": FAIL}
    ev["unknown_angles"] = proj.unknown
    return ev, model


def corrupt(event, index, **changes):
    """A corrupted copy of an event: a canary that the specification must reject."""
    import copy

    e = copy.deepcopy(event)
    e["canary_of"] = index
    e.update(changes)
    return e


def dim(cfg):
    d = 1
    for s in cfg["spins"]:
        d *= s + 1
    return d


def model_canaries(events):
    """Corrupted models: wrong intensity, wrong amplitude, unexpected exception."""
    from common import bump

    out = []
    for n, e in enumerate(events):
        key = next((k for k in sorted(e["amps"]) if k and e["amps"][k] not in ([0, 0], FAIL)), None)
        if key is None:
            continue
        if not out:
            out.append((corrupt(e, n, intensity=bump(e["intensity"])), "intensity"))
            continue
        out.append((corrupt(e, n, amps={**e["amps"], key: bump(e["amps"][key])}), "amplitude"))
        out.append((corrupt(e, n, raised="ValueError"), "raised"))
        break
    return out
