"""C10: the Breit-Wigner builder."""

from __future__ import annotations

import random

import mpmath
import sympy as sp

from common import observe, pmap
from decays import build_decay, corrupt, random_config
from geom import NEXT, PREV
from prop_c09 import DPS, phase_space, rooted


def value_of(expr, values):
    """Value with numbers for all symbols, by symbol."""
    symbols = sorted(values, key=str)
    with mpmath.workdps(DPS):
        f = sp.lambdify([sp.Symbol(f"x{n}_") for n in range(len(symbols))],
                        expr.xreplace({s: sp.Symbol(f"x{n}_") for n, s in enumerate(symbols)}), "mpmath")
        return mpmath.mpc(f(*[mpmath.mpf(values[s]) for s in symbols]))


def integral(x):
    return int(x) if complex(x).imag == 0 and float(complex(x).real).is_integer() else -999


def builder_of(flags, phsp):
    from ampform_dpd.dynamics import builder

    if flags == "default":
        return builder.formulate_breit_wigner_with_form_factor
    kw = {} if phsp == "standard" else {"phsp_factor": phase_space(phsp)}
    names = ("energy_dependent_width", "decay_form_factor", "production_form_factor")
    # a flag that is on by default may be left out
    return builder.BreitWignerBuilder(**{n: f for n, f in zip(names, flags) if not f or len(phsp) % 2}, **kw)


def builder_event(job):
    from ampform_dpd import create_mass_symbol

    cfg, n, flags, phsp, s, radii, label = job
    decay = build_decay(cfg)
    c, chain = cfg["chains"][n], decay.chains[n]
    k = c["k"]
    edw, dec_ff, prod_ff = (True, True, True) if flags == "default" else flags
    m = [int(x) for x in cfg["masses"]]
    v = {
        "s": s[k - 1], "m0": int(c["mass"]), "g0": int(c["width"]), "a": m[NEXT[k]], "b": m[PREV[k]],
        "l": c["decLS"][0] if c["decLS"] else -1, "lp": c["prodLS"][0] if c["prodLS"] else -1, "R": radii[0],
        "Rp": radii[1], "M": m[0], "c": m[k], "phsp": phsp, "edw": edw, "decFF": dec_ff, "prodFF": prod_ff,
    }
    none = rooted(None)
    outer = {create_mass_symbol(x): integral(x.mass) for x in decay.states.values()}
    ev = {"kind": "builder", "label": f"{label} {flags} {v}", "raised": "", "v": v, "re": none, "im": none, "leftover": [], "zero": False,
          "massName": create_mass_symbol(chain.resonance).name, "params": {"": 0}, "radii": [],
          "stateMasses": [x.name for x in outer], "outer": {x.name: y for x, y in outer.items()}}

    def go():
        made = builder_of(flags, phsp)(chain)
        expr = made.expression.doit()
        values = {**outer, **made.parameters}
        values.update({sp.Symbol(f"sigma{i}", nonnegative=True): s[i - 1] for i in (1, 2, 3)})
        radius = [x for x in made.parameters if x.name.startswith("R_") and made.parameters[x] == 1]
        values.update({x: radii[0] if x.name == R"R_\mathrm{res}" else radii[1] for x in radius})
        out = {
            "leftover": sorted(str(x) for x in expr.free_symbols | made.expression.free_symbols if x not in values),
            "params": {x.name: integral(y) for x, y in made.parameters.items()} or {"": 0},
            "radii": sorted(x.name for x in radius),
        }
        if not out["leftover"]:
            x = value_of(expr, values)
            out["zero"] = x == 0
            with mpmath.workdps(DPS):
                u = 1 / (x or 1)
                out.update(re=rooted(u.real), im=rooted(1j * u.imag))
        return out

    status, got = observe(go)
    return {**ev, "raised": got} if status == "raised" else {**ev, **got}


def pair_event(job):
    from ampform_dpd import create_mass_symbol

    cfg, a, b, flags, label = job
    decay = build_decay(cfg)

    def params(n):
        status, made = observe(builder_of(flags, "standard"), decay.chains[n])
        return [] if status == "raised" else list(made.parameters)

    first, second = params(a), params(b)
    both = {x for x in (*first, *second) if x.name.startswith("R_")}
    return {"kind": "pair", "label": f"{label} {flags}", "first": [x.name for x in first], "second": [x.name for x in second],
            "radii": sorted({x.name for x in both}), "stateMasses": [create_mass_symbol(x).name for x in decay.states.values()]}


FLAGS = [(a, b, c) for a in (False, True) for b in (False, True) for c in (False, True)] + ["default"]


def physical_case(rng, cfg, n):
    """Integer masses and invariants at which all form factors are real."""
    c = cfg["chains"][n]
    k = c["k"]
    while True:
        m = [rng.randint(12, 30), *(rng.randint(1, 5) for _ in range(3))]
        low = m[NEXT[k]] + m[PREV[k]]
        if len({*m}) < 4 or m[0] - m[k] <= low + 1:
            continue
        mass = rng.randint(low + 1, m[0] - m[k] - 1) if m[0] - m[k] - 1 > low else 0
        s = [rng.randint(1, 400) for _ in range(3)]
        if not mass or not low**2 < s[k - 1] < (m[0] - m[k]) ** 2 or s[k - 1] == mass**2:
            continue
        return m, mass, s


def run(check):
    check.rule = (
        "chains of random decays with integer masses and widths, all flag combinations of the builder and its default,"
        " three phase-space factors, evaluated with the builder's own default values in the physical region;"
        " non-trivial: energy dependent or with a form factor of L > 0"
    )
    check.model_check("MCLineshapes", "MCLineshapes.cfg")
    rng = random.Random(f"C10/{check.seed}")
    jobs, pairs = [], []
    count = 0
    while len(jobs) < check.n(220, 2500):
        count += 1
        cfg = random_config(rng, n_chains=(1, 4), max_dim=60, shared_names=0.0)
        for n, c in enumerate(cfg["chains"]):
            m, mass, s = physical_case(rng, cfg, n)
            flags = FLAGS[len(jobs) % len(FLAGS)]
            if not flags[0] and rng.random() < 0.2:
                mass = 0  # no threshold to be above
            own = {**cfg, "masses": [float(x) for x in m], "chains": [
                dict(x, mass=float(mass if x is c else rng.randint(1, 30)), width=float(rng.choice([0, *range(1, 10)]))) for x in cfg["chains"]
            ]}
            phsp = "standard" if flags == "default" or rng.random() < 0.4 else rng.choice(["abs", "stub"])
            jobs.append((own, n, flags, phsp, s, (rng.randint(1, 3), rng.randint(1, 3)), f"{count}.{n}"))
        if len(cfg["chains"]) > 1:
            pairs.append(({**cfg, "chains": [dict(x, mass=1.0 + n, width=1.0 + n) for n, x in enumerate(cfg["chains"])]},
                          0, len(cfg["chains"]) - 1, rng.choice(FLAGS), f"pair {count}"))
    events = [e for chunk in pmap(lambda js: [builder_event(j) for j in js], [jobs[k::16] for k in range(16)]) for e in chunk]
    events += [pair_event(j) for j in pairs]
    check.extra["distinct_nontrivial"] = sum(
        e["kind"] == "builder" and not e["raised"] and (e["v"]["edw"] or e["v"]["lp"] > 0 or e["v"]["l"] > 0) for e in events
    )
    canaries = []
    n = next((n for n, e in enumerate(events) if e["kind"] == "builder" and not e["raised"] and e["v"]["edw"] and not e["v"]["decFF"]), None)
    if n is not None:
        e = events[n]
        canaries += [
            (corrupt(e, n, re=e["im"]), "value of the lineshape"),
            (corrupt(e, n, v={**e["v"], "a": e["v"]["a"] + 7}), "value of the lineshape"),
            (corrupt(e, n, params={**e["params"], e["massName"]: -5}), "default of the mass"),
            (corrupt(e, n, params={**e["params"], "stray": 1}), "default of the width"),
            (corrupt(e, n, leftover=["x"]), "no other symbols"),
            (corrupt(e, n, zero=not e["zero"]), "value of the lineshape"),
        ]
    n = next((n for n, e in enumerate(events) if e["kind"] == "pair" and e["first"]), None)
    if n is not None:
        canaries.append((corrupt(events[n], n, second=[*events[n]["first"], "x"]), "shared parameter"))
    check.judge("TraceBuilder", events, canaries)
