"""C09: lineshapes at integer arguments."""

from __future__ import annotations

import random
from fractions import Fraction

import mpmath
import sympy as sp

from common import MachineryError, observe, pmap
from decays import corrupt
from kinpoints import PRIMES

DPS = 420
_COMPILED: dict = {}


def residues(x) -> list:
    """A real number as a fraction modulo the primes; [-1, 0] if it is no simple fraction."""
    with mpmath.workdps(DPS):
        f = Fraction(int(mpmath.nint(x * mpmath.mpf(10) ** 400)), 10**400).limit_denominator(10**180)
        if abs(mpmath.mpf(f.numerator) / f.denominator - x) > mpmath.mpf(10) ** -390:
            return [[-1, 0]] * len(PRIMES)
        return [[f.numerator % p, f.denominator % p] for p in PRIMES]


def rooted(z) -> dict:
    """Direction and absolute square of a complex number."""
    if z is None or not mpmath.isfinite(z):
        return {"dir": -1, "q": [[-1, 0]] * len(PRIMES)}
    with mpmath.workdps(DPS):
        z = mpmath.mpc(z)
        tiny = mpmath.mpf(10) ** (-DPS + 40)
        if abs(z) < tiny:
            return {"dir": -2, "q": [[0, 1]] * len(PRIMES)}
        if abs(z.imag) < tiny:
            d = 0 if z.real > 0 else 2
        elif abs(z.real) < tiny:
            d = 1 if z.imag > 0 else 3
        else:
            return {"dir": -1, "q": [[-1, 0]] * len(PRIMES)}
        return {"dir": d, "q": residues(abs(z) ** 2)}


class StubPhaseSpace:
    """A phase-space factor that no library knows."""

    def __call__(self, s, m1, m2):
        return s + 2 * (m1 + m2)


def phase_space(kind):
    from ampform.dynamics.phasespace import PhaseSpaceFactor, PhaseSpaceFactorAbs

    return {"standard": PhaseSpaceFactor, "abs": PhaseSpaceFactorAbs, "stub": StubPhaseSpace()}[kind]


def exact(x):
    """mpmath arguments of a lambdified function."""
    return mpmath.mpf(Fraction(x).numerator) / Fraction(x).denominator


def value(cls, args, way, static=(), **kw):
    """Value of a lineshape; `static` are positions of arguments that must be numbers."""
    if way == "numbers first":
        expr = cls(*[sp.Rational(x) for x in args], **kw).doit()
        return evaluate(expr)
    if way == "zeros":  # vanishing masses and widths are often given as numbers
        static = {*static, *(i for i, x in enumerate(args) if x == 0)}
    # equal arguments may be one symbol
    number = [args.index(x) if way == "merged" else i for i, x in enumerate(args)]
    if way == "equal masses" and len(args) > 4 and args[3] == args[4]:  # noqa: PLR2004
        number[4] = 3
    names = [sp.Symbol(f"x{number[i]}", nonnegative=True) if i not in static else None for i in range(len(args))]
    symbols = list(dict.fromkeys(x for x in names if x is not None))
    given = [x if x is not None else sp.Integer(args[i]) for i, x in enumerate(names)]
    expr = cls(*given, **kw)
    if way == "doit last":
        return evaluate(expr.xreplace({x: sp.Rational(a) for x, a in zip(names, args) if x is not None}).doit())
    key = (cls, tuple(number), tuple((i, args[i]) for i in sorted(static)), str(sorted(map(str, kw.values()))) if "phsp_factor" not in kw else kw["phsp_factor"].__class__.__name__ + getattr(kw["phsp_factor"], "__name__", ""))
    if key not in _COMPILED:
        _COMPILED[key] = sp.lambdify(symbols, expr.doit(), "mpmath")
    with mpmath.workdps(DPS):
        given = {x: a for x, a in zip(names, args) if x is not None}
        return mpmath.mpc(_COMPILED[key](*[exact(given[x]) for x in symbols]))


def evaluate(expr):
    with mpmath.workdps(DPS):
        if expr.free_symbols:
            return None
        f = sp.lambdify((), expr, "mpmath")
        return mpmath.mpc(f())


WAYS = ("symbols", "symbols", "merged", "zeros", "numbers first", "doit last")
# these are written with the double-precision imaginary unit 1j: numbers only after unfolding
DOUBLE = {"simple": ("symbols", "zeros"), "energy dependent": ("symbols", "equal masses", "zeros"),
          "multichannel": ("symbols", "merged", "zeros")}


def width_from(value, v, numerator=1):
    """w = (m0^2 - s) - numerator/value."""
    with mpmath.workdps(DPS):
        return v["m0"] ** 2 - v["s"] - numerator / value


def line_event(job):  # noqa: C901, PLR0912, PLR0915
    from ampform.dynamics.form_factor import FormFactor

    from ampform_dpd import dynamics as dyn

    kind, v, way, label = job
    ev = {"kind": kind, "v": v, "label": f"{label} {kind} {way} {v}", "raised": "", "w": rooted(None)}

    def go():  # noqa: PLR0911
        g = v.get
        if kind == "simple":
            if v["via"] == "BreitWigner":
                x = value(dyn.BreitWigner, [v["s"], v["m0"], v["g0"]], way)
            else:
                x = value(dyn.SimpleBreitWigner, [v["s"], v["m0"], v["g0"]], way)
            return {"w": rooted(width_from(x, v))}
        if kind == "energy dependent":
            args = [v["s"], v["m0"], v["g0"], v["a"], v["b"], v["l"], v["R"]]
            kw = {} if v["phsp"] == "standard" else {"phsp_factor": phase_space(v["phsp"])}
            return {"w": rooted(width_from(value(dyn.BreitWigner, args, way, static=(5,), **kw), v))}
        if kind == "relativistic":
            args = [v["s"], v["m0"], v["g0"], v["a"], v["b"], v["l"], v["R"]]
            kw = {} if v["phsp"] == "standard" else {"phsp_factor": phase_space(v["phsp"])}
            x = value(dyn.RelativisticBreitWigner, args, way, static=(5,), **kw)
            return {"w": rooted(width_from(x, v, v["m0"] * v["g0"]))}
        if kind in {"multichannel", "channel"}:
            def channel(s, m0, c, *x):
                return dyn.ChannelArguments(s, m0, *x)

            flat = [[c["g0"], c["a"], c["b"], c["l"], c["R"]] for c in v["channels"]]
            if kind == "channel":
                x = value(dyn.ChannelArguments, [v["s"], v["m0"], *flat[0]], way, static=(5,))
                return {"w": rooted(x)}
            s, m0 = sp.symbols("s m0", nonnegative=True)
            numbers = {s: sp.Integer(v["s"]), m0: sp.Integer(v["m0"])}
            channels = []
            for n, c in enumerate(flat):
                tags = [f"{x}{c[i]}m" if way == "merged" else f"{x}{n}" for i, x in ((0, "g"), (1, "a"), (2, "b"), (4, "r"))]
                *xs, r = sp.symbols(tags, nonnegative=True)
                numbers.update(zip((*xs, r), map(sp.Integer, (c[0], c[1], c[2], c[4]))))
                if way == "zeros":
                    xs = [sp.Integer(0) if numbers[x] == 0 else x for x in xs]
                channels.append(dyn.ChannelArguments(s, m0, *xs, sp.Integer(c[3]), r))
            expr = dyn.MultichannelBreitWigner(s, m0, tuple(channels)).doit()
            f = sp.lambdify(list(numbers), expr, "mpmath")
            with mpmath.workdps(DPS):
                return {"w": rooted(width_from(mpmath.mpc(f(*map(mpmath.mpf, map(int, numbers.values())))), v))}
        if kind == "bugg":
            args = [v["s"], v["m0"], v["g0"], v["a"], v["b"]]
            x0 = value(dyn.BuggBreitWigner, [*args, 0], way)
            x1 = value(dyn.BuggBreitWigner, [*args, v["gamma"]], way)
            w0, w1 = width_from(x0, v), width_from(x1, v)
            with mpmath.workdps(DPS):
                ratio = w1 / w0
                log = residues(mpmath.log(ratio.real)) if abs(ratio.imag) < mpmath.mpf(10) ** -300 and ratio.real > 0 else residues(mpmath.pi)
            return {"w": rooted(w0), "log": log}
        if kind.startswith("flatte"):
            s, m0, g1, g2, a1, b1, a2, b2 = sp.symbols("s m0 g1 g2 a1 b1 a2 b2", nonnegative=True)
            numbers = {x: sp.Integer(g(x.name)) for x in (s, m0, g1, g2, a1, b1, a2, b2)}
            if way == "numbers first":
                n = numbers
                expr = dyn.FlattéSWave(n[s], n[m0], (n[g1], n[g2]), (n[a1], n[b1]), (n[a2], n[b2])).doit()
            else:
                expr = dyn.FlattéSWave(s, m0, (g1, g2), (a1, b1), (a2, b2))
                expr = expr.doit().xreplace(numbers) if way == "symbols" else expr.xreplace(numbers).doit()
            return {"w": rooted(width_from(evaluate(expr), v))}
        if kind == "min L":
            args = [v["s"], v["M"], v["c"], v["m0"], v["g0"], v["b"], v["a"], v["l"], v["lp"], v["R"], v["Rp"]]
            kw = {} if v["phsp"] == "standard" else {"phsp_factor": phase_space(v["phsp"])}
            x = value(dyn.BreitWignerMinL, args, way, static=(7, 8), **kw)
            with mpmath.workdps(DPS):
                u = 1 / x
                return {"re": rooted(u.real), "im": rooted(1j * u.imag)}
        assert kind == "form factor"
        return {"w": rooted(value(FormFactor, [v["s"], v["a"], v["b"], v["l"], v["R"]], way, static=(3,)))}

    status, got = observe(go)
    if status == "raised":
        ev["raised"] = got
        return ev
    ev.update(got)
    return ev


def random_case(rng, kind, max_l):  # noqa: PLR0911
    def i(a, b):
        return rng.randint(a, b)

    while True:
        v = {"m0": i(2, 15), "g0": i(1, 6), "a": i(0, 6), "b": i(0, 6), "l": i(0, max_l), "R": i(1, 5), "s": i(1, 200),
             "phsp": "standard"}
        if rng.random() < 0.3:  # noqa: PLR2004
            v[rng.choice("ab")] = 0
            v["l"] = rng.choice([0, 0, v["l"]])
        elif rng.random() < 0.4:
            v["a"] = v["b"]
        if rng.random() < 0.12:
            v["s"] = v["m0"] ** 2
        t = (v["a"] + v["b"]) ** 2
        d = (v["a"] - v["b"]) ** 2
        ok = all(x not in {t, d} for x in (v["s"], v["m0"] ** 2))
        if kind == "simple":
            return {**v, "via": rng.choice(["BreitWigner", "SimpleBreitWigner"])}
        if kind in {"energy dependent", "relativistic"}:
            v["phsp"] = rng.choice(["standard", "abs", "stub", "stub"])
            if not ok:
                continue
            if kind == "energy dependent" and v["l"] == v["a"] == v["b"] == 0:
                continue
            if v["l"] and not (v["s"] > t and v["m0"] ** 2 > t) and rng.random() < 0.7:
                continue
            return v
        if kind in {"multichannel", "channel"}:
            r = i(3, 14)
            channels = []
            for _ in range(1 if kind == "channel" else i(1, 4)):
                c = {"g0": i(0, 5), "a": i(0, 4), "b": i(0, 4), "l": i(0, max_l), "R": i(1, 4)}
                if c["l"] and r <= c["a"] + c["b"]:
                    c["l"] = 0
                channels.append(c)
                while kind == "multichannel" and len(channels) < 5 and rng.random() < 0.25:
                    channels.append(dict(rng.choice(channels)))
            if not sum(c["g0"] for c in channels):
                continue
            return {**v, "r": r, "s": r * r, "channels": channels}
        if kind == "bugg":
            v["gamma"] = i(1, 3)
            v["s"] = i(1, 40)
            if 2 * v["s"] == 2 * v["a"] ** 2 - v["b"] ** 2 or 2 * v["m0"] ** 2 == 2 * v["a"] ** 2 - v["b"] ** 2:
                continue
            return v
        if kind == "flatte one":
            v.update(a1=i(0, 6), b1=i(0, 6), a2=i(0, 6), b2=i(0, 6), g1=i(1, 5), g2=i(1, 5))
            v["g1" if rng.random() < 0.5 else "g2"] = 0
            edges = {(v["a2"] + v["b2"]) ** 2, (v["a2"] - v["b2"]) ** 2}
            if v["m0"] ** 2 in edges:
                continue
            a, b = ("a1", "b1") if v["g1"] else ("a2", "b2")
            if v["s"] == v["m0"] ** 2 and v["s"] in {(v[a] + v[b]) ** 2, (v[a] - v[b]) ** 2}:
                continue  # a pole on the axis
            return v
        if kind == "flatte two":
            r = i(2, 14)
            v.update(r=r, s=r * r, a1=i(0, 8), b1=0, a2=i(0, 8), b2=0, g1=i(1, 5), g2=i(1, 5))
            if v["a2"] == v["m0"] or (v["s"] == v["m0"] ** 2 and v["a1"] == r and v["a2"] == r):
                continue
            return v
        if kind == "min L":
            v.update(c=i(0, 4), M=i(8, 30), lp=i(0, max_l), Rp=i(1, 4), phsp=rng.choice(["standard", "standard", "abs", "stub"]))
            if v["s"] == v["m0"] ** 2:
                continue
            if not (v["s"] > t and v["m0"] ** 2 > t and v["M"] > v["m0"] + v["c"] and (v["M"] - v["c"]) ** 2 > v["s"]):
                continue
            return v
        if kind == "form factor" and v["s"] > t:
            return v


KINDS = {
    "simple": 1, "energy dependent": 7, "relativistic": 5, "multichannel": 3, "channel": 1, "bugg": 2,
    "flatte one": 2, "flatte two": 2, "min L": 4, "form factor": 1,
}


def run(check):
    check.rule = (
        "every lineshape at random integer arguments (physical or not), L up to 4 (5), 1-5 channels (some of them equal), equal arguments given as one symbol or as several, three phase-space"
        " factors one of which no library knows, arguments given before or after unfolding; non-trivial: all"
    )
    check.assumptions.append(
        "form factors below threshold are compared up to sign; min-L Breit-Wigner in the physical region of masses"
    )
    check.model_check("MCLineshapes", "MCLineshapesThorough.cfg" if check.thorough else "MCLineshapes.cfg")
    rng = random.Random(f"C09/{check.seed}")
    jobs = []
    for kind, weight in KINDS.items():
        for n in range(weight * check.n(12, 90)):
            jobs.append((kind, random_case(rng, kind, check.n(4, 5)),
                         rng.choice(DOUBLE.get(kind, WAYS)), f"{n}"))
    rng.shuffle(jobs)
    events = [e for chunk in pmap(lambda js: [line_event(j) for j in js], [jobs[k::16] for k in range(16)]) for e in chunk]
    check.extra["distinct_nontrivial"] = len({str((e["kind"], e["v"])) for e in events})
    canaries = []
    for kind in KINDS:
        n = next((n for n, e in enumerate(events) if e["kind"] == kind and not e["raised"]), None)
        if n is None:
            continue
        e = events[n]
        if kind == "min L":
            canaries += [(corrupt(e, n, re=e["im"]), "real part"), (corrupt(e, n, im=e["re"]), "imaginary part")]
        else:
            w = e["w"]
            canaries.append((corrupt(e, n, w={"dir": w["dir"], "q": [[x[0] * 2, x[1]] for x in w["q"]] if w["dir"] >= 0 else [[1, 1]] * 4} if w["dir"] != -2 else {"dir": 1, "q": [[1, 1]] * 4}), ""))
            canaries.append((corrupt(e, n, w={**w, "dir": -1}), ""))
    if not canaries:
        msg = "no canary"
        raise MachineryError(msg)
    check.judge("TraceLineshapes", events, canaries)
