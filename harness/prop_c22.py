"""C22: LaTeX and Markdown renderings."""

from __future__ import annotations

import collections
import copy
import random

import sympy as sp

from common import generate, observe, pmap, together
from decays import corrupt

FLAGS = {"plain": {}, "with": {"with_jp": True}, "only": {"only_jp": True}, "both": {"with_jp": True, "only_jp": True}}
SEQUENCES = (list, tuple, collections.deque)


def particle(p):
    from ampform_dpd.decay import Particle, State

    kw = {"name": p["name"], "latex": p["latex"], "spin": sp.Rational(p["spin"], 2), "parity": p["parity"] or None,
          "mass": p["mass"] / 10_000, "width": p["width"] / 10_000}
    return Particle(**kw) if p["index"] < 0 else State(**kw, index=p["index"])


def build(t):
    from ampform_dpd.decay import IsobarNode

    if t["kind"] == "particle":
        return particle(t["p"])
    ls = None if not t["ls"] else (t["ls"][0], sp.Rational(t["ls"][1], 2))
    return IsobarNode(particle(t["p"]), build(t["one"]), build(t["two"]), ls)


def chain(t):
    from ampform_dpd.decay import ThreeBodyDecayChain

    return ThreeBodyDecayChain(build(t))


def leaf(p):
    return {"kind": "particle", "p": p}


def squeeze(text):
    return " ".join(text.split())


def cells_of(src):
    """Cells of every line, and whether lines are whole: | cell | cell |."""
    lines = src.split("\n")
    whole = lines[-1] == "" and all(x.startswith("| ") and x.endswith(" |") for x in lines[:-1])
    return [[c.strip() for c in x.strip().strip("|").split("|")] for x in lines if x.strip()], whole


def items_of(kind, history, rng):
    """[(what, tree, object)]"""
    ps = [("particle", leaf(p)) for p in history["particles"]]
    ss = [("state", leaf(p)) for p in history["states"]]
    cs = [("chain", t) for t in history["chains"]]
    pool = {"particles": ps, "states": ss, "mixed": ps + ss, "chains": cs, "anything": ps + ss + cs, "empty": []}[kind]
    picked = rng.sample(pool, rng.randint(1, len(pool))) if pool else []
    out = [(what, t, chain(t) if what == "chain" else particle(t["p"])) for what, t in picked]
    if kind == "anything" and rng.random() < 0.5:  # noqa: PLR2004
        nodes = [build(t) for t in history["trees"]] or [1]
        more = rng.choice([1, "p", None, sp.Symbol("x"), rng.choice(nodes)])
        out.insert(rng.randint(0, len(out)), ("other", leaf(history["states"][0]), more))
        if rng.random() < 0.3:  # noqa: PLR2004
            out = [x for x in out if x[0] == "other"]
    return out


def table_event(history, kind, rng, label):
    from ampform_dpd.decay import ThreeBodyDecay
    from ampform_dpd.io import as_markdown_table

    items = items_of(kind, history, rng)
    objects = [x[2] for x in items]
    if kind == "chains" and rng.random() < 0.4:  # noqa: PLR2004
        obj = ThreeBodyDecay({p["index"]: particle(p) for p in history["states"]}, objects)
    else:
        obj = rng.choice(SEQUENCES)(objects)
    if kind == "empty":
        obj = rng.choice([[], (), ""])
    status, src = observe(as_markdown_table, obj)
    ev = {"kind": "table", "label": f"{label} table {kind}", "items": [{"what": w, "tree": t} for w, t, _ in items],
          "raised": src if status == "raised" else "", "lines": [], "whole": False}
    if status == "ok":
        ev["lines"], ev["whole"] = cells_of(src)
    return ev


def latex_events(history, rng, label):
    from ampform_dpd.decay import ThreeBodyDecay
    from ampform_dpd.io import aslatex

    out = []
    things = [(leaf(p), particle(p)) for p in [*history["particles"], *history["states"]]]
    things += [(t, build(t)) for t in history["trees"]]
    things += [(t, rng.choice([chain, build])(t)) for t in history["chains"]]
    for t, obj in things:
        mode = rng.choice([*FLAGS, "plain", "with"])
        status, x = observe(aslatex, obj, **FLAGS[mode])
        out.append({"kind": "tree", "label": f"{label} {mode} LaTeX", "tree": t, "mode": mode,
                    "raised": x if status == "raised" else "", "latex": squeeze(x)})
    cs = history["chains"]
    if cs:
        mode = rng.choice(list(FLAGS))
        chains = [chain(t) for t in cs]
        obj = rng.choice([chains, ThreeBodyDecay({p["index"]: particle(p) for p in history["states"]}, chains)])
        status, x = observe(aslatex, obj, **FLAGS[mode])
        out.append({"kind": "sequence", "label": f"{label} {mode} chains", "trees": cs, "mode": mode,
                    "raised": x if status == "raised" else "", "latex": squeeze(x)})
    return out


def defined_event(rng, label):
    from ampform.io import aslatex as plain

    from ampform_dpd import DefinedExpression
    from ampform_dpd.dynamics import BreitWigner, FormFactor
    from ampform_dpd.io import aslatex

    s, m, w, a, b, R = sp.symbols("sigma1 m0 Gamma_{f_2} m_a m_b R", nonnegative=True)
    pool = [
        BreitWigner(s, m, w, a, b, rng.randint(0, 3), R), FormFactor(s, a, b, rng.randint(0, 3), R), sp.Symbol("x_1"),
        1 / (m**2 - s - sp.I * w * m), sp.Integer(1), sp.Symbol("c") * FormFactor(s, a, b, 1, R),
    ]
    expr = rng.choice(pool)
    symbols = rng.sample([s, m, w, a, b, R], rng.randint(0, 5))
    pars = {x: rng.choice([rng.randint(0, 9), rng.random(), complex(rng.randint(-2, 2), rng.randint(-9, 9)), 1.5]) for x in symbols}
    status, src = observe(aslatex, DefinedExpression(expr, pars))
    unfolded = expr.doit(deep=False)
    ev = {"kind": "defined", "label": f"{label} defined expression", "raised": src if status == "raised" else "", "rows": [],
          "same": expr == unfolded, "expression": squeeze(plain(expr)), "unfolded": squeeze(plain(unfolded)),
          "parameters": [[squeeze(plain(k)), squeeze(plain(v))] for k, v in pars.items()]}
    if status == "ok":
        lines = [x.strip() for x in src.strip().split("\n")]
        ok = lines[0] == R"\begin{array}{rcl}" and lines[-1] == R"\end{array}" and all(x.endswith(R"\\") for x in lines[1:-1])
        ev["rows"] = [[squeeze(c) for c in x.removesuffix(R"\\").split("&=&")] for x in lines[1:-1]] if ok else []
    return ev


def ascii_only(text):
    return text.replace("é", "e")


def line_event(rng, label):
    """LaTeX of a lineshape class."""
    from ampform_dpd import dynamics as dyn
    from ampform_dpd.io import aslatex

    symbols = sp.symbols(R"sigma1 s m_0 m_{f_2} \Gamma_{R} \Gamma_0 w a", nonnegative=True)

    def value(*extra):
        return rng.choice([*symbols, *extra])

    kind = rng.choice(["BreitWigner", "SimpleBreitWigner", "RelativisticBreitWigner", "BreitWignerMinL", "BuggBreitWigner",
                       "FlattéSWave", "ChannelArguments", "MultichannelBreitWigner"])
    s, m = value(symbols[2] ** 2), value(sp.Rational(3, 2), sp.Integer(2))
    widths = [value(sp.Rational(1, 3), symbols[5] + 1) for _ in range(rng.randint(1, 4))]
    ls = [value(*map(sp.Integer, range(4))) if rng.random() < 0.3 else sp.Integer(rng.randint(0, 4)) for _ in range(2)]  # noqa: PLR2004
    a, b, R = (value(sp.Integer(0), sp.Integer(1)) for _ in range(3))

    def make():
        w, (l, lp) = widths[0], ls
        if kind == "BreitWigner":
            return dyn.BreitWigner(s, m, w, a, b, l, R)
        if kind == "SimpleBreitWigner":
            return dyn.SimpleBreitWigner(s, m, w)
        if kind == "RelativisticBreitWigner":
            return dyn.RelativisticBreitWigner(s, m, w, a, b, l, R)
        if kind == "BreitWignerMinL":
            return dyn.BreitWignerMinL(s, m, a, m, w, a, b, l, lp, R, R)
        if kind == "BuggBreitWigner":
            return dyn.BuggBreitWigner(s, m, w, a, b, R)
        if kind == "FlattéSWave":
            return dyn.FlattéSWave(s, m, (w, w), (a, b), (b, a))
        if kind == "ChannelArguments":
            return dyn.ChannelArguments(s, m, w, a, b, l, R)
        return dyn.MultichannelBreitWigner(s, m, tuple(dyn.ChannelArguments(s, m, x, a, b, l, R) for x in widths))

    status, src = observe(lambda: aslatex(make()))
    return {"kind": "line", "label": f"{label} {kind}", "raised": src if status == "raised" else "", "latex": ascii_only(squeeze(src)),
            "line": {"type": ascii_only(kind), "s": squeeze(sp.latex(s)), "mass": squeeze(sp.latex(m)),
                     "widths": [squeeze(sp.latex(x)) for x in widths],
                     "ls": [squeeze(sp.latex(x)) for x in ls], "numeric": bool(ls[0].is_Integer)}}


def indexed_event(rng, label):
    from ampform_dpd.io import simplify_latex_rendering

    simplify_latex_rendering()
    base = rng.choice(["A", "A^{1}", R"\mathcal{H}"])
    indices = [rng.choice([sp.Symbol("i"), sp.Rational(rng.randint(-3, 3), 2), sp.Integer(rng.randint(-2, 2))]) for _ in range(rng.randint(1, 4))]
    status, x = observe(sp.latex, sp.IndexedBase(base)[tuple(indices)])
    return {"kind": "indexed", "label": f"{label} indexed", "raised": x if status == "raised" else "", "latex": squeeze(x),
            "base": base, "indices": ", ".join(sp.latex(i) for i in indices)}


def events_of(job):
    history, seed, label = job
    rng = random.Random(seed)
    out = latex_events(history, rng, label)
    for kind in ("particles", "states", "mixed", "mixed", "chains", "chains", "anything", "anything", "empty"):
        if kind in history and not history[kind]:
            continue
        out.append(table_event(history, kind, rng, label))
    out.append(defined_event(rng, label))
    out += [line_event(rng, label) for _ in range(3)]
    out.append(indexed_event(rng, label))
    return out


def run(check):
    check.rule = (
        "particles, trees and chains made by TLC's simulator (RenderMachine); each is rendered with and without quantum numbers, and"
        " tables of samples of them in random order, mixed with each other and with other objects; non-trivial: everything but"
        " single particles"
    )
    check.assumptions.append("names and LaTeX of particles contain no pipes and no line breaks")
    histories, _ = together(
        lambda: generate("RenderMachine", "GenRender.cfg", check.scratch, check.n(150, 2500), 16, check.seed),
        lambda: check.model_check("RenderMachine", f"MCRender{'Thorough' if check.thorough else ''}.cfg"),
    )
    events = [e for es in pmap(events_of, [(h, f"{check.seed}/{n}", f"history {n}") for n, h in enumerate(histories)]) for e in es]
    check.extra["distinct_nontrivial"] = sum(e["kind"] != "tree" or e["tree"]["kind"] == "node" for e in events)
    check.extra["refused_tables"] = sum(e["kind"] == "table" and e["raised"] != "" for e in events)
    check.judge("TraceRender", events, canaries(events))


def canaries(events):
    out = []

    def change(kind, clause, fn, when=lambda e: True):
        n = next((n for n, e in enumerate(events) if e["kind"] == kind and not e["raised"] and when(e)), None)
        if n is not None:
            e = copy.deepcopy(events[n])
            fn(e)
            out.append((corrupt(events[n], n, **e), clause))

    change("tree", "LaTeX", lambda e: e.update(latex=e["latex"] + "x"))
    change("tree", "LaTeX", lambda e: e.update(latex=e["latex"].replace("L=", "l=")), lambda e: "L=" in e["latex"])
    change("sequence", "LaTeX", lambda e: e.update(latex=e["latex"].replace("array", "matrix")))
    change("table", "row of a", lambda e: e["lines"][-1].__setitem__(-1, "nothing"))
    change("table", "row of a", lambda e: e["lines"][-1].pop())
    change("table", "one row", lambda e: e["lines"].pop())
    change("table", "header", lambda e: e["lines"].pop(0))
    change("table", "raised", lambda e: e.update(raised="KeyError"))
    change("line", "LaTeX of the lineshape", lambda e: e.update(latex=e["latex"].replace("R", "Q")))
    change("defined", "one row", lambda e: e["rows"].pop())
    change("defined", "parameters", lambda e: e["rows"].__setitem__(-1, ["x", "1"]), lambda e: e["parameters"])
    change("indexed", "indices", lambda e: e.update(latex="x"))
    n = next((n for n, e in enumerate(events) if e["kind"] == "table" and e["raised"]), None)
    if n is not None:
        out.append((corrupt(events[n], n, raised=""), "table refused"))
    return out
