"""C04: angle formulas are the geometric angles."""

from __future__ import annotations

import random

from common import observe, pmap
from decays import corrupt
from kinpoints import evaluator, observe_angle, random_point


def requests():
    out = [("theta", [i, j]) for i in range(5) for j in range(5)]
    out += [("hat", [i, j]) for i in range(5) for j in range(5)]
    out += [
        ("zeta", [i, x, y]) for i in range(5) for x in range(5) for y in range(5)
        # equal subsystems give zero whatever they are
        if not (x == (y or i) and (x not in (1, 2, 3) or i > 3))  # noqa: PLR2004
    ]
    return out


def code(kind):
    from ampform_dpd import angles

    return {
        "theta": angles.formulate_scattering_angle,
        "hat": angles.formulate_theta_hat_angle,
        "zeta": angles.formulate_zeta_angle,
    }[kind]


def event(job):
    kind, args, points = job
    ev = {"label": f"{kind}{args}", "kind": kind, "args": args, "raised": "", "symbol": "", "pts": []}
    status, result = observe(code(kind), *args)
    if status == "raised":
        ev["raised"] = result
        return ev
    symbol, expr = result
    ev["symbol"] = str(symbol)
    f = evaluator(expr)
    ev["pts"] = [observe_angle(f(m, s), m, s) for m, s in points]
    return ev


def run(check):
    check.rule = (
        "every index combination (also impossible ones) of the three formulas, each at random integer points of"
        " random three-body phase spaces (squared masses 0..6 and up to 60), one in four with a massless particle;"
        " non-trivial: angle other than zero"
    )
    check.model_check("MCKinematics", "MCKinematicsThorough.cfg" if check.thorough else "MCKinematics.cfg")
    rng = random.Random(f"C04/{check.seed}")
    n_points = check.n(40, 600)
    jobs = []
    for kind, args in requests():
        points = [random_point(rng, massless=n % 4 == 3) for n in range(n_points)]
        jobs.append((kind, args, points))
    events = pmap(event, jobs)
    named = [e for e in events if e["symbol"] and not (e["kind"] == "zeta" and e["args"][2] == 0)]
    events.append({
        "label": "symbols", "kind": "symbols", "requests": [[e["kind"], *map(str, e["args"])] for e in named],
        "symbols": [e["symbol"] for e in named],
    })
    check.extra["evaluated_points"] = sum(len(e.get("pts", [])) for e in events)
    check.extra["distinct_nontrivial"] = sum(o["sgn"] != 0 for e in events for o in e.get("pts", []))
    n = next(i for i, e in enumerate(events) if e["label"] == "zeta[1, 2, 3]")
    e = events[n]
    canaries = []
    if e["pts"]:
        o = dict(e["pts"][0])
        canaries = [
            (corrupt(e, n, pts=[dict(o, sgn=-o["sgn"]), *e["pts"][1:]]), "sign"),
            (corrupt(e, n, pts=[dict(o, q=[[a + 1, b] for a, b in o["q"]])]), "cosine"),
            (corrupt(e, n, args=[1, 2, 1]), "cosine"),
            (corrupt(e, n, raised="ValueError"), "refused"),
        ]
    check.judge("TraceAngles", events, canaries)
