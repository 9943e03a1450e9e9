"""C05: antisymmetry and composition of alignment angles."""

from __future__ import annotations

import random

import mpmath

from common import observe, pmap
from decays import corrupt
from kinpoints import evaluator, random_point

UNDEFINED = 400_000_000


def formulas():
    from ampform_dpd.angles import formulate_theta_hat_angle, formulate_zeta_angle

    z = [[[evaluator(formulate_zeta_angle(i, x, y)[1]) for y in (1, 2, 3)] for x in (1, 2, 3)] for i in range(4)]
    hat = [[evaluator(formulate_theta_hat_angle(x, y)[1]) for y in (1, 2, 3)] for x in (1, 2, 3)]
    own = [[evaluator(formulate_zeta_angle(i, x, 0)[1]) for x in (1, 2, 3)] for i in (1, 2, 3)]
    return {"z": z, "hat": hat, "own": own}


def fixed(f, m, s):
    v = f(m, s)
    return UNDEFINED if v is None else int(mpmath.nint(v * 10**8))


def values(table, m, s):
    if isinstance(table, list):
        return [values(t, m, s) for t in table]
    return fixed(table, m, s)


def run(check):
    check.rule = (
        "random physical points (rational masses and invariants, one in five with a massless particle); at each,"
        " all alignment angles, all pairs and all triples of subsystems; every point is non-trivial"
    )
    check.model_check("MCKinematics", "MCKinematicsThorough.cfg" if check.thorough else "MCKinematics.cfg")
    rng = random.Random(f"C05/{check.seed}")
    status, table = observe(formulas)

    def event(n):
        r = random.Random(f"C05/{check.seed}/{n}")
        m, s = random_point(r, max_m0=40 + 40 * (n % 3), max_m=2 + 4 * (n % 2), massless=n % 5 == 4)
        scale = mpmath.mpf(r.randint(1, 1000)) / 997
        m, s = [x * scale for x in m], [x * scale for x in s]
        ev = {"label": f"point {n}: m^2 = {[float(x) for x in m]}, sigma = {[float(x) for x in s]}", "raised": ""}
        if status == "raised":
            return {**ev, "raised": table}
        return {**ev, **{k: values(t, m, s) for k, t in table.items()}}

    rng.random()
    events = pmap(event, range(check.n(120, 2500)))
    check.extra["distinct_nontrivial"] = len({e["label"] for e in events})
    canaries = []
    if status == "ok":
        import copy

        for where, clause in ((("z", 1, 0, 1), "antisymmetry"), (("z", 0, 1, 2), "composition"), (("hat", 0, 1), "hat")):
            e = corrupt(events[0], 0)
            x = copy.deepcopy(e[where[0]])
            y = x
            for k in where[1:-1]:
                y = y[k]
            y[where[-1]] += 1000
            e[where[0]] = x
            canaries.append((e, clause))
    check.judge("TraceComposition", events, canaries)
