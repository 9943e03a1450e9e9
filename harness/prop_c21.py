"""C21: lambdified functions do not depend on history."""

from __future__ import annotations

import copy
import random
import tempfile

from common import MachineryError, generate, pmap, tlc, together
from decays import corrupt

DESIGNS = ("Shared", "NoBackend", "Spelling")


def refuted(check, cfg):
    """Designs of the cache that break the property in the model."""
    r = tlc("MCLambdify", f"MCLambdify{cfg}.cfg", check.scratch, workers=2)
    if "Invariant Holds is violated" not in r["out"]:
        msg = f"the design {cfg} is not refuted:\n{r['out'][-1500:]}"
        raise MachineryError(msg)


def plain(f):
    return [] if not f else [[k, v] for k, v in f.items()]


def encode(history, rng):
    ops = []
    for op in history:
        op = copy.deepcopy(op)
        if "pars" in op:
            op["pars"] = plain(op["pars"])
        if op["op"] == "call":
            op["data"] = [op["data"]]
            for _ in range(rng.choice([0, 0, 1, 3])):
                p = op["data"][0]
                op["data"].append({n: [rng.randint(-3, 3), 0] if n in {"x", "y"} else [rng.randint(-2, 2), rng.randint(-1, 1)] for n in p})
        ops.append(op)
    return ops


def event_of(job):
    from lambdified import in_fork, in_subprocess

    history, seed, label, fresh = job
    rng = random.Random(seed)
    ops = encode(history, rng)
    segments, current = [], []
    for op in ops:
        if op["op"] == "restart":
            segments.append(current)
            current = []
        else:
            current.append(op)
    segments.append(current)
    env = {}
    with tempfile.TemporaryDirectory(prefix="lambdify.") as cache:
        seen = []
        for n, s in enumerate(segments):
            if n:
                seen.append({"raised": "", "got": [], "exact": True, "backend": "", "shown": []})
            if fresh:
                env = {"PYTHONHASHSEED": str(rng.randint(0, 1000)), "COMPWA_CACHE_DIR": cache}
                if rng.random() < 0.2:  # noqa: PLR2004
                    env["NO_CACHE"] = "1"
                seen += in_subprocess((s, cache, f"{seed}/{n}"), env)
            else:
                seen += in_fork((s, cache, f"{seed}/{n}"))
    if len(seen) != len(ops):
        msg = f"{len(seen)} observations of {len(ops)} operations"
        raise RuntimeError(msg)
    return {"label": label, "processes": len(segments), "ops": [{**o, "seen": x} for o, x in zip(ops, seen)]}


def run(check):
    check.rule = (
        "histories generated by TLC's simulator (LambdifyMachine): lambdify with or without parameters and in every calling style,"
        " call on scalars and arrays, update parameters, meddle with dictionaries, restart; every restart is a new process that"
        " shares the cache on disk; non-trivial: more than one process or repeated expressions"
    )
    check.assumptions += [
        "processes that share a cache do not write the same entry at the same time (files are written by ampform)",
        "numba and TensorFlow are not installed here: the back ends are JAX and NumPy",
    ]
    import jax  # noqa: F401
    import lambdified  # noqa: F401
    from ampform_dpd.io import cached  # noqa: F401
    import tensorwaves.function.sympy  # noqa: F401

    histories, *_ = together(
        lambda: generate("LambdifyMachine", "GenLambdify.cfg", check.scratch, check.n(200, 4000), 26, check.seed),
        lambda: check.model_check("MCLambdify", f"MCLambdify{'Thorough' if check.thorough else ''}.cfg"),
        *[lambda d=d: refuted(check, d) for d in DESIGNS],
    )
    fresh = check.n(5, 80)
    jobs = [([op for op in h if op["op"] != "end"], f"{check.seed}/{n}", f"history {n}", n < fresh) for n, h in enumerate(histories)]
    events = pmap(event_of, jobs)
    calls = [(e, o) for e in events for o in e["ops"]]
    check.extra.update(
        distinct_nontrivial=sum(e["processes"] > 1 or repeats(e) for e in events),
        operations={k: sum(o["op"] == k for _, o in calls) for k in ("lambdify", "call", "update", "meddle", "restart")},
        new_interpreters=fresh, beyond_single_precision=sum(any(abs(x) > 2**24 for g in o["seen"]["got"] for x in g) for _, o in calls),
    )
    check.judge("TraceLambdify", events, canaries(events))


def repeats(e):
    made = [str(o["expr"]) for o in e["ops"] if o["op"] == "lambdify"]
    return len(made) > len(set(made))


def canaries(events):
    out = []

    def change(kind, clause, fn, when=lambda o: True):
        for n, e in enumerate(events):
            k = next((k for k, o in enumerate(e["ops"]) if o["op"] == kind and when(o)), None)
            if k is not None:
                ops = copy.deepcopy(e["ops"])
                fn(ops[k])
                out.append((corrupt(e, n, ops=ops), clause))
                return

    change("call", "result", lambda o: o["seen"]["got"].__setitem__(0, [o["seen"]["got"][0][0] + 1, o["seen"]["got"][0][1]]),
           lambda o: o["seen"]["got"])
    change("call", "result", lambda o: o["seen"].update(exact=False), lambda o: o["seen"]["got"])
    change("call", "back end", lambda o: o["seen"].update(backend="torch"), lambda o: o["seen"]["got"])
    change("update", "unknown parameter", lambda o: o["seen"].update(raised=""), lambda o: o["seen"]["raised"] == "ValueError")
    change("update", "parameters kept", lambda o: o["seen"].update(shown=o["seen"]["shown"][:-1]), lambda o: not o["seen"]["raised"])
    change("lambdify", "raised", lambda o: o["seen"].update(raised="KeyError"))
    return out
