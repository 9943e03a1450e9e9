"""Expressions of spec/Lambdify.tla, and processes that lambdify them."""

from __future__ import annotations

import json
import os
import random
import sys
import warnings

import numpy as np
import sympy as sp
from ampform.kinematics.phasespace import Kallen
from ampform.sympy import PoolSum


class Scaled(sp.Function):
    """Prints without its factor."""

    nargs = 1
    factor = 1

    def _sympystr(self, printer, *args):
        return f"Scaled({printer._print(self.args[0])})"

    def _latex(self, printer, *args):
        return Rf"S\left({printer._print(self.args[0])}\right)"

    def _sympyrepr(self, printer, *args):
        return self._sympystr(printer)

    def _numpycode(self, printer, *args):
        return f"({self.factor} * ({printer._print(self.args[0])}))"


class Scaled2(Scaled):
    factor = 2


class Scaled3(Scaled):
    factor = 3


NAMES = ("x", "y", "a", "b")


def symbols_of(e):
    return {n: sp.Symbol(n, positive=True) if e["wrap"] == "positive" else sp.Symbol(n) for n in (*NAMES, "z")}


def expression_of(e):
    from ampform_dpd.io import cached

    s = symbols_of(e)
    x, y, a, b = (s[n] for n in NAMES)
    p = sp.Add(*[c * x**i * y**j * a**k * b**m for c, i, j, k, m in e["terms"]])
    wrap = e["wrap"]
    if wrap.startswith("scaled"):
        expr = (Scaled2 if wrap == "scaled2" else Scaled3)(p)
    elif wrap == "sum":
        i = sp.Symbol("i", integer=True)
        expr = PoolSum(i * p, (i, (1, 2)))
    elif wrap == "kallen":
        expr = p + Kallen(x, y, a)
    else:
        expr = p
    via = e["via"]
    if via in {"subs", "xreplace"}:
        expr = getattr(cached, via)(expr, {a: b})
    if via in {"doit", "unfold"}:
        expr = getattr(cached, via)(expr)
    return expr if wrap.startswith("scaled") else expr.doit()


def number(u, rng):
    re, im = u
    if im:
        return complex(re, im)
    return rng.choice([int, float, complex])(re)


def pair(z):
    """Gaussian integer, and whether it is one."""
    z = complex(z)
    re, im = round(z.real), round(z.imag)
    return [re, im], abs(z - complex(re, im)) < 1e-6 and max(abs(re), abs(im)) < 2**31  # noqa: PLR2004


def shown(f):
    if not hasattr(f, "update_parameters"):
        return [["", [0, 0]]]
    return [[str(k), pair(v)[0] if pair(v)[1] else [-99, -99]] for k, v in f.parameters.items()]


def unused(name):
    return {"a": 77, "b": 78, "z": 79}.get(name, 80)


def run_segment(job):
    """Run operations in this process; [observation of each]."""
    ops, cache_dir, seed = job
    os.environ["COMPWA_CACHE_DIR"] = cache_dir
    warnings.simplefilter("ignore")
    from ampform_dpd import io
    from ampform_dpd.io import cached

    rng = random.Random(seed)
    held, given, out = [], [], []
    for op in ops:
        seen = {"raised": "", "got": [], "exact": True, "backend": ""}
        try:
            if op["op"] == "lambdify":
                e = op["expr"]
                expr = expression_of(e)
                s = symbols_of(e)
                lambdify = rng.choice([cached.lambdify, io.perform_cached_lambdify])
                kwargs = {} if op["backend"] == "jax" and rng.random() < 0.5 else {"backend": op["backend"]}  # noqa: PLR2004
                pars = None
                if op["style"] == "params":
                    pars = {s[n]: number(u, rng) for n, u in op["pars"]}
                    f = lambdify(expr, pars, **kwargs)
                elif op["style"] == "positional":
                    f = lambdify(expr, op["backend"])
                else:
                    f = lambdify(expr, **kwargs)
                held.append(f)
                given.append(pars)
            elif op["op"] == "update":
                held[op["h"] - 1].update_parameters({n: number(u, rng) for n, u in op["pars"]})
            elif op["op"] == "meddle":
                # what the user passed or got is not the state of the function
                f = held[op["h"] - 1]
                for n in f.parameters:
                    f.parameters[n] = unused(n)
                for k in given[op["h"] - 1]:
                    given[op["h"] - 1][k] = unused(k.name)
                given[op["h"] - 1][sp.Symbol("more")] = 1
            elif op["op"] == "call":
                f = held[op["h"] - 1]
                data = {n: [complex(*p[n]) if n in {"a", "b"} else float(p[n][0]) for p in op["data"]] for n in NAMES}
                data = {n: np.array(x) if len(x) > 1 else x[0] for n, x in data.items()}
                for n in getattr(f, "parameters", {}):
                    if rng.random() < 0.5:  # noqa: PLR2004
                        data.pop(n, None)
                y = f(data)
                seen["backend"] = "jax" if "jax" in type(y).__module__ else "numpy"
                values = [pair(z) for z in np.broadcast_to(np.asarray(y), (len(op["data"]),)).tolist()]
                seen["got"] = [v for v, _ in values]
                seen["exact"] = all(ok for _, ok in values)
        except Exception as e:  # noqa: BLE001
            seen["raised"] = type(e).__name__
        seen["shown"] = [shown(f) for f in held]
        out.append(seen)
    return out


def in_fork(job):
    """Run a segment in a process of its own, with the modules of this one."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, "w") as f:
                json.dump(run_segment(job), f)
        except BaseException as e:  # noqa: BLE001
            print("segment failed:", repr(e), file=sys.stderr, flush=True)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        text = f.read()
    os.waitpid(pid, 0)
    return json.loads(text)


def in_subprocess(job, env):
    """Run a segment in a new interpreter."""
    import subprocess

    code = "import json, sys, lambdified; json.dump(lambdified.run_segment(json.load(sys.stdin)), sys.stdout)"
    p = subprocess.run([sys.executable, "-c", code], input=json.dumps(job), capture_output=True, text=True, check=False,
                       env={**os.environ, **env})
    if p.returncode:
        msg = f"segment failed: {p.stderr[-2000:]}"
        raise RuntimeError(msg)
    return json.loads(p.stdout.splitlines()[-1])
