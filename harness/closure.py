"""Dependencies of models: what an expression refers to once its sums are carried out."""

from __future__ import annotations

import itertools
from fractions import Fraction

import sympy as sp
from sympy.physics.quantum.cg import CG
from sympy.physics.quantum.spin import WignerD

from decays import amplitude_key, normalise_coupling
from gf import Evaluator, NotRational

ZERO = None  # an expression that vanishes identically
_NUM = Evaluator({}, {}, {})
_CG_ZERO: dict = {}


class Labels:
    """Names of symbols; symbols of one name with other assumptions get another label."""

    def __init__(self) -> None:
        self.seen: dict[str, list] = {}

    def __call__(self, symbol) -> str:
        name = symbol.name if isinstance(symbol, sp.Symbol) else str(symbol)
        known = self.seen.setdefault(name, [])
        if symbol not in known:
            known.append(symbol)
        n = known.index(symbol)
        return name if n == 0 else f"{name} (other assumptions {n})"

    def indexed(self, e, env) -> str:
        values = []
        for i in e.indices:
            try:
                values.append(_NUM.rational(i, env))
            except NotRational:
                values.append(i)
        key = (str(e.base.label), *values)
        coupling = normalise_coupling(_NUM.index_key(e, env))
        if coupling is not None:
            return f"coupling {coupling}"
        return "indexed " + "|".join(map(str, key))


def _cg_vanishes(key) -> bool:
    if key not in _CG_ZERO:
        _CG_ZERO[key] = CG(*[sp.Rational(x) for x in key]).doit() == 0
    return _CG_ZERO[key]


def refs(e, labels, env=None):  # noqa: C901, PLR0911, PLR0912
    """Set of labels that `e` refers to, or ZERO if it vanishes for want of selection rules."""
    env = {} if env is None else env
    e = sp.sympify(e)
    if isinstance(e, sp.Symbol):
        return set() if e in env else {labels(e)}
    if isinstance(e, sp.Indexed):
        return {labels.indexed(e, env)}
    if isinstance(e, WignerD):
        try:
            j, m, mp = (_NUM.rational(x, env) for x in e.args[:3])
        except NotRational:
            pass
        else:
            if abs(m) > j or abs(mp) > j:
                return ZERO
            if j == 0:
                return set()
            return set().union(*(refs(x, labels, env) or set() for x in e.args[3:]))
    if isinstance(e, CG):
        key = tuple(_NUM.rational(x, env) for x in e.args)
        return ZERO if _cg_vanishes(key) else set()
    if isinstance(e, sp.Mul):
        out = set()
        # cheap factors first
        for a in sorted(e.args, key=lambda a: not isinstance(a, (sp.KroneckerDelta, CG))):
            r = refs(a, labels, env)
            if r is ZERO:
                return ZERO
            out |= r
        return out
    if isinstance(e, sp.Add):
        parts = [refs(a, labels, env) for a in e.args]
        parts = [p for p in parts if p is not ZERO]
        return set().union(*parts) if parts else ZERO
    if type(e).__name__ == "PoolSum":
        symbols = [i for i, _ in e.indices]
        ranges = [[_NUM.rational(v, env) for v in vals] for _, vals in e.indices]
        parts = [
            refs(e.expression, labels, {**env, **dict(zip(symbols, combo))})
            for combo in itertools.product(*ranges)
        ]
        parts = [p for p in parts if p is not ZERO]
        return set().union(*parts) if parts else ZERO
    if isinstance(e, sp.KroneckerDelta):
        try:
            return set() if _NUM.rational(e, env) else ZERO
        except NotRational:
            pass
    if e.is_number:
        return ZERO if e == 0 else set()
    if not e.args:
        return set()
    if isinstance(e, (sp.Pow, sp.Abs)):
        r = refs(e.args[0], labels, env)
        if r is ZERO:
            return ZERO
        return r.union(*(refs(a, labels, env) or set() for a in e.args[1:]))
    if hasattr(e, "evaluate") and not isinstance(e, sp.Function):
        # compound expressions (lineshapes): what they come down to
        return {labels(s) for s in e.doit().free_symbols if s not in env}
    parts = [refs(a, labels, env) or set() for a in e.args]
    return set().union(*parts)


def free_labels(expr, labels):
    """Labels of the free symbols of a fully evaluated expression."""
    out = set()
    bases = set()
    for i in expr.atoms(sp.Indexed):
        out.add(labels.indexed(i, {}))
        bases |= {i, i.base, *i.base.free_symbols, *(s for x in i.indices for s in x.free_symbols)}
    return out | {labels(s) for s in expr.free_symbols if isinstance(s, sp.Symbol) and s not in bases}


def is_number(x) -> bool:
    return isinstance(x, (int, float, complex, Fraction, sp.Number)) and not isinstance(x, bool)


__all__ = ["Labels", "amplitude_key", "free_labels", "is_number", "refs"]
