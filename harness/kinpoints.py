"""Integer points in three-body phase space and high-precision evaluation of angles."""

from __future__ import annotations

from fractions import Fraction

import mpmath
import sympy as sp

PRIMES = (42719, 46337, 46327, 46309)
DPS = 80


def dots(m, s):
    """2 p_x . p_y of the final state, from squared masses and invariants."""
    g = [[0] * 4 for _ in range(4)]
    for x in (1, 2, 3):
        for y in (1, 2, 3):
            g[x][y] = 2 * m[x] if x == y else s[6 - x - y - 1] - m[x] - m[y]
    return g


def gram(m, s):
    g = dots(m, s)
    return (
        g[1][1] * (g[2][2] * g[3][3] - g[2][3] * g[3][2])
        - g[1][2] * (g[2][1] * g[3][3] - g[2][3] * g[3][1])
        + g[1][3] * (g[2][1] * g[3][2] - g[2][2] * g[3][1])
    )


def physical(m, s):
    def above(x2, y2, z2):
        return z2 >= x2 + y2 and (z2 - x2 - y2) ** 2 >= 4 * x2 * y2

    nxt = {1: 2, 2: 3, 3: 1}
    prv = {1: 3, 2: 1, 3: 2}
    return (
        all(x > 0 for x in s)
        and all(above(m[nxt[k]], m[prv[k]], s[k - 1]) for k in (1, 2, 3))
        and all(above(s[k - 1], m[k], m[0]) for k in (1, 2, 3))
        and gram(m, s) > 0
    )


def random_point(rng, max_m0=60, max_m=6, massless=False):
    """Squared masses <<m0..m3>> and invariants <<s1, s2, s3>>, all integers."""
    while True:
        m = [rng.randint(4, max_m0), *(rng.randint(1, max_m) for _ in range(3))]
        if massless:
            m[rng.randint(1, 3)] = 0
        total = sum(m)
        s1, s2 = rng.randint(1, m[0]), rng.randint(1, m[0])
        s = [s1, s2, total - s1 - s2]
        if s[2] > 0 and physical(m, s):
            return m, s


def evaluator(expr):
    """Numeric function of squared masses and invariants for an angle formula."""
    expr = sp.sympify(expr).doit()
    symbols = sorted(expr.free_symbols, key=str)
    names = [x.name for x in symbols]
    f = sp.lambdify(symbols, expr, "mpmath")

    def call(m, s):
        with mpmath.workdps(DPS):
            vals = {f"m{i}": mpmath.sqrt(m[i]) for i in range(4)}
            vals.update({f"sigma{k}": mpmath.mpf(s[k - 1]) for k in (1, 2, 3)})
            if any(n not in vals for n in names):
                return None
            try:
                v = mpmath.mpc(f(*[vals[n] for n in names]))
            except (ZeroDivisionError, ValueError):
                return None
            if not mpmath.isfinite(v) or abs(v.imag) > mpmath.mpf(10) ** (-DPS // 3):
                return None
            return v.real

    return call


def residues(x) -> list:
    """A number as a fraction modulo the primes; [-1, -1] if it is no simple fraction."""
    with mpmath.workdps(DPS):
        f = Fraction(int(mpmath.nint(x * mpmath.mpf(10) ** 60)), 10**60).limit_denominator(10**20)
        if abs(mpmath.mpf(f.numerator) / f.denominator - x) > mpmath.mpf(10) ** -45:
            return [[-1, -1]] * len(PRIMES)
        return [[f.numerator % p, f.denominator % p] for p in PRIMES]


def observe_angle(value, m, s) -> dict:
    o = {"m": m, "s": s, "defined": value is not None, "sgn": 0, "csgn": 0, "inrange": False, "q": []}
    if value is None:
        return o
    with mpmath.workdps(DPS):
        tiny = mpmath.mpf(10) ** (-DPS // 3)
        c = mpmath.cos(value)
        o["sgn"] = 0 if abs(value) < tiny else int(mpmath.sign(value))
        o["csgn"] = 0 if abs(c) < tiny else int(mpmath.sign(c))
        o["inrange"] = bool(abs(value) <= mpmath.pi + tiny)
        o["q"] = residues(c * c)
    return o
