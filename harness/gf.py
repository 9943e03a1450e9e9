"""Ring homomorphism from SymPy expressions to the Gaussian field of spec/Arith.tla.

Evaluates an expression *as the code wrote it* (no simplification of the model as a
whole): `PoolSum` by iterating its indices, Wigner/CG through SymPy's own ``doit``.
"""

from __future__ import annotations

import itertools
import math
from fractions import Fraction

import sympy as sp
from sympy.physics.quantum.cg import CG
from sympy.physics.quantum.spin import WignerD

P = 42719


def inv(a: int) -> int:
    return pow(a, P - 2, P)


def sqrt(a: int) -> int:
    return pow(a, (P + 1) // 4, P)


def frac(x) -> int:
    x = Fraction(x)
    return x.numerator % P * inv(x.denominator % P) % P


def cadd(x, y):
    return (x[0] + y[0]) % P, (x[1] + y[1]) % P


def cmul(x, y):
    return (x[0] * y[0] - x[1] * y[1]) % P, (x[0] * y[1] + x[1] * y[0]) % P


def cnorm(x):
    return (x[0] * x[0] + x[1] * x[1]) % P


def cinv(x):
    n = cnorm(x)
    if n == 0:
        raise ZeroDivisionError
    n = inv(n)
    return x[0] * n % P, -x[1] * n % P


def cpow(x, n: int):
    if n < 0:
        return cpow(cinv(x), -n)
    r = (1, 0)
    while n:
        if n & 1:
            r = cmul(r, x)
        x = cmul(x, x)
        n >>= 1
    return r


# rotations: half angles (c, s)
RZERO = (1, 0)


def rot(a, b):
    return (a[0] * b[0] - a[1] * b[1]) % P, (a[1] * b[0] + a[0] * b[1]) % P


def rneg(a):
    return a[0], -a[1] % P


def rturn(a):
    return -a[0] % P, -a[1] % P


def rint(a, n: int):
    if n < 0:
        return rint(rneg(a), -n)
    r = RZERO
    for _ in range(n):
        r = rot(r, a)
    return r


def random_rotation(rng):
    while True:
        t = rng.randrange(2, P - 2)
        d = (1 + t * t) % P
        if d:
            return (1 - t * t) * inv(d) % P, 2 * t * inv(d) % P


class Undefined(Exception):
    """The expression contains something that has no definition."""


class NotRational(Exception):
    pass


_BETA = sp.Symbol("beta_", real=True)
_D_EXPR: dict = {}
_CG_VAL: dict = {}


def _wigner_expr(j, m, mp):
    key = (j, m, mp)
    if key not in _D_EXPR:
        _D_EXPR[key] = WignerD(
            sp.Rational(j), sp.Rational(m), sp.Rational(mp), 0, _BETA, 0
        ).doit()
    return _D_EXPR[key]


def _fact(n):
    return math.factorial(n)


def wigner_value(j, m, mp, half):
    """SymPy's WignerD(j, m, mp, 0, beta, 0), cf. `wigner_agrees_with_sympy`."""
    if abs(m) > j or abs(mp) > j:
        return 0, 0
    c, s = half
    # d^j_{m, mp}(-beta) in the sum over k below has the sign of SymPy's convention
    total = 0
    kmin, kmax = max(0, mp - m), min(j + mp, j - m)
    k = int(kmin)
    while k <= kmax:
        den = _fact(int(j + mp - k)) * _fact(k) * _fact(int(m - mp + k)) * _fact(int(j - m - k))
        p_s = int(m - mp + 2 * k)
        p_c = int(2 * j) - p_s
        sign = -1 if int(m - mp + k) % 2 else 1
        total += sign * inv(den % P) * pow(c, p_c, P) * pow(s, p_s, P)
        k += 1
    pref = 1
    for x in (j + m, j - m, j + mp, j - mp):
        pref = pref * sqrt(_fact(int(x)) % P) % P
    return total * pref % P, 0


def wigner_agrees_with_sympy(rng, n: int, max_j: int = 3) -> bool:
    """Spot check of `wigner_value` against the definition in SymPy."""
    for _ in range(n):
        jj = rng.randint(0, max_j)
        m, mp = (Fraction(rng.randrange(-jj, jj + 1, 2), 2) for _ in range(2))
        j = Fraction(jj, 2)
        half = random_rotation(rng)
        got = Evaluator({}, {_BETA: half}, {}).ev(_wigner_expr(j, m, mp), {})
        if got != wigner_value(j, m, mp, half):
            return False
    return True


class Evaluator:
    def __init__(self, values: dict, angles: dict, indexed: dict, amplitudes: dict | None = None):
        self.values = values  # Symbol -> GF2
        self.angles = angles  # Symbol -> half angle (c, s)
        self.indexed = indexed  # key -> GF2
        self.amplitudes = {} if amplitudes is None else {
            self.index_key(k, {}): v for k, v in amplitudes.items()
        }
        self.amp_cache: dict = {}
        self.d_cache: dict = {}

    # -- rational sub-expressions (helicities, spins) -------------------------
    def rational(self, e, env) -> Fraction:
        if isinstance(e, (int, Fraction)):
            return Fraction(e)
        if isinstance(e, sp.Rational):
            return Fraction(int(e.p), int(e.q))
        if isinstance(e, sp.Float):
            return Fraction(float(e))
        if isinstance(e, sp.Symbol):
            if e in env:
                return env[e]
            raise NotRational(e)
        if isinstance(e, sp.Add):
            return sum((self.rational(a, env) for a in e.args), Fraction(0))
        if isinstance(e, sp.Mul):
            r = Fraction(1)
            for a in e.args:
                r *= self.rational(a, env)
            return r
        if isinstance(e, sp.Pow):
            b, x = (self.rational(a, env) for a in e.args)
            if x.denominator == 1:
                return b ** int(x)
            raise NotRational(e)
        if isinstance(e, sp.KroneckerDelta):
            a, b = (self.rational(x, env) for x in e.args[:2])
            return Fraction(int(a == b))
        if isinstance(e, sp.Abs):
            return abs(self.rational(e.args[0], env))
        raise NotRational(e)

    def index_key(self, e: sp.Indexed, env):
        label = str(e.base.label)
        out = []
        for i in e.indices:
            try:
                out.append(self.rational(i, env))
            except NotRational:
                out.append(str(i))
        return (label, *out)

    def rotation(self, e, env):
        """Half angle of an angle expression."""
        e = sp.sympify(e)
        if e == 0:
            return RZERO
        if e in self.angles:
            return self.angles[e]
        r = RZERO
        for term in sp.Add.make_args(e):
            c, rest = term.as_coeff_Mul()
            if rest == sp.pi:
                # half angle of pi is (0, 1)
                if not sp.sympify(c).is_integer:
                    raise Undefined(f"angle {e}")
                r = rot(r, rint((0, 1), int(c)))
                continue
            if rest not in self.angles or not c.is_integer:
                raise Undefined(f"angle {e}")
            r = rot(r, rint(self.angles[rest], int(c)))
        return r

    def trig(self, e, env):
        """(cos, sin) of an expression that is a multiple of half angles."""
        r = self.rotation(2 * e.args[0].expand(), env)  # half angle of 2x is x
        return r

    def wigner(self, j, m, mp, half):
        key = (j, m, mp, half)
        if key not in self.d_cache:
            self.d_cache[key] = wigner_value(j, m, mp, half)
        return self.d_cache[key]

    # -- general ----------------------------------------------------------------
    def ev(self, e, env):  # noqa: C901, PLR0911, PLR0912
        if isinstance(e, sp.Rational):
            return frac(Fraction(int(e.p), int(e.q))), 0
        if isinstance(e, sp.Float):
            return frac(Fraction(float(e))), 0
        if e is sp.I:
            return 0, 1
        if isinstance(e, sp.Symbol):
            if e in env:
                return frac(env[e]), 0
            if e in self.values:
                return self.values[e]
            raise Undefined(str(e))
        if isinstance(e, sp.Indexed):
            key = self.index_key(e, env)
            if key in self.amplitudes:
                if key not in self.amp_cache:
                    self.amp_cache[key] = self.ev(self.amplitudes[key], {})
                return self.amp_cache[key]
            if key in self.indexed:
                return self.indexed[key]
            raise Undefined(str(key))
        if isinstance(e, sp.Add):
            r = (0, 0)
            for a in e.args:
                r = cadd(r, self.ev(a, env))
            return r
        if isinstance(e, sp.Mul):
            r = (1, 0)
            absolutes = []
            for a in e.args:
                if isinstance(a, (sp.Abs,)):
                    absolutes.append(a)
                    continue
                r = cmul(r, self.ev(a, env))
                if r == (0, 0) and not absolutes:
                    return r
            while len(absolutes) >= 2 and absolutes[-1] == absolutes[-2]:  # noqa: PLR2004
                a = absolutes.pop()
                absolutes.pop()
                r = cmul(r, (cnorm(self.ev(a.args[0], env)), 0))
            for a in absolutes:
                r = cmul(r, self.ev(a, env))
            return r
        if isinstance(e, sp.Pow):
            base, exponent = e.args
            n = self.rational(exponent, env)
            if isinstance(base, sp.Abs) and n.denominator == 1 and n % 2 == 0:
                try:
                    q = self.rational(base.args[0], env)
                    return cpow((frac(q), 0), int(n))
                except NotRational:
                    return cpow((cnorm(self.ev(base.args[0], env)), 0), int(n) // 2)
            if n.denominator == 1:
                return cpow(self.ev(base, env), int(n))
            if n.denominator == 2:  # noqa: PLR2004
                b = self.rational(base, env)
                f = frac(abs(b))
                root = (sqrt(f), 0) if b >= 0 else (0, sqrt(f))
                return cpow(root, int(2 * n))
            raise Undefined(f"power {e}")
        if isinstance(e, WignerD):
            j, m, mp, alpha, beta, gamma = e.args
            if alpha != 0 or gamma != 0:
                raise Undefined(str(e))
            j, m, mp = (self.rational(x, env) for x in (j, m, mp))
            return self.wigner(j, m, mp, self.rotation(beta, env))
        if isinstance(e, CG):
            key = tuple(self.rational(x, env) for x in e.args)
            if key not in _CG_VAL:
                val = CG(*[sp.Rational(x) for x in key]).doit()
                _CG_VAL[key] = Evaluator({}, {}, {}).ev(sp.sympify(val), {})
            return _CG_VAL[key]
        if isinstance(e, sp.KroneckerDelta):
            return int(self.rational(e.args[0], env) == self.rational(e.args[1], env)), 0
        if isinstance(e, sp.cos):
            return self.trig(e, env)[0], 0
        if isinstance(e, sp.sin):
            return self.trig(e, env)[1], 0
        if isinstance(e, sp.conjugate):
            x = self.ev(e.args[0], env)
            return x[0], -x[1] % P
        if isinstance(e, sp.re):
            return self.ev(e.args[0], env)[0], 0
        if isinstance(e, sp.im):
            return self.ev(e.args[0], env)[1], 0
        if isinstance(e, sp.Abs):
            return frac(abs(self.rational(e.args[0], env))), 0
        name = type(e).__name__
        if name == "PoolSum":
            symbols = [i for i, _ in e.indices]
            ranges = [[self.rational(v, env) for v in vals] for _, vals in e.indices]
            r = (0, 0)
            for combo in itertools.product(*ranges):
                r = cadd(r, self.ev(e.expression, {**env, **dict(zip(symbols, combo))}))
            return r
        if isinstance(e, sp.Sum):
            raise Undefined(str(e))
        if hasattr(e, "evaluate"):
            return self.ev(sp.sympify(e.evaluate()), env)
        unfolded = e.doit()
        if unfolded != e:
            return self.ev(unfolded, env)
        raise Undefined(f"{name}: {e}")
