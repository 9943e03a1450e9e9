"""Geometry of the decay plane: identifies the angle symbols of a model by value."""

from __future__ import annotations

import math

import sympy as sp

from gf import RZERO, random_rotation, rint, rneg, rot, rturn

NEXT = {1: 2, 2: 3, 3: 1}
PREV = {1: 3, 2: 1, 3: 2}


def cov_angle(pp, pa, pb, ab, aa, bb) -> float:
    """Angle between a and b in the rest frame of P, from invariants."""
    num = pa * pb - pp * ab
    return math.acos(max(-1, min(1, num / math.sqrt((pa * pa - pp * aa) * (pb * pb - pp * bb)))))


class Kinematics:
    """Masses m[0..3] and sigma[1..3]; scalar products of the four-momenta."""

    def __init__(self, masses, s1, s2) -> None:
        self.m = list(masses)
        s3 = sum(m * m for m in masses) - s1 - s2
        self.s = [None, s1, s2, s3]

    def dot(self, a: int, b: int) -> float:
        """p_a . p_b for a, b in 0..3."""
        m, s = self.m, self.s
        if a == b:
            return m[a] ** 2
        if a > b:
            a, b = b, a
        if a == 0:
            return (m[0] ** 2 + m[b] ** 2 - s[b]) / 2
        k = ({1, 2, 3} - {a, b}).pop()
        return (s[k] - m[a] ** 2 - m[b] ** 2) / 2

    def particle_angle(self, i: int, a: int, b: int) -> float:
        return cov_angle(
            self.dot(i, i), self.dot(i, a), self.dot(i, b), self.dot(a, b), self.dot(a, a), self.dot(b, b)
        )

    def theta(self, k: int) -> float:
        i, j = NEXT[k], PREV[k]
        pp = self.s[k]
        pi = self.dot(i, i) + self.dot(i, j)
        p0 = self.dot(0, i) + self.dot(0, j)
        # line of flight of the isobar in its rest frame: opposite to particle 0 ... and
        # to the spectator: p0 = p_k there, so use the angle with -p_k = pi - angle
        return math.pi - cov_angle(pp, pi, p0, self.dot(i, 0), self.dot(i, i), self.dot(0, 0))

    def hat(self, x: int, y: int) -> float:
        if x == y:
            return 0.0
        a = self.particle_angle(0, x, y)
        return a if y == NEXT[x] else -a

    def zeta(self, i: int, x: int, y: int) -> float:
        if i == 0:
            return self.hat(x, y)
        j, k = NEXT[i], PREV[i]
        axis = {i: 0, j: k, k: j}  # direction from which i is reached in subsystem x
        pos = {
            k: 0.0,
            i: self.particle_angle(i, axis[k], axis[i]),
            j: self.particle_angle(i, axis[k], axis[j]),
        }
        return pos[x] - pos[y]

    def substitution(self, expr):
        """Values of the symbols of an expression, by name."""
        names = {f"m{i}": self.m[i] for i in range(4)}
        names.update({f"sigma{i}": self.s[i] for i in (1, 2, 3)})
        return {x: sp.Float(names[x.name], 30) for x in expr.free_symbols if x.name in names}

    def gram(self) -> float:
        """Positive in the interior of the Dalitz plot."""
        g = sp.Matrix(3, 3, lambda a, b: self.dot(a + 1, b + 1))
        return float(g.det())


# two generic points in the interior of a Dalitz plot
GENERIC = [
    Kinematics((3.0, 0.5, 0.7, 0.9), 3.4, 3.7),
    Kinematics((3.0, 0.5, 0.7, 0.9), 4.3, 3.4),
]
assert all(kin.gram() > 0 for kin in GENERIC)


def angle_values(expr) -> list[float] | None:
    """Numeric values of an angle definition at the generic points."""
    out = []
    for kin in GENERIC:
        try:
            val = sp.sympify(expr).doit()
            val = val.xreplace(kin.substitution(val))
            val = complex(val.evalf(20))
        except (TypeError, ValueError):
            return None
        if abs(val.imag) > 1e-9:  # noqa: PLR2004
            return None
        out.append(val.real)
    return out


def canonical() -> dict[tuple, list[float]]:
    table = {("theta", k): [kin.theta(k) for kin in GENERIC] for k in (1, 2, 3)}
    for i in range(4):
        for x in (1, 2, 3):
            for y in (1, 2, 3):
                if x != y:
                    table["zeta", i, x, y] = [kin.zeta(i, x, y) for kin in GENERIC]
    return table


class HalfAngles:
    """A consistent assignment of half angles in GF(P); mirrors spec/Angles.tla."""

    def __init__(self, rng) -> None:
        self.theta = [random_rotation(rng) for _ in range(3)]
        self.hat = [random_rotation(rng) for _ in range(2)]
        self.zeta = [[random_rotation(rng) for _ in range(2)] for _ in range(3)]

    def as_json(self):
        return {"theta": self.theta, "hat": self.hat, "zeta": self.zeta}

    def get_hat(self, x, y):
        if x == y:
            return RZERO
        if y == NEXT[x]:
            if x == 3:  # noqa: PLR2004
                return rturn(rneg(rot(self.hat[0], self.hat[1])))
            return self.hat[x - 1]
        return rneg(self.get_hat(y, x))

    def get(self, key):
        if key[0] == "theta":
            return self.theta[key[1] - 1]
        _, i, x, y = key
        if i == 0:
            return self.get_hat(x, y)
        j, k = NEXT[i], PREV[i]
        z = self.zeta[i - 1]
        pos = {k: RZERO, i: z[0], j: rot(z[0], z[1])}
        return rot(pos[x], rneg(pos[y]))


_CANON = canonical()
_IDENTIFIED: dict = {}


def identify(expr):
    """(sign, key, number of half turns) of an angle definition, or 0, or None."""
    if expr in _IDENTIFIED:
        return _IDENTIFIED[expr]
    result = None
    vals = angle_values(expr)
    if vals is not None:
        if all(abs(v) < 1e-12 for v in vals):  # noqa: PLR2004
            result = 0
        else:
            for n in (0, 1, -1, 2, -2):
                for sign in (1, -1):
                    for key, ref in _CANON.items():
                        if all(
                            abs(v - sign * r - n * math.pi) < 1e-9  # noqa: PLR2004
                            for v, r in zip(vals, ref)
                        ):
                            result = sign, key, n
                            break
                    if result:
                        break
                if result:
                    break
    _IDENTIFIED[expr] = result
    return result


def assign(variables: dict, half: HalfAngles, rng) -> tuple[dict, list[str]]:
    """Map angle symbols of a model to half angles; unknown angles get random values."""
    out, unknown = {}, []
    for symbol, expr in variables.items():
        what = identify(sp.sympify(expr))
        if what is None:
            unknown.append(str(symbol))
            out[symbol] = random_rotation(rng)
        elif what == 0:
            out[symbol] = RZERO
        else:
            sign, key, n = what
            r = half.get(key)
            r = r if sign > 0 else rneg(r)
            out[symbol] = rot(r, rint((0, 1), n))
    return out, unknown
