"""RFC 9380 SSWU map + isogeny + cofactor clearing, affine, from the formulas.

Only the numeric isogeny constants are taken from py_ecc (a third-party table).
"""
from functools import lru_cache

from . import curves as cv

P = cv.BLS.p


class F2:
    """Field ops on pairs; Fp elements are embedded as (a, 0)."""
    add = staticmethod(cv.BLS2.fadd)
    sub = staticmethod(cv.BLS2.fsub)
    mul = staticmethod(cv.BLS2.fmul)

    @staticmethod
    def inv(x):
        return (0, 0) if x == (0, 0) else cv.BLS2.finv(x)

    @staticmethod
    def pow(x, n):
        r = (1, 0)
        while n:
            if n & 1:
                r = F2.mul(r, x)
            x = F2.mul(x, x)
            n >>= 1
        return r

    @staticmethod
    def is_square(x):
        n = (x[0] * x[0] + x[1] * x[1]) % P  # norm
        return n == 0 or pow(n, (P - 1) // 2, P) == 1

    @staticmethod
    def sqrt(x):
        if x == (0, 0):
            return x
        a, b = x
        n = cv.sqrt3((a * a + b * b) % P, P)
        i2 = pow(2, -1, P)
        for s in (n, -n):
            t = (a + s) * i2 % P
            if b == 0 and t == 0:
                # x = a non-residue in Fp: root is purely imaginary
                r = cv.sqrt3(-a % P, P)
                if r is not None:
                    return (0, r)
                continue
            c = cv.sqrt3(t, P)
            if c is not None and c:
                d = b * pow(2 * c, -1, P) % P
                if F2.mul((c, d), (c, d)) == (a % P, b % P):
                    return (c, d)
        raise ArithmeticError


def _sswu(u, A, B, Z, sgn, is_sq, sqrt):
    m, ad = F2.mul, F2.add
    u2 = m(u, u)
    zu2 = m(Z, u2)
    t = ad(m(zu2, zu2), zu2)
    if t == (0, 0):
        x1 = m(B, F2.inv(m(Z, A)))
    else:
        x1 = m(m(F2.sub((0, 0), B), F2.inv(A)), ad((1, 0), F2.inv(t)))
    g = lambda x: ad(ad(m(m(x, x), x), m(A, x)), B)
    x = x1
    if not is_sq(g(x1)):
        x = m(zu2, x1)
    y = sqrt(g(x))
    if sgn(u) != sgn(y):
        y = F2.sub((0, 0), y)
    return x, y


def _poly(cs, x):
    r = (0, 0)
    for c in reversed(cs):
        r = F2.add(F2.mul(r, x), c)
    return r


def _pair(c):
    if hasattr(c, "coeffs"):
        k = [int(v) for v in c.coeffs]
        return (k[0], k[1])
    return (int(c), 0)


def _iso(x, y, xn, xd, yn, yd):
    xd_, yd_ = _poly(xd, x), _poly(yd, x)
    if xd_ == (0, 0) or yd_ == (0, 0):
        return None
    return (F2.mul(_poly(xn, x), F2.inv(xd_)),
            F2.mul(y, F2.mul(_poly(yn, x), F2.inv(yd_))))


@lru_cache(256)
def map_g1(u):
    from py_ecc.optimized_bls12_381 import constants as c
    t = [[_pair(v) for v in tab] for tab in c.ISO_11_MAP_COEFFICIENTS]
    x, y = _sswu((u, 0), _pair(c.ISO_11_A), _pair(c.ISO_11_B), (11, 0),
                 lambda v: v[0] & 1,
                 lambda v: v[0] == 0 or pow(v[0], (P - 1) // 2, P) == 1,
                 lambda v: (cv.sqrt3(v[0], P), 0))
    Q = _iso(x, y, *t)
    if Q is None:
        return None
    return cv.BLS.mul((Q[0][0], Q[1][0]), 0xD201000000010001)


@lru_cache(256)
def map_g2(u):
    from py_ecc.optimized_bls12_381 import constants as c
    t = [[_pair(v) for v in tab] for tab in c.ISO_3_MAP_COEFFICIENTS]
    sgn = lambda v: (v[0] & 1) or (v[0] == 0 and (v[1] & 1))
    x, y = _sswu(u, (0, 240), (1012, 1012), ((-2) % P, (-1) % P),
                 lambda v: int(bool(sgn(v))), F2.is_square, F2.sqrt)
    Q = _iso(x, y, *t)
    if Q is None:
        return None
    return cv.BLS2.mul(Q, int(c.H_EFF_G2) if hasattr(c, "H_EFF_G2") else _HEFF)


_HEFF = 0xbc69f08f2ee75b3584c6a0ea91b352888e2a8e9145ad7689986ff031508ffe1329c2f178731db956d82bf015d1212b02ec0ec69d7477c1ae954cbc06689f6a359894c0adebbf6b4e8020005aaa95551
