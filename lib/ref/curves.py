"""Textbook affine elliptic-curve arithmetic: secp256k1, P-256, bn128, BLS12-381.

No optimisation and no shared code with py_ecc; field elements of Fp2 are
pairs (a, b) meaning a + b*i with i*i = -1.
"""


class Curve:
    """y^2 = x^3 + a x + b over Fp; the point at infinity is None."""

    def __init__(self, p, a, b, n, g):
        self.p, self.a, self.b, self.n, self.g = p, a, b, n, g

    def on(self, P):
        if P is None:
            return True
        x, y = P
        return (y * y - x * x * x - self.a * x - self.b) % self.p == 0

    def add(self, P, Q):
        if P is None:
            return Q
        if Q is None:
            return P
        p = self.p
        if P[0] == Q[0]:
            if (P[1] + Q[1]) % p == 0:
                return None
            l = (3 * P[0] * P[0] + self.a) * pow(2 * P[1], -1, p)
        else:
            l = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p)
        x = (l * l - P[0] - Q[0]) % p
        return (x, (l * (P[0] - x) - P[1]) % p)

    def neg(self, P):
        return None if P is None else (P[0], -P[1] % self.p)

    def mul(self, P, k):
        R = None
        while k:
            if k & 1:
                R = self.add(R, P)
            P = self.add(P, P)
            k >>= 1
        return R


SECP = Curve(
    2**256 - 2**32 - 977, 0, 7,
    0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141,
    (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
     0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8))
P256 = Curve(
    0xFFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFF,
    -3,
    0x5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B,
    0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551,
    (0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296,
     0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5))
BN = Curve(
    21888242871839275222246405745257275088696311157297823662689037894645226208583,
    0, 3,
    21888242871839275222246405745257275088548364400416034343698204186575808495617,
    (1, 2))
BLS = Curve(
    0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab,
    0, 4,
    0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001,
    (0x17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb,
     0x08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1))


class Curve2:
    """y^2 = x^3 + b over Fp2 = Fp[i]/(i^2+1)."""

    def __init__(self, p, b, n, g):
        self.p, self.b, self.n, self.g = p, b, n, g

    def fadd(self, x, y):
        return ((x[0] + y[0]) % self.p, (x[1] + y[1]) % self.p)

    def fsub(self, x, y):
        return ((x[0] - y[0]) % self.p, (x[1] - y[1]) % self.p)

    def fmul(self, x, y):
        return ((x[0] * y[0] - x[1] * y[1]) % self.p,
                (x[0] * y[1] + x[1] * y[0]) % self.p)

    def finv(self, x):
        d = pow(x[0] * x[0] + x[1] * x[1], -1, self.p)
        return (x[0] * d % self.p, -x[1] * d % self.p)

    def on(self, P):
        if P is None:
            return True
        x, y = P
        r = self.fadd(self.fmul(self.fmul(x, x), x), self.b)
        return self.fmul(y, y) == r

    def add(self, P, Q):
        if P is None:
            return Q
        if Q is None:
            return P
        if P[0] == Q[0]:
            if self.fadd(P[1], Q[1]) == (0, 0):
                return None
            xx = self.fmul(P[0], P[0])
            l = self.fmul(self.fadd(xx, self.fadd(xx, xx)),
                          self.finv(self.fadd(P[1], P[1])))
        else:
            l = self.fmul(self.fsub(Q[1], P[1]), self.finv(self.fsub(Q[0], P[0])))
        x = self.fsub(self.fsub(self.fmul(l, l), P[0]), Q[0])
        return (x, self.fsub(self.fmul(l, self.fsub(P[0], x)), P[1]))

    def neg(self, P):
        return None if P is None else (P[0], self.fsub((0, 0), P[1]))

    def mul(self, P, k):
        R = None
        while k:
            if k & 1:
                R = self.add(R, P)
            P = self.add(P, P)
            k >>= 1
        return R


def _bn2b():
    p = BN.p
    c = Curve2(p, (0, 0), BN.n, None)
    return c.fmul((3, 0), c.finv((9, 1)))


BN2 = Curve2(
    BN.p, _bn2b(), BN.n,
    ((10857046999023057135944570762232829481370756359578518086990519993285655852781,
      11559732032986387107991004021392285783925812861821192530917403151452391805634),
     (8495653923123431417604973247489272438418190587263600148770280649306958101930,
      4082367875863433681332203403145435568316851327593401208105741076214120093531)))
BLS2 = Curve2(
    BLS.p, (4, 4), BLS.n,
    ((0x024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8,
      0x13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e),
     (0x0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801,
      0x0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be)))


def selftest():
    for c in (SECP, P256, BN, BLS, BN2, BLS2):
        assert c.on(c.g) and c.mul(c.g, c.n) is None


# ------------------------------------------------------------- signatures
def sqrt3(x, p):
    """Square root modulo p, p = 3 mod 4; None when there is none."""
    y = pow(x, (p + 1) // 4, p)
    return y if y * y % p == x % p else None


def ecdsa_sign(c, key, h, k):
    """(r, s, recid) over the message hash integer h with nonce k."""
    R = c.mul(c.g, k)
    r = R[0] % c.n
    s = pow(k, -1, c.n) * (h + r * key) % c.n
    return r, s, (R[1] & 1) | (2 if R[0] >= c.n else 0)


def ecdsa_recover(h, v, r, s):
    """secp256k1 public key (x, y) or None, v in {0, 1}."""
    c = SECP
    if not (0 < r < c.n and 0 < s < c.n):
        return None
    y = sqrt3((r * r * r + 7) % c.p, c.p)
    if y is None:
        return None
    if y & 1 != v:
        y = c.p - y
    ri = pow(r, -1, c.n)
    Q = c.add(c.mul((r, y), s * ri % c.n), c.mul(c.g, -h * ri % c.n))
    return Q


def ecdsa_verify(c, h, r, s, Q):
    if not (0 < r < c.n and 0 < s < c.n):
        return False
    si = pow(s, -1, c.n)
    R = c.add(c.mul(c.g, h * si % c.n), c.mul(Q, r * si % c.n))
    return R is not None and R[0] % c.n == r
