"""C11: precompiled contracts."""
import itertools
from functools import lru_cache
from checkbase import *

W = lambda x: (x % 2**256).to_bytes(32, "big")
PC = precomp
N = curves.SECP.n


def ad(n):
    return n.to_bytes(20, "big")


# ----------------------------------------------------------------- input sets
@lru_cache(None)
def in_ecrecover():
    out = []
    hs = [b"\x11" * 32, bytes(32), b"\xff" * 32, W(N), W(1)]
    for key in (1, 2, N - 1):
        for h in hs[:3]:
            r, s, y = real._sign_hash(key, h)
            out += [h + W(27 + y) + W(r) + W(s), h + W(28 - y) + W(r) + W(s), h + W(28 - y) + W(r) + W(N - s)]
    h = hs[0]
    r, s, y = real._sign_hash(1, h)
    base = h + W(27 + y) + W(r) + W(s)
    for v in (0, 1, 2, 26, 29, 27 + 256, 28 + 2**200, 2**255 + 27):
        out.append(h + W(v) + W(r) + W(s))
    for rr in (0, 1, 2, 3, 4, 5, N - 1, N, N + 1, curves.SECP.p - 1, curves.SECP.p, 2**256 - 1):
        out += [h + W(27) + W(rr) + W(s), h + W(28) + W(rr) + W(s)]
    for ss in (0, 1, N // 2, N // 2 + 1, N - 1, N, N + 1, 2**256 - 1):
        out += [h + W(27 + y) + W(r) + W(ss)]
    for hh in hs:
        out.append(hh + W(27 + y) + W(r) + W(s))
    # public key at infinity: s*R = h*G
    for k in (1, 2, 7):
        R = curves.SECP.mul(curves.SECP.g, k)
        e = int.from_bytes(h, "big") % N
        out.append(h + W(27 + (R[1] & 1)) + W(R[0] % N) + W(e * pow(k, -1, N) % N))
    for n in (0, 1, 31, 32, 63, 64, 95, 96, 97, 127):
        out.append(base[:n])
    out += [base + b"\x00", base + b"\xff" * 40]
    return out


@lru_cache(None)
def in_bytes():
    d = bytes((i * 7 + 3) & 255 for i in range(2100))
    return [d[:n] for n in list(range(0, 140)) + [159, 160, 161, 255, 256, 257, 1023, 1024, 1025, 2048]]


@lru_cache(None)
def in_modexp():
    out = []

    def enc(bl, el, ml, b=None, e=None, m=None):
        f = lambda l, v: (v % (1 << (8 * l))).to_bytes(l, "big") if l else b""
        return W(bl) + W(el) + W(ml) + f(bl, b) + f(el, e) + f(ml, m)
    for bl, el, ml in itertools.product((0, 1, 2, 32, 33), repeat=3):
        out.append(enc(bl, el, ml, 2**300 - 3, 2**263 + 5, 2**299 - 9))
        out.append(enc(bl, el, ml, 3, 5, 7))
    for x in (8, 9, 16, 31, 63, 64, 65, 96, 128, 256):
        out.append(enc(x, 3, x, 2**2000 - 1, 0x10001, 2**2047 + 7))
        out.append(enc(1, x, 2, 7, 3, 65521))
        out.append(enc(x, 1, 1, 2**2000 + 9, 2, 251))
        out.append(enc(1, 1, x, 3, 200, 2**2040 + 1))
    for b, e, m in itertools.product((0, 1, 2, 255), (0, 1, 2, 3, 255), (0, 1, 2, 255)):
        out.append(enc(1, 1, 1, b, e, m))
    for e in (0, 1, 2, 3, 2**8 - 1, 2**8, 2**128, 2**255, 2**256 - 1):
        out += [enc(32, 32, 32, 2**255 + 1, e, 2**256 - 189), enc(1, 33, 1, 3, e, 251), enc(1, 33, 1, 3, e << 8, 251), enc(4, 40, 4, 3, e << 64, 2**32 - 5)]
    for e in (0, 1, 255):
        out.append(enc(2, 64, 2, 3, e, 65521))
    full = enc(32, 32, 32, 2**255 + 1, 65537, 2**256 - 189)
    for n in (0, 1, 31, 32, 33, 63, 64, 65, 95, 96, 97, 127, 128, 129, 150, 159, 160, 161, 191):
        out.append(full[:n])
    out.append(full + b"\xff" * 33)
    big = [1023, 1024, 1025, 2**16, 2**31, 2**32, 2**63, 2**64 - 1, 2**64, 2**128, 2**255, 2**256 - 97, 2**256 - 96, 2**256 - 1]
    for x in big:
        for tail in (b"", b"\x01", b"\xff" * 64):
            out += [W(x) + W(0) + W(0) + tail, W(0) + W(x) + W(0) + tail, W(0) + W(0) + W(x) + tail, W(0) + W(x) + W(1) + tail,
                    W(1) + W(x) + W(1) + tail, W(x) + W(1) + W(1) + tail, W(1) + W(1) + W(x) + tail, W(x) + W(x) + W(x) + tail]
    for a in (1024, 1025):
        out.append(enc(a, 1, a, 2**8000 + 5, 3, 2**8100 + 1))
        out.append(enc(1, a, 1, 5, 2**8100 + 3, 251))
    return out


BN, BN2, BLS, BLS2 = curves.BN, curves.BN2, curves.BLS, curves.BLS2


def bn1(P):
    return bytes(64) if P is None else W(P[0]) + W(P[1])


def bn2(P):
    return bytes(128) if P is None else W(P[0][1]) + W(P[0][0]) + W(P[1][1]) + W(P[1][0])


@lru_cache(None)
def in_bn_add():
    ps = [None] + [BN.mul(BN.g, k) for k in (1, 2, 3, BN.n - 1, BN.n - 2)]
    out = [bn1(a) + bn1(b) for a in ps for b in ps]
    G = bn1(BN.g)
    p = BN.p
    for bad in (W(1) + W(1), W(0) + W(1), W(1) + W(0), W(p) + W(0), W(0) + W(p), W(p) + W(p), W(p + 1) + W(2), W(1) + W(p + 2), W(1) + W(p - 1),
                b"\xff" * 64, W(2**256 - 1) + W(0), W(1) + W(2**256 - p + 2)):
        out += [bad + G, G + bad, bad + bytes(64), bad + bad]
    d = G + bn1(BN.mul(BN.g, 2))
    for n in (0, 1, 31, 32, 33, 63, 64, 65, 95, 96, 127):
        out.append(d[:n])
    out += [d + b"\x01", d + d]
    return out


@lru_cache(None)
def in_bn_mul():
    out = []
    for P in (None, BN.g, BN.mul(BN.g, 5)):
        for k in (0, 1, 2, 3, 2**128, BN.n - 1, BN.n, BN.n + 1, BN.p, 2**256 - 1):
            out.append(bn1(P) + W(k))
    p = BN.p
    for bad in (W(1) + W(1), W(p) + W(0), W(0) + W(p), W(p + 1) + W(2), b"\xff" * 64, W(1) + W(p - 1)):
        out += [bad + W(1), bad + W(0)]
    d = bn1(BN.g) + W(9)
    for n in (0, 1, 32, 63, 64, 65, 95):
        out.append(d[:n])
    out.append(d + b"\x07")
    return out


@lru_cache(None)
def bn2_notsub():
    """Point on the twist outside the subgroup."""
    from ref.maps import F2
    for i in range(1, 50):
        x = (i, 0)
        r = bn2_rhs(x)
        y = bn2_sqrt(r)
        if y is not None and BN2.mul((x, y), BN.n) is not None:
            return (x, y)


def bn2_rhs(x):
    return BN2.fadd(BN2.fmul(BN2.fmul(x, x), x), BN2.b)


def bn2_sqrt(a):
    p = BN.p
    n = curves.sqrt3((a[0] * a[0] + a[1] * a[1]) % p, p)
    if n is None:
        return None
    for s in (n, -n):
        t = (a[0] + s) * pow(2, -1, p) % p
        c = curves.sqrt3(t, p)
        if c:
            d = a[1] * pow(2 * c, -1, p) % p
            if BN2.fmul((c, d), (c, d)) == (a[0] % p, a[1] % p):
                return (c, d)
    return None


@lru_cache(None)
def in_bn_pair(cheap):
    g1 = lambda k: bn1(BN.mul(BN.g, k % BN.n))
    g2 = lambda k: bn2(BN2.mul(BN2.g, k % BN.n))
    p = BN.p
    G1, G2 = g1(1), g2(1)
    x = BN2.g
    if cheap:
        out = [b"", bytes(192), bytes(384), bytes(1), bytes(191), bytes(193), bytes(64), G1 + G2 + b"\x00", (G1 + G2)[:191]]
        for bad in (W(1) + W(1), W(p) + W(0), W(0) + W(p), W(p + 1) + W(2), b"\xff" * 64):
            out += [bad + G2, bad + bytes(128), bytes(192) + bad + G2]
        ns = bn2_notsub()
        for b2 in (W(1) * 4, W(p) + W(0) * 3, W(0) * 3 + W(p), W(x[0][1] + p) + G2[32:], G2[:96] + W(x[1][0] + 1), G2[32:64] + G2[:32] + G2[64:], bn2(ns), b"\xff" * 128):
            out += [G1 + b2, bytes(64) + b2]
        # every coordinate alone, zero or written one or two moduli higher
        for k in range(4):
            v = int.from_bytes(G2[32 * k:32 * k + 32], "big")
            for w in (0, v + p, v + 2 * p, p):
                out.append(G1 + G2[:32 * k] + W(w) + G2[32 * k + 32:])
            out.append(G1 + bytes(32 * k) + W(1) + bytes(96 - 32 * k))
        for b1 in (W(1 + p) + W(2), W(1) + W(2 + p), W(1 + 2 * p) + W(2), W(0) + W(2), W(1) + W(0)):
            out += [b1 + G2, g1(-1) + G2 + b1 + G2]
        return out
    return [G1 + G2, G1 + G2 + g1(-1) + G2, G1 + G2 + G1 + g2(-1), g1(2) + g2(3) + g1(-3) + g2(2), G1 + bytes(128), bytes(64) + G2,
            g1(2) + g2(3) + g1(-3) + g2(3), g1(1) + g2(1) + g1(2) + g2(2) + g1(-5) + g2(1), G1 + G2 + bytes(192) + g1(-1) + G2]


@lru_cache(None)
def in_blake():
    h = bytes(range(64))
    m = bytes((i * 3 + 1) & 255 for i in range(128))
    t = bytes(range(100, 116))
    B = lambda r, f, hh=h, mm=m, tt=t: r.to_bytes(4, "big") + hh + mm + tt + bytes([f])
    out = [B(r, f) for r in list(range(0, 25)) + [30, 100] for f in (0, 1)]
    out += [B(12, f) for f in (2, 3, 128, 255)] + [B(0, 2), b"", bytes(212), bytes(213), bytes(214), B(12, 1)[:-1], B(12, 1) + b"\x00", bytes(1), bytes(4)]
    out += [B(2**32 - 1, 1), B(2**31, 0), B(2**24, 1)]
    out += [B(12, 1, hh=b"\xff" * 64), B(12, 0, mm=b"\xff" * 128), B(12, 1, tt=b"\xff" * 16), B(12, 1, tt=b"\xff" * 8 + bytes(8)), B(12, 1, tt=bytes(8) + b"\xff" * 8),
            B(12, 1, bytes(64), bytes(128), bytes(16))]
    return out


@lru_cache(None)
def in_kzg(cheap):
    import hashlib
    base = next(iter(PC.POINT_EVAL_OK))
    z, y, C, Wp = base[32:64], base[64:96], base[96:144], base[144:192]
    mk = lambda z, y, C, w: b"\x01" + hashlib.sha256(C).digest()[1:] + z + y + C + w
    inf = b"\xc0" + bytes(47)
    n = BLS.n
    cg = lambda k: PC.g1_compress(BLS.mul(BLS.g, k))
    if cheap:
        out = [base[:-1], base + b"\x00", b"", bytes(192), b"\x02" + base[1:], bytes([1]) + bytes(31) + base[32:], base[:1] + b"\xff" + base[2:]]
        for zz in (n, n + 1, 2**256 - 1):
            out += [mk(W(zz), y, C, Wp), mk(z, W(zz), C, Wp)]
        bad = [bytes(48), b"\x80" + bytes(47), b"\xe0" + bytes(47), b"\xc0" + bytes(46) + b"\x01", b"\x00" + C[1:], bytes([C[0] ^ 0x80]) + C[1:],
               bytes([0x9f]) + b"\xff" * 47, b"\xff" * 48, notsub_c()]
        x = 0
        while curves.sqrt3((x**3 + 4) % BLS.p, BLS.p) is not None:
            x += 1
        bad.append(bytes([0x80]) + x.to_bytes(47, "big"))
        for b in bad:
            out += [mk(z, y, b, Wp), mk(z, y, C, b)]
        return out
    cy = lambda k: int.from_bytes(y, "big") * k % n
    return [base, mk(z, W(5), cg(5), inf), mk(W(0), W(0), inf, inf), mk(W(n - 1), W(n - 1), cg(n - 1), inf), mk(z, W(6), cg(5), inf), mk(W(7), W(1), inf, inf)]


@lru_cache(None)
def notsub_pt():
    for x in range(1, 60):
        y = curves.sqrt3((x**3 + 4) % BLS.p, BLS.p)
        if y is not None and BLS.mul((x, y), BLS.n) is not None:
            return (x, y)


def notsub_c():
    return PC.g1_compress(notsub_pt())


@lru_cache(None)
def notsub_2():
    from ref.maps import F2
    for i in range(1, 60):
        x = (i, 1)
        r = BLS2.fadd(BLS2.fmul(BLS2.fmul(x, x), x), BLS2.b)
        if F2.is_square(r):
            y = F2.sqrt(r)
            if BLS2.on((x, y)) and BLS2.mul((x, y), BLS.n) is not None:
                return (x, y)


def f48(x):
    return x.to_bytes(64, "big")


@lru_cache(None)
def bad_g1():
    g = BLS.g
    p = BLS.p
    e = PC._e1(g)
    return [f48(1) + f48(1), f48(0) + f48(1), f48(p) + f48(0), f48(0) + f48(p), f48(g[0] + p) + f48(g[1]), f48(g[0]) + f48(g[1] + p), b"\x01" + e[1:],
            e[:15] + b"\x01" + e[16:], e[:64] + b"\x01" + e[65:], e[:79] + b"\x80" + e[80:], b"\xff" * 128, f48(g[1]) + f48(g[0])]


@lru_cache(None)
def bad_g2():
    g = BLS2.g
    p = BLS.p
    e = PC._e2(g)
    out = [f48(1) * 4, f48(p) + f48(0) * 3, f48(0) * 3 + f48(p), f48(g[0][0] + p) + e[64:], e[:192] + f48(g[1][1] + p), b"\x01" + e[1:], b"\xff" * 256,
           e[64:128] + e[:64] + e[128:]]
    for o in (15, 64, 79, 128, 143, 192, 207):
        out.append(e[:o] + b"\x01" + e[o + 1:])
    return out


@lru_cache(None)
def in_g1add():
    ps = [PC._e1(BLS.mul(BLS.g, k) if k else None) for k in (0, 1, 2, 3, BLS.n - 1)] + [PC._e1(notsub_pt())]
    out = [a + b for a in ps for b in ps]
    for b in bad_g1():
        out += [b + ps[1], ps[1] + b, b + ps[0]]
    d = ps[1] + ps[2]
    return out + [b"", d[:-1], d + b"\x00", d[:128], d[:1], bytes(255), bytes(257)]


@lru_cache(None)
def in_g2add():
    ps = [PC._e2(BLS2.mul(BLS2.g, k) if k else None) for k in (0, 1, 2, BLS.n - 1)] + [PC._e2(notsub_2())]
    out = [a + b for a in ps for b in ps]
    for b in bad_g2():
        out += [b + ps[1], ps[1] + b, b + ps[0]]
    d = ps[1] + ps[2]
    return out + [b"", d[:-1], d + b"\x00", d[:256], d[:1], bytes(511), bytes(513)]


@lru_cache(None)
def in_msm(which, cheap):
    c, enc = (BLS, PC._e1) if which == 1 else (BLS2, PC._e2)
    sz = 160 if which == 1 else 288
    pt = lambda k: enc(c.mul(c.g, k) if k else None)
    if cheap:
        out = [b"", bytes(sz - 1), bytes(sz + 1), bytes(1), bytes(sz - 32)]
        out += [bytes(sz * k) for k in list(range(1, 20)) + [31, 32, 33, 63, 64, 65, 100, 120, 126, 127, 128, 129, 130, 140]]
        ns = enc(notsub_pt() if which == 1 else notsub_2())
        out += [ns + W(1), ns + W(0), bytes(sz) + ns + W(1)]
        for b in (bad_g1() if which == 1 else bad_g2()):
            out += [b + W(1), bytes(sz) + b + W(0)]
        return out
    out = []
    for k in (0, 1, 2, c.n - 1, c.n, c.n + 1, 2**256 - 1):
        out.append(pt(1) + W(k))
    out += [pt(0) + W(5), pt(1) + W(2) + pt(2) + W(3), pt(1) + W(2) + pt(2) + W(c.n - 1), pt(1) + W(1) + pt(c.n - 1) + W(1),
            pt(3) + W(2**200) + pt(0) + W(7) + pt(2) + W(2**255)]
    return out


@lru_cache(None)
def in_blspair(cheap):
    g1 = lambda k: PC._e1(BLS.mul(BLS.g, k % BLS.n) if k else None)
    g2 = lambda k: PC._e2(BLS2.mul(BLS2.g, k % BLS.n) if k else None)
    if cheap:
        out = [b"", bytes(384), bytes(768), bytes(383), bytes(385), bytes(1), bytes(128)]
        for b in bad_g1() + [PC._e1(notsub_pt())]:
            out += [b + g2(0), b + g2(1)]
        for b in bad_g2() + [PC._e2(notsub_2())]:
            out += [g1(0) + b, g1(1) + b]
        out.append(g1(0) + g2(0) + bad_g1()[0] + g2(0))
        return out
    return [g1(1) + g2(1), g1(1) + g2(1) + g1(-1) + g2(1), g1(2) + g2(3) + g1(-3) + g2(2), g1(2) + g2(3) + g1(3) + g2(-1), g1(0) + g2(1), g1(1) + g2(0),
            g1(1) + g2(1) + g1(2) + g2(2) + g1(-5) + g2(1)]


@lru_cache(None)
def in_map(which, cheap):
    p = BLS.p
    if which == 1:
        if cheap:
            return [b"", bytes(63), bytes(65), bytes(1), f48(p), f48(p + 1), b"\x01" + bytes(63), bytes(15) + b"\x01" + bytes(48), b"\xff" * 64, f48(p)[:63]]
        return [f48(x) for x in (0, 1, 2, 3, 5, p - 1, p - 2, p // 2, 2**300 + 9)] + [f48(sswu_exc())]
    if cheap:
        return [b"", bytes(127), bytes(129), bytes(64), f48(p) + f48(0), f48(0) + f48(p), b"\x01" + bytes(127), bytes(64) + b"\x01" + bytes(63),
                bytes(79) + b"\x01" + bytes(48), b"\xff" * 128]
    return [f48(a) + f48(b) for a, b in ((0, 0), (1, 0), (0, 1), (1, 1), (p - 1, p - 1), (2, p - 1), (5, 7), (0, p - 1))]


def sswu_exc():
    """u with Z^2 u^4 + Z u^2 = 0, i.e. u^2 = -1/Z, if a square; else 4."""
    p = BLS.p
    u = curves.sqrt3(-pow(11, -1, p) % p, p)
    return u or 4


@lru_cache(None)
def in_p256():
    c = curves.P256
    out = []
    for key in (1, 2, c.n - 1):
        Q = c.mul(c.g, key)
        for h in (b"\x33" * 32, bytes(32), b"\xff" * 32, W(c.n)):
            e = int.from_bytes(h, "big")
            r, s, _ = curves.ecdsa_sign(c, key, e % c.n, 12345 + key % 97)
            out += [h + W(r) + W(s) + W(Q[0]) + W(Q[1]), h + W(r) + W(c.n - s) + W(Q[0]) + W(Q[1]), h + W(s) + W(r) + W(Q[0]) + W(Q[1])]
    d = out[0]
    h, r, s, x, y = (d[i:i + 32] for i in range(0, 160, 32))
    for v in (0, 1, c.n - 1, c.n, c.n + 1, c.p, 2**256 - 1):
        out += [h + W(v) + s + x + y, h + r + W(v) + x + y]
    for v in (0, 1, c.p - 1, c.p, c.p + 1, 2**256 - 1):
        out += [h + r + s + W(v) + y, h + r + s + x + W(v)]
    out += [h + r + s + bytes(64), h + r + s + y + x, h + r + s + x + W(c.p - int.from_bytes(y, "big")), b"\x34" + d[1:]]
    sm = next(v for v in range(5, 200) if sq256(v) is not None)
    out.append(h + r + s + W(sm) + W(sq256(sm)))
    out.append(h + r + s + W(sm + c.p) + W(sq256(sm)))
    # valid signatures (made without a private key) for keys with a small coordinate, also written one modulus higher
    for Q in ((sm, sq256(sm)), (sm, c.p - sq256(sm))) + tuple((root256(v), v) for v in small256()):
        u1, u2 = 3, 7
        R = c.add(c.mul(c.g, u1), c.mul(Q, u2))
        rr = R[0] % c.n
        ss = rr * pow(u2, -1, c.n) % c.n
        sig = W(u1 * ss % c.n) + W(rr) + W(ss)
        for x, y in ((Q[0], Q[1]), (Q[0] + c.p, Q[1]), (Q[0], Q[1] + c.p), (Q[0] + c.p, Q[1] + c.p)):
            if max(x, y) < 2**256:
                out.append(sig + W(x) + W(y))
    # valid signatures whose R has an x of at least n
    xs = [v for v in range(c.n, c.n + 40) if sq256(v) is not None][:3]
    for v in xs:
        R, u1, u2 = (v, sq256(v)), 5, 11
        Q = c.mul(c.add(R, c.mul(c.g, c.n - u1)), pow(u2, -1, c.n))
        for rr in (v % c.n, v):
            ss = (v % c.n) * pow(u2, -1, c.n) % c.n
            out.append(W(u1 * ss % c.n) + W(rr) + W(ss) + W(Q[0]) + W(Q[1]))
    # R at infinity: u1 G + u2 Q = 0
    e = int.from_bytes(h, "big") % c.n
    key = 2
    Q = c.mul(c.g, key)
    rr = (-e * pow(key, -1, c.n)) % c.n
    out.append(h + W(rr) + W(5) + W(Q[0]) + W(Q[1]))
    for n in (0, 1, 128, 159):
        out.append(d[:n])
    out += [d + b"\x00", d + d]
    return out


@lru_cache(None)
def small256():
    return tuple(v for v in range(1, 60) if root256(v) is not None)[:3]


@lru_cache(None)
def root256(y):
    """An x with (x, y) on P-256: the root of x^3 + ax + b - y^2 if there is exactly one."""
    c = curves.P256
    p = c.p
    k = (c.b - y * y) % p

    def mul(f, g):      # modulo the cubic
        r = [0] * 5
        for i, a in enumerate(f):
            for j, b in enumerate(g):
                r[i + j] = (r[i + j] + a * b) % p
        for d in (4, 3):
            r[d - 2] = (r[d - 2] - c.a * r[d]) % p
            r[d - 3] = (r[d - 3] - k * r[d]) % p
        return r[:3]

    t, b, e = [1, 0, 0], [0, 1, 0], p
    while e:
        if e & 1:
            t = mul(t, b)
        b = mul(b, b)
        e >>= 1
    f, g = [k, c.a % p, 0, 1], [t[0], (t[1] - 1) % p, t[2]]
    while any(g):
        while not g[-1]:
            g.pop()
        while len(f) >= len(g):
            q = f[-1] * pow(g[-1], -1, p) % p
            for i in range(len(g)):
                f[len(f) - len(g) + i] = (f[len(f) - len(g) + i] - q * g[i]) % p
            f.pop()
        while f and not f[-1]:
            f.pop()
        f, g = g, f
        if not g:
            break
    if len(f) != 2:
        return None
    x = -f[0] * pow(f[1], -1, p) % p
    return x if (x**3 + c.a * x + c.b - y * y) % p == 0 else None


def sq256(x):
    c = curves.P256
    v = (x**3 + c.a * x + c.b) % c.p
    return curves.sqrt3(v, c.p)


def inputs(a, cheap):
    if a == 1:
        return in_ecrecover() if cheap else []
    if a in (2, 3, 4):
        return in_bytes() if cheap else []
    if a == 5:
        return in_modexp() if cheap else []
    if a == 6:
        return in_bn_add() if cheap else []
    if a == 7:
        return in_bn_mul() if cheap else []
    if a == 8:
        return in_bn_pair(cheap)
    if a == 9:
        return in_blake() if cheap else []
    if a == 10:
        return in_kzg(cheap)
    if a == 11:
        return in_g1add() if cheap else []
    if a == 13:
        return in_g2add() if cheap else []
    if a in (12, 14):
        return in_msm(a // 2 - 5, cheap)
    if a == 15:
        return in_blspair(cheap)
    if a in (16, 17):
        return in_map(a - 15, cheap)
    if a == 0x100:
        return in_p256() if cheap else []
    return []


class C(DiffCheck):
    pid = "C11"
    rule = ("for every precompile of every fork: all listed length classes, field boundaries, malformed encodings, points off curve / out "
            "of subgroup, algebraic identities; each input called with exactly the priced gas, one less and plenty; all addresses 0..0x140 "
            "in every fork; every call kind; direct transactions.  Oracles: affine curve arithmetic, bilinearity over known discrete "
            "logarithms, textbook definitions.  A state is a distinct model post-state incl. outputs")
    assumptions = ["SHA-256, RIPEMD-160 (pycryptodome) and the RFC 9380 isogeny constants are trusted tables",
                   "KZG verdicts are decided for constant polynomials and one published proof"]
    bounds = {"quick": "as in rule", "thorough": "same inputs; pairing inputs also with all call kinds"}

    def cases(self, tier):
        for F in sorted(ALL, reverse=True):
            tab = [int.from_bytes(a, "big") for a in PC.table(F)]
            # expensive ones first
            for a in sorted(tab, reverse=True):
                for i in range(len(inputs(a, False))):
                    yield ("in", F, a, False, i, i + 1, tier)
        for F in ALL:
            tab = [int.from_bytes(a, "big") for a in PC.table(F)]
            for a in tab:
                n = len(inputs(a, True))
                step = 12 if a < 10 or a == 0x100 else 6
                for i in range(0, n, step):
                    yield ("in", F, a, True, i, min(n, i + step), tier)
                yield ("kinds", F, a)
            for i in range(0, 0x140, 0x20):
                yield ("addr", F, i)

    def build(self, d):
        return getattr(self, "b_" + d[0])(*d[1:])

    def b_in(self, F, a, cheap, lo, hi, tier):
        f = PC.table(F)[ad(a)]
        calls = []
        for d in inputs(a, cheap)[lo:hi]:
            g, out = f(d, F)
            g = min(g, 2_000_000)
            outsz = 64 if out is None or len(out) <= 64 else min(96, len(out))
            base = dict(to=ad(a), data=d)
            gs = [g, g - 1, g + 500] if cheap else [g, g - 1]
            if out is None:
                gs = [max(g, 3000) + 777]
            for gg in gs:
                if gg >= 0:
                    calls.append(dict(base, gas=gg))
        return [self.obs(F, calls[i:i + 20]) for i in range(0, len(calls), 20)]

    def obs(self, F, calls):
        """Each call logs success, gas left and the full output."""
        code = b""
        for c in calls:
            d = c["data"]
            kind = c.get("kind", "CALL")
            v = [c.get("value", 0)] if kind in ("CALL", "CALLCODE") else []
            code += asm(mstore_code(d, 0x1000) if d else b"", 288, 0x100, len(d), 0x1000, *v, addr_int(c["to"]), c["gas"], kind,
                        "0x40 MSTORE GAS 0x60 MSTORE")
            if F >= BYZANTIUM:
                code += asm("RETURNDATASIZE 0x80 MSTORE RETURNDATASIZE 0 0x100 RETURNDATACOPY RETURNDATASIZE 0xC0 ADD 0x40 LOG0")
            else:
                code += asm(0x160, 0x40, "LOG0")
        acc = world()
        acc[DRV] = (1, 10**6, code)
        return case(F, acc, [tx(F, DRV, gas=16_000_000)])

    def b_kinds(self, F, a):
        ins = inputs(a, True)
        kinds = ["CALL", "CALLCODE"] + ["DELEGATECALL"] * (F >= HOMESTEAD) + ["STATICCALL"] * (F >= BYZANTIUM)
        f = PC.table(F)[ad(a)]
        good = next((d for d in ins if f(d, F)[1] not in (None, b"") and f(d, F)[0] < 10**6), ins[0])
        bad = next((d for d in ins if f(d, F)[1] is None), None)
        calls, txs = [], []
        for d in (good, bad):
            if d is None:
                continue
            g = min(f(d, F)[0], 500000)
            for k in kinds:
                for v in (0, 3) if k in ("CALL", "CALLCODE") else (0,):
                    calls.append(dict(to=ad(a), data=d, gas=g + 100, kind=k, value=v))
                    if v and g >= 2300:
                        calls.append(dict(to=ad(a), data=d, gas=g - 2300, kind=k, value=v))
                        calls.append(dict(to=ad(a), data=d, gas=g - 2301, kind=k, value=v))
        yield self.obs(F, calls)
        for d in (good, bad):
            if d is None:
                continue
            g = min(f(d, F)[0], 500000)
            ig, fl = evm.intrinsic(F, evm.Tx(S1, to=ad(a), data=d))
            for gg in {max(ig + g, fl), max(ig + g - 1, fl), max(ig + g + 1000, fl)}:
                yield case(F, world(), [tx(F, ad(a), d, gas=gg, value=1), tx(F, ad(a), d, gas=gg, nonce=1)])

    def b_addr(self, F, lo):
        for d in (b"", bytes(160), bytes(213), b"\x01" * 256):
            for pre in (0, 1):
                calls = [dict(to=ad(a), data=d, gas=3000 if a not in (8, 10, 12, 14, 15, 17) else 2000) for a in range(lo, lo + 0x20)]
                c = self.obs(F, calls)
                if pre:   # code deposited at these addresses runs only where no precompile is defined
                    for a in range(lo, lo + 0x20):
                        c["acc"][ad(a)] = (1, 5, asm(0x77, "0 MSTORE 32 0 RETURN"))
                yield c


if __name__ == "__main__":
    raise SystemExit(main(C()))
