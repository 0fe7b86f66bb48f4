"""C14: transaction encoding, hash, signing payload and sender."""
import itertools
from explore import Check, Result, main
from drv import diff, real
from drv.diff import Mismatch, digest
from ref import codec, curves, prim
from ref.evm import max_kind
from ref.forks import *  # noqa
from ethereum_rlp import rlp as irlp
from ethereum_types.bytes import Bytes, Bytes0, Bytes32
from ethereum_types.numeric import U8, U64, U256, Uint

N = curves.SECP.n
P = curves.SECP.p
A1, A2 = bytes([1] * 20), bytes(19) + b"\x09"
H1, H2 = bytes([7] * 32), bytes(32)
AU = (1, A1, 3, 1, 5, 6)
BASE = {
    0: [3, 10, 21000, A1, 5, b"\x01\x02", 27, 8, 9],
    1: [1, 3, 10, 21000, A1, 5, b"\x01\x02", ((A1, (H1, H2)), (A2, ())), 1, 8, 9],
    2: [1, 3, 2, 10, 21000, A1, 5, b"\x01\x02", ((A1, (H1,)),), 0, 8, 9],
    3: [1, 3, 2, 10, 21000, A1, 5, b"\x01\x02", ((A1, (H1,)),), 7, (H1, b"\x01" + bytes(31)), 0, 8, 9],
    4: [1, 3, 2, 10, 21000, A1, 5, b"\x01\x02", ((A1, (H1,)),), (AU, (0, A2, 0, 0, 1, 1)), 1, 8, 9],
}
INTS = {"I0": [0, 1, 127, 128, 255, 256, 2**63, 2**64 - 1, 2**64, 2**255, 2**256 - 1, 2**256],
        "I32": [0, 1, 127, 128, 255, 256, 2**64 - 1, 2**64, 2**255, 2**256 - 1],
        "I8": [0, 1, 127, 128, 2**32, 2**64 - 1], "I1": [0, 1, 127, 128, 255],
        "T": [b"", bytes(20), A2, b"\xff" * 20], "A": [bytes(20), A2, b"\xff" * 20],
        "D": [b"", b"\x00", b"\x7f", b"\x80", bytes(2), bytes(55), bytes(56), b"\x01" * 255, b"\x01" * 256, bytes(65536)],
        "ACL": [(), ((A1, ()),), ((A1, (H2,)), (A1, (H2, H2)), (A2, (H1,) * 5))],
        "HS": [(), (H1,), (H1, H1, H2), (H2,) * 7], "AUTHS": [(), (AU,), (AU, AU, (2**256 - 1, A2, 2**64 - 1, 255, 2**256 - 1, 2**256 - 1))]}


def flat(x):
    """Implementation object -> plain nested tuple of ints and bytes."""
    import dataclasses
    if dataclasses.is_dataclass(x):
        return tuple(flat(getattr(x, f.name)) for f in dataclasses.fields(x))
    if isinstance(x, (tuple, list)):
        return tuple(flat(y) for y in x)
    if isinstance(x, (bytes, bytearray)):
        return bytes(x)
    return int(x)


class C(Check):
    pid = "C14"
    rule = ("for every fork and type: round trip, hash and signing payload over every pair of boundary field values; every truncation, every "
            "trailing byte, every byte position x substituted value, every structural mutation of every field (wrong length, leading zero, "
            "list for string and back, missing, extra, duplicated, nested errors, non-minimal RLP lengths) of each encoding and every type "
            "byte, against an independent strict decoder; every combination of boundary v, r, s, chain id against independent recovery.  A "
            "state is a distinct (input, verdict, result)")
    bounds = {"quick": "12 substituted byte values per position, pairs of field values", "thorough": "all 256 byte values, two mutated positions in the header, triples"}

    def kinds(self, F):
        return range(max_kind(F) + 1)

    def cases(self, tier):
        th = tier == "thorough"
        for F in ALL:
            for k in self.kinds(F):
                ks = codec.SCHEMA[k].split()
                for i in range(len(ks)):
                    yield ("round", F, k, (i,), None)
                    for j in range(i):
                        yield ("round", F, k, (j, i), None)
                        if th:
                            for m in range(j):
                                yield ("round", F, k, (m, j, i), 4)
                    yield ("sign", F, k, i)
                n = len(codec.encode(k, BASE[k]))
                for i in range(n):
                    yield ("byte", F, k, i, th)
                yield ("trunc", F, k)
                for i in range(len(ks)):
                    yield ("struct", F, k, i)
                yield ("outer", F, k)
                for i in range(8):
                    yield ("rsv", F, k, i, th)
                yield ("valid", F, k)
            if F >= BERLIN:
                yield ("types", F)

    def run(self, d):
        self.digs, self.n = [], 0
        self.d = d
        getattr(self, "r_" + d[0])(*d[1:])
        return Result(self.digs, self.n, self.n)

    # ---------------------------------------------------------- both sides
    def idecode(self, F, k, b):
        fk = real.fork(F)
        try:
            if k == 0:
                cls = getattr(fk.txs, "LegacyTransaction", None) or fk.txs.Transaction
                t = irlp.decode_to(cls, Bytes(b))
                if F >= BERLIN:
                    t = fk.txs.decode_transaction(t)
                return t
            return fk.txs.decode_transaction(Bytes(b))
        except real.INVALID:
            return None
        except Exception as e:
            raise Mismatch(f"decoding {b[:200].hex()} ({len(b)} bytes) raised {type(e).__name__}: {e}")

    def one(self, F, k, b):
        """Decode b on both sides and compare; k = 0 legacy, else envelope."""
        self.n += 1
        fk = real.fork(F)
        try:
            kk, want = (0, codec.decode_legacy(b)) if k == 0 else codec.decode_tx(F, b)
        except codec.Bad:
            want = None
        t = self.idecode(F, k, b)
        if (t is None) != (want is None):
            raise Mismatch(f"{NAMES[F]} type {k}: decoding {b[:400].hex()} ({len(b)} bytes): definition "
                           f"{'refuses' if want is None else 'accepts'}, implementation {'refuses' if t is None else 'accepts ' + repr(t)[:300]}")
        self.digs.append(digest((b, want is None)))
        if t is None:
            return None
        if flat(t) != want:
            raise Mismatch(f"{NAMES[F]}: decoded fields of {b[:400].hex()} differ: {flat(t)} vs {want}")
        self.reenc(F, kk, t, b)
        return t

    def reenc(self, F, k, t, b):
        fk = real.fork(F)
        if F >= BERLIN:
            e = fk.txs.encode_transaction(t)
            if k == 0:
                if e != t:
                    raise Mismatch("encode_transaction changed a legacy transaction")
                e = irlp.encode(e)
            if bytes(e) != b:
                raise Mismatch(f"re-encoding differs: {bytes(e).hex()[:400]} vs {b.hex()[:400]}")
            h = fk.txs.get_transaction_hash(fk.txs.encode_transaction(t))
        else:
            if bytes(irlp.encode(t)) != b:
                raise Mismatch("re-encoding differs")
            h = fk.txs.get_transaction_hash(t)
        if bytes(h) != prim.keccak(b):
            raise Mismatch("transaction hash differs")

    def build(self, F, k, f):
        fk = real.fork(F)
        T, ty = fk.txs, fk.types
        names = {0: "LegacyTransaction", 1: "AccessListTransaction", 2: "FeeMarketTransaction", 3: "BlobTransaction", 4: "SetCodeTransaction"}
        cls = getattr(T, names[k], None) or T.Transaction
        import dataclasses
        vals = []
        for kind, v in zip(codec.SCHEMA[k].split(), f):
            if kind[0] == "I":
                v = {"I0": Uint, "I32": U256, "I8": U64}[kind](v)
            elif kind == "T":
                v = Bytes0(v) if v == b"" else ty.Address(v)
            elif kind == "A":
                v = ty.Address(v)
            elif kind == "D":
                v = Bytes(v)
            elif kind == "ACL":
                v = fk.access([(a, [int.from_bytes(x, "big") for x in ks]) for a, ks in v])
            elif kind == "HS":
                v = tuple(Bytes32(x) for x in v)
            else:
                v = tuple(ty.Authorization(chain_id=U256(c), address=ty.Address(a), nonce=U64(n), y_parity=U8(y), r=U256(r), s=U256(s))
                          for c, a, n, y, r, s in v)
            vals.append(v)
        return cls(**{x.name: v for x, v in zip(dataclasses.fields(cls), vals)})

    def irecover(self, F, cid, t):
        fk = real.fork(F)
        try:
            if F < SPURIOUS:
                return bytes(fk.txs.recover_sender(t))
            return bytes(fk.txs.recover_sender(U64(cid), t))
        except real.INVALID:
            return None
        except Exception as e:
            raise Mismatch(f"recover_sender({t!r}) raised {type(e).__name__}: {e}")

    def rec(self, F, cid, k, f):
        self.n += 1
        want = codec.recover(F, cid, k, f)
        got = self.irecover(F, cid, self.build(F, k, f))
        if want != got:
            raise Mismatch(f"{NAMES[F]} type {k} chain {cid}: sender of {f}: definition {want and want.hex()}, implementation {got and got.hex()}")
        self.digs.append(digest((F, cid, k, f, want)))
        return want

    # --------------------------------------------------------------- kinds
    def r_round(self, F, k, idx, cut):
        ks = codec.SCHEMA[k].split()
        lim = cut or (100 if len(idx) == 1 else 6)
        sets = []
        for i in idx:
            v = INTS[ks[i]]
            if len(idx) > 1:
                v = [x for x in v if not (isinstance(x, bytes) and len(x) > 300)]
                step = max(1, len(v) // lim)
                v = v[::-1][::step][:lim]
            sets.append(v)
        for c in itertools.product(*sets):
            f = list(BASE[k])
            for i, v in zip(idx, c):
                f[i] = v
            b = codec.encode(k, f)
            t = self.one(F, k, b)
            if t is None:
                raise Mismatch("valid encoding refused")
            if t != self.build(F, k, f):
                raise Mismatch("decoded object differs from the one built from the fields")

    def signed(self, F, k, f, cid, key=1, prot=None):
        body = codec.untyped(f[:-3])
        if k == 0:
            prot = F >= SPURIOUS if prot is None else prot
            msg = prim.rlp(body + [cid, 0, 0] if prot else body)
        else:
            prot, msg = None, bytes([k]) + prim.rlp(body)
        r, s, y = real._sign_hash(key, prim.keccak(msg))
        return f[:-3] + [y if k else (35 + 2 * cid + y if prot else 27 + y), r, s]

    def r_sign(self, F, k, i):
        """Each field value: the signer is recovered, and the signature does not cover any other value of the field."""
        ks = codec.SCHEMA[k].split()
        if i >= len(ks) - 3:
            return
        for v in INTS[ks[i]]:
            f = list(BASE[k])
            f[i] = v
            cid = f[0] if k else 1
            for key in (1, 3):
                g = self.signed(F, k, f, cid, key)
                got = self.irecover(F, cid, self.build(F, k, g))
                self.n += 1
                self.digs.append(digest((F, k, g, got)))
                if got != real.addr_of(key):
                    raise Mismatch(f"{NAMES[F]} type {k}: signer {real.addr_of(key).hex()} of {g} recovered as {got and got.hex()}")
            for u in INTS[ks[i]][:4]:
                if u != v:
                    h = list(g)
                    h[i] = u
                    if self.irecover(F, cid, self.build(F, k, h)) == real.addr_of(3):
                        raise Mismatch(f"{NAMES[F]} type {k}: field {i} is not covered by the signature")

    def r_byte(self, F, k, i, th):
        b = codec.encode(k, BASE[k])
        vals = range(256) if th else sorted({0, 1, 4, 5, 0x7F, 0x80, 0x81, 0xB7, 0xB8, 0xBF, 0xC0, 0xC1, 0xF7, 0xF8, 0xFF, (b[i] + 1) & 255, (b[i] - 1) & 255})
        for v in vals:
            self.one(F, k, b[:i] + bytes([v]) + b[i + 1:])
        # insertion and removal
        for v in (0, 0x80, 0xC0):
            self.one(F, k, b[:i] + bytes([v]) + b[i:])
        self.one(F, k, b[:i] + b[i + 1:])
        if th and i < 4:
            for j in range(i + 1, min(len(b), 14)):
                for v, w in itertools.product((0, 1, 0x7F, 0x80, 0xB8, 0xC0, 0xF8, 0xFF), repeat=2):
                    x = bytearray(b)
                    x[i], x[j] = v, w
                    self.one(F, k, bytes(x))

    def r_trunc(self, F, k):
        b = codec.encode(k, BASE[k])
        for n in range(len(b)):
            self.one(F, k, b[:n])
        for v in range(256):
            self.one(F, k, b + bytes([v]))
            self.one(F, k, bytes([v]))

    def envelope(self, k, items, enc=prim.rlp):
        b = enc(items)
        return bytes([k]) + b if k else b

    def r_struct(self, F, k, i):
        ks = codec.SCHEMA[k].split()
        items = codec.untyped(BASE[k])
        reps = [b"", b"\x00", b"\x00\x01", b"\x01", b"\x80", bytes(8), b"\x01" + bytes(7), b"\x01" + bytes(8), bytes(19), b"\x01" * 19, b"\x01" * 20,
                b"\x01" * 21, b"\x01" * 31, b"\x01" * 32, b"\x01" * 33, bytes(32), bytes(33), b"\x01" * 60, [], [b""], [b"\x01"], [[]], [[], []],
                [b"\x01" * 20], [b"\x01" * 32], [[b"\x01" * 20]], [[b"\x01" * 20, []]], [[b"\x01" * 20, [], []]], [[b"\x01" * 20, b""]],
                [[b"\x01" * 19, []]], [[b"\x01" * 20, [b"\x01" * 31]]], [[b"\x01" * 20, [b"\x01" * 33]]], [[b"\x01" * 20, [b"\x01" * 32, []]]],
                [[b"\x01" * 20, [b"\x01" * 32]], []], [[b"\x01" * 32, [b"\x01" * 20]]], [b"\x01" * 31], [b"\x01" * 33], [b"\x01" * 32, []]]
        au = [1, A1, 3, 1, 5, 6]
        for j, bad in itertools.product(range(6), (b"", b"\x00", b"\x00\x05", b"\x01\x00", b"\x01" + bytes(8), bytes(19), bytes(21), b"\x01" * 33, [])):
            a = list(au)
            a[j] = bad
            if ks[i] == "AUTHS":
                reps.append([a])
                reps.append([au, a])
        reps += [[au[:-1]], [au + [1]], [au]]
        for x in reps:
            self.one(F, k, self.envelope(k, items[:i] + [x] + items[i + 1:]))
        self.one(F, k, self.envelope(k, items[:i] + items[i + 1:]))
        self.one(F, k, self.envelope(k, items[:i] + [items[i]] + items[i:]))
        for x in (b"", b"\x01", []):
            self.one(F, k, self.envelope(k, items[:i] + [x] + items[i:]))
        if i + 1 < len(items):
            y = list(items)
            y[i], y[i + 1] = y[i + 1], y[i]
            self.one(F, k, self.envelope(k, y))
        # non-minimal encodings of field i
        e = prim.rlp(items[i])
        body = items[i] if isinstance(items[i], bytes) else prim.i2b(items[i]) if isinstance(items[i], int) else None
        raws = []
        if body is not None:
            raws += [b"\xb8" + bytes([len(body)]) + body, b"\xb9\x00" + bytes([len(body) & 255]) + body, b"\x80" if body else b"\x00",
                     bytes([0x80 + min(len(body), 55)]) + body, b"\xb8", b"\xbf" + b"\xff" * 8, b"\xb7"]
        else:
            inner = b"".join(prim.rlp(x) for x in items[i])
            raws += [b"\xf8" + bytes([len(inner) & 255]) + inner, b"\xf9" + len(inner).to_bytes(2, "big") + inner, b"\xf8", b"\xff" + b"\xff" * 8, b"\xfa\x00" + len(inner).to_bytes(2, "big") + inner]
        for r in raws:
            parts = [prim.rlp(x) for x in items]
            parts[i] = r
            p = b"".join(parts)
            b = prim._len(len(p), 0xC0) + p
            self.one(F, k, bytes([k]) + b if k else b)

    def r_outer(self, F, k):
        items = codec.untyped(BASE[k])
        p = b"".join(prim.rlp(x) for x in items)
        n = len(p)
        pre = bytes([k]) if k else b""
        for h in (b"\xf9" + n.to_bytes(2, "big"), b"\xf8" + bytes([n & 255]), b"\xfa" + n.to_bytes(3, "big"), b"\xf8" + bytes([(n - 1) & 255]), b"\xf8" + bytes([(n + 1) & 255]),
                  b"\xb8" + bytes([n & 255]), bytes([0xC0 + min(n, 55)]), b"", b"\xf8", b"\xff" * 9, b"\xc0", b"\x80"):
            self.one(F, k, pre + h + p)
            self.one(F, k, pre + h)
        b = prim.rlp(items)
        self.one(F, k, pre + prim.rlp([items]))
        self.one(F, k, pre + prim.rlp(b))
        self.one(F, k, pre + pre + b)
        if k:
            self.one(F, k, b)
            self.one(F, k, prim.rlp(pre + b))
        self.one(F, k, prim.rlp(b""))
        for j in range(len(items)):
            self.one(F, k, pre + prim.rlp(items[:j]))

    def r_types(self, F):
        for t in range(256):
            for k in range(5):
                self.one(F, 9, bytes([t]) + prim.rlp(codec.untyped(BASE[k])))
            self.one(F, 9, bytes([t]))
        self.one(F, 9, b"")

    RS = [0, 1, 2, N // 2, N // 2 + 1, N - 1, N, N + 1]

    def r_rsv(self, F, k, ri, th):
        f = list(BASE[k])
        g = self.signed(F, k, f, 1)
        r0, s0 = g[-2:]
        # 1 is an x coordinate of the curve; 5 is not
        rs = [0, 1, 5, r0, N - 1, N, P - 1, 2**256 - 1]
        ss = [0, 1, s0, N // 2, N // 2 + 1, N - s0, N - 1, N, N + 1, 2**256 - 1]
        v0 = g[-3]
        if k:
            vs = [0, 1, 2, 3, 27, 28, 37, 2**64 - 1, 2**256 - 1]
        else:
            vs = [0, 1, 26, 27, 28, 29, 30, 34, 35, 36, 37, 38, 39, 40, 2**64 + 27, 2**256 - 1]
        r = rs[ri]
        sel = ss if r not in (5, 1) or th else ss[1:6:3]
        for s, v in itertools.product(sel, vs):
            f[-3:] = [v, r, s]
            self.rec(F, 1, k, tuple(f))

    def r_valid(self, F, k):
        """Chain binding: signed for chain a, processed on chain b; protected and unprotected."""
        cids = [0, 1, 2, 5, 2**31, 2**63, 2**64 - 1]
        for a, b in itertools.product(cids, repeat=2):
            f = list(BASE[k])
            if k:
                f[0] = a
                g = self.signed(F, k, f, a)
                want = self.rec(F, b, k, tuple(g))
                if (want is not None) != (a == b):
                    raise Mismatch("chain binding of the reference is wrong")
            else:
                for prot in (False, True):
                    self.rec(F, b, 0, tuple(self.signed(F, k, f, a, 1, prot)))
                # unprotected hash with protected v and back
                g = self.signed(F, k, f, a, 1, False)
                self.rec(F, b, 0, tuple(g[:-3] + [35 + 2 * a + g[-3] - 27] + g[-2:]))
                g = self.signed(F, k, f, a, 1, True)
                self.rec(F, b, 0, tuple(g[:-3] + [27 + (g[-3] - 35) % 2] + g[-2:]))
        # high-s twin of a valid signature (other parity)
        for prot in (False, True):
            g = self.signed(F, k, list(BASE[k]), 1, 1, prot)
            v = g[-3]
            fl = (1 - v) if k else (55 - v if v < 30 else 75 - v)
            self.rec(F, 1, k, tuple(g[:-3] + [fl, g[-2], N - g[-1]]))
            self.rec(F, 1, k, tuple(g[:-3] + [v, g[-2], N - g[-1]]))
            self.rec(F, 1, k, tuple(g[:-3] + [fl] + g[-2:]))
        # signature over a message whose recovery yields the point at infinity: s*R = h*G
        f = list(BASE[k])
        body = codec.untyped(f[:-3])
        msg = prim.rlp(body) if k == 0 else bytes([k]) + prim.rlp(body)
        h = int.from_bytes(prim.keccak(msg), "big") % N
        G = curves.SECP.g
        s, y = h, G[1] & 1
        if s > N // 2:
            s, y = N - s, 1 - y
        self.rec(F, 1, k, tuple(f[:-3] + [y if k else 27 + y, G[0], s]))


if __name__ == "__main__":
    raise SystemExit(main(C()))
