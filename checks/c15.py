"""C15: only headers that validly extend the chain's head are accepted."""
import itertools
from explore import Check, Result, main
from drv import blocks, real
from drv.blocks import Pair, child, derive, genesis, seal
from drv.diff import Mismatch
from ref import chain, prim
from ref.chain import NO_OMMERS, hhash
from ref.forks import *  # noqa

ACC = {bytes([0xC0]) + bytes(19): (1, 5, b"")}
SYSACC = {chain.WREQ: (1, 0, b"\x00"), chain.CREQ: (1, 0, b"\x00")}


class C(Check):
    pid = "C15"
    rule = ("for every fork: every kind of parent (gas limits, gas used, base fee, excess and used blob gas at their turning points, with and "
            "without ommers, bomb periods, window edges, last header of the previous fork) x every single deviation of a header field to the "
            "values just below / at / above each bound, with dependent fields kept consistent or recomputed, and proof-of-work sealed again; all "
            "pairs of deviations; blocks whose parent is any block of a longer chain (sibling of the head, child of an older block, gap, repeat); "
            "refused blocks interleaved with accepted ones; chains through 260 blocks.  A state is a distinct (header, verdict)")
    bounds = {"quick": "pairs of deviations on the main parent; single deviations on every parent", "thorough": "pairs of deviations on every parent, triples on the main parent"}
    assumptions = ["the ethash function is replaced by a cheap stand-in here; the function itself is decided by C24"]

    def parents(self, F):
        out = [("base", {})]
        for gl in (5000, 5001, 5119, 5120, 5121, 6143, 6144, 1_000_000_007, 2**62):
            out.append(("gl%d" % gl, dict(gas_limit=gl)))
        if F >= LONDON:
            for bf in (0, 1, 7, 8, 875_000_000):
                for gu in (0, 1, 14_999_999, 15_000_000, 15_000_001, 30_000_000):
                    out.append(("bf", dict(base_fee=bf, gas_used=gu)))
        if F < PARIS:
            for d in (131072, 131073, 2**20, 2**40 + 12345):
                out.append(("d", dict(difficulty=d)))
            out.append(("om", dict(ommers_hash=bytes(32), difficulty=2**40)))
            dl = chain.DELAY.get(F, 0)
            for n in (199_998, 199_999, 200_000, 299_998, 299_999, 999_999, 1_999_999):
                out.append(("bomb", dict(number=dl + n, difficulty=2**30)))
        out += [("t0", dict(timestamp=0)), ("tbig", dict(timestamp=2**64))]
        if F == DAO:
            for n in (1_919_998, 1_919_999, 1_920_000, 1_920_004, 1_920_008, 1_920_009, 1_920_010):
                out.append(("dao", dict(number=n)))
        if F == LONDON:
            for gl in (5000, 15_000_000, 15_000_001):
                out.append(("lon", dict(number=chain.LONDON_BLOCK - 1, F=BERLIN, gas_limit=gl)))
            out.append(("lon1", dict(number=chain.LONDON_BLOCK, base_fee=10**9, gas_used=20_000_000)))
            out.append(("lon-2", dict(number=chain.LONDON_BLOCK - 2)))
        if F >= CANCUN:
            t = (6 if F >= PRAGUE else 3) * 131072
            for ex, us in itertools.product((0, 131072, t - 1, t, t + 1, 10**7, 10**8), (0, 131072, t, t + 131072 * 3)):
                for bf in ((1000,) if F < OSAKA else (1, 15, 16, 17, 1000, 10**9)):
                    out.append(("ex", dict(excess_blob_gas=ex, blob_gas_used=us, base_fee=bf)))
        if F > FRONTIER and F not in (LONDON,):
            kw = dict(F=F - 1)
            if F == PARIS:
                kw["difficulty"] = 10**16
            if F == SHANGHAI or F == CANCUN or F == PARIS:
                kw["gas_used"] = 20_000_000
            out.append(("prev", kw))
            if F in (PRAGUE, OSAKA):
                for ex, us in ((0, 0), (131072 * 6, 131072), (131072 * 7, 131072 * 6), (10**7, 0), (131072 * 5, 131072)):
                    out.append(("prev", dict(F=F - 1, excess_blob_gas=ex, blob_gas_used=us)))
        return out

    def parent(self, F, kw):
        pf = kw.get("F", F)
        g = genesis(pf)
        if pf != F:
            g["number"] = genesis(F)["number"]
        g.update(kw)
        return g

    def devs(self, F):
        """name, function(parent, header) changing the header in place, fields not to derive again."""
        D = []

        def setter(name, key, fn, rederive=True):
            D.append((name, key, fn, rederive))
        for dn in (-1, 1, 2, -1000):
            setter("number%+d" % dn, "number", lambda p, h, dn=dn: max(0, h["number"] + dn))
        setter("number0", "number", lambda p, h: 0)
        setter("phash", "parent_hash", lambda p, h: bytes([h["parent_hash"][0] ^ 1]) + h["parent_hash"][1:])
        setter("phash0", "parent_hash", lambda p, h: bytes(32))
        setter("pphash", "parent_hash", lambda p, h: p["parent_hash"])
        for t in (-1, 0, 1, 8, 9, 10, 12, 13, 14, 17, 18, 19, 20, 899, 900, 901, 909, 910, 989, 990, 1000, 10**6):
            setter("time%+d" % t, "timestamp", lambda p, h, t=t: max(0, p["timestamp"] + t))
            if t in (1, 9, 20):
                setter("timex%+d" % t, "timestamp", lambda p, h, t=t: max(0, p["timestamp"] + t), False)
        setter("timemax", "timestamp", lambda p, h: 2**64 - 1)
        for s, o in itertools.product((1, -1), (-1, 0, 1)):
            setter("gl%+d%+d" % (s, o), "gas_limit", lambda p, h, s=s, o=o: max(0, h["gas_limit"] + s * (h["gas_limit"] // 1024 + o)))
        for g in (4999, 5000, 5001, 0):
            setter("gl=%d" % g, "gas_limit", lambda p, h, g=g: g)
        setter("gl*2", "gas_limit", lambda p, h: h["gas_limit"] * 2)
        setter("gu1", "gas_used", lambda p, h: 1)
        setter("gu>gl", "gas_used", lambda p, h: h["gas_limit"] + 1)
        for n in (1, 31, 32, 33, 64):
            setter("extra%d" % n, "extra_data", lambda p, h, n=n: b"x" * n)
        setter("extradao", "extra_data", lambda p, h: b"dao-hard-fork")
        setter("extradao+", "extra_data", lambda p, h: b"dao-hard-fork\x00")
        setter("extradao-", "extra_data", lambda p, h: b"dao-hard-for")
        setter("extra0", "extra_data", lambda p, h: b"")
        for dd in (-1, 1):
            setter("diff%+d" % dd, "difficulty", lambda p, h, dd=dd: max(0, h["difficulty"] + dd), False)
        setter("diffp", "difficulty", lambda p, h: p["difficulty"], False)
        setter("ommers0", "ommers_hash", lambda p, h: bytes(32))
        setter("coinbase", "coinbase", lambda p, h: b"\xff" * 20)
        setter("bloom", "bloom", lambda p, h: b"\x01" + bytes(255))
        for k in ("state_root", "transactions_root", "receipt_root"):
            setter(k, k, lambda p, h, k=k: bytes([h[k][0] ^ 1]) + h[k][1:])
        if F < PARIS:
            setter("mix", "mix!", None)
            setter("mix0", "mix0", None)
            for o in (-1, 0, 1):
                setter("nonce%+d" % o, "nonce", lambda p, h, o=o: (2**256 // h["difficulty"] // 2**192 + o).to_bytes(8, "big"))
            setter("noncemax", "nonce", lambda p, h: b"\xff" * 8)
        else:
            setter("mix", "mix", lambda p, h: b"\x07" * 32)
            setter("nonce", "nonce", lambda p, h: bytes(7) + b"\x01")
            setter("noncehi", "nonce", lambda p, h: b"\x80" + bytes(7))
            setter("diff0x20000", "difficulty", lambda p, h: 131072, False)
        if F >= LONDON:
            for o in (-1, 1):
                setter("bf%+d" % o, "base_fee", lambda p, h, o=o: max(0, h["base_fee"] + o), False)
            setter("bf0", "base_fee", lambda p, h: 0, False)
            setter("bfp", "base_fee", lambda p, h: p.get("base_fee", 5), False)
            setter("bf1g", "base_fee", lambda p, h: 10**9, False)
        if F >= SHANGHAI:
            setter("wroot", "withdrawals_root", lambda p, h: bytes(32))
        if F >= CANCUN:
            for o in (-131072, -1, 1, 131072):
                setter("ex%+d" % o, "excess_blob_gas", lambda p, h, o=o: max(0, h["excess_blob_gas"] + o), False)
            setter("ex0", "excess_blob_gas", lambda p, h: 0, False)
            setter("exp", "excess_blob_gas", lambda p, h: p.get("excess_blob_gas", 1), False)
            for v in (1, 131072, 131072 * 6):
                setter("bgu%d" % v, "blob_gas_used", lambda p, h, v=v: v)
            setter("broot", "beacon_root", lambda p, h: bytes(32))
        if F >= PRAGUE:
            setter("req", "requests_hash", lambda p, h: bytes(32))
        return D

    def cases(self, tier):
        th = tier == "thorough"
        for F in ALL:
            nd = len(self.devs(F))
            np_ = len(self.parents(F))
            for i in range(np_):
                yield ("dev", F, i, ())
                for j in range(nd):
                    yield ("dev", F, i, (j,))
                if th and i:
                    for j in itertools.combinations(range(nd), 2):
                        yield ("dev", F, i, j)
            for j in itertools.combinations(range(nd), 2):
                yield ("dev", F, 0, j)
            if th:
                for j in itertools.combinations(range(nd), 3):
                    yield ("dev", F, 0, j)
            for depth in (1, 2, 3, 7, 8):
                yield ("old", F, depth)
            yield ("mixed", F)
            yield ("long", F)
            if F > FRONTIER:
                yield ("fork", F)

    def run(self, d):
        ps = getattr(self, "r_" + d[0])(*d[1:])
        return Result([x for p in ps for x in p.digs], sum(p.n for p in ps), sum(p.n for p in ps))

    def accts(self, F):
        return {**ACC, **(SYSACC if F >= PRAGUE else {})}

    def r_dev(self, F, i, js):
        name, kw = self.parents(F)[i]
        p = self.parent(F, kw)
        P = Pair(F, self.accts(F), {}, [(p, [], [], [])])
        devs = [self.devs(F)[j] for j in js]
        if len({d[1] for d in devs}) < len(devs):
            return [P]
        h, *rest = P.build()
        # apply: settable fields first, then dependent ones, then commitments, then the seal
        skip = set()
        sealed = None
        for nm, key, fn, red in devs:
            if key in ("mix!", "mix0", "nonce") and F < PARIS:
                sealed = (key, fn)
                continue
            h[key] = fn(p, h)
            if not red:
                skip.add(key)
                if key == "timestamp":
                    skip |= {"difficulty"}
        touched = {d[1] for d in devs}
        derive(F, p, h, skip=skip | touched)
        try:
            out, _ = P.m.execute(h, *rest)
            for k in chain.COMMIT:
                if k in out and k not in touched:
                    h[k] = out[k]
        except Exception as e:
            if type(e).__name__ != "Reject":
                raise
        if F < PARIS:
            if sealed is None:
                seal(h)
            elif sealed[0] == "nonce":
                seal(h, sealed[1](p, h) if h["difficulty"] else bytes(8))
            else:
                seal(h)
                h["mix"] = bytes([h["mix"][0] ^ 1]) + h["mix"][1:] if sealed[0] == "mix!" else bytes(32)
        if F < PARIS and h["difficulty"] == 0:
            return [P]   # never reaches the proof-of-work target division
        P.add((h, *rest))
        # the chain still accepts the right block
        if P.last is not None:
            P.add(P.build(), expect=True)
        return [P]

    def r_old(self, F, depth):
        """A block built on an ancestor of the head, and other misplaced blocks."""
        out = []
        for variant in ("ancestor", "number", "repeat", "selfparent", "wrongparenthash"):
            p = genesis(F)
            P = Pair(F, self.accts(F), {}, [(p, [], [], [])])
            sts = []
            for _ in range(depth):
                b = P.build()
                sts.append(b)
                P.add(b, expect=True)
            bl = P.m.blocks
            anc = [b[0] for b in bl]
            if variant == "ancestor":
                for a in anc:
                    for dt in (11, 12, 13):
                        P.add(self.on(P, a, timestamp=a["timestamp"] + dt, coinbase=bytes([dt]) * 20))
            elif variant == "number":
                for a in anc:
                    for dn in (-1, 0, 1, 2):
                        P.add(self.on(P, a, number=anc[-1]["number"] + 1 + dn))
            elif variant == "repeat":
                for b in sts:
                    P.add(b)
            elif variant == "selfparent":
                h, *r = P.build()
                h2 = dict(h, parent_hash=hhash(h))
                P.add((seal(h2) if F < PARIS else h2, *r))
            else:
                for a in anc[:-1]:
                    P.add(self.on(P, anc[-1], parent_hash=hhash(a)))
            P.add(P.build(), expect=True)
            out.append(P)
        return out

    def on(self, P, a, **kw):
        """Block whose header extends a, with commitments computed on the head state."""
        return P.build(parent=a, **kw)

    def r_mixed(self, F):
        """accepted and refused blocks interleaved."""
        p = genesis(F)
        P = Pair(F, self.accts(F), {}, [(p, [], [], [])])
        for i in range(6):
            good = P.build(timestamp=P.m.blocks[-1][0]["timestamp"] + 1 + 5 * i)
            for k, v in (("gas_limit", 1), ("timestamp", 1), ("extra_data", b"y" * 33), ("difficulty", 7), ("parent_hash", bytes(32))):
                h = dict(good[0], **{k: v})
                P.add((seal(h) if F < PARIS else h, *good[1:]))
            P.add(good, expect=True)
            P.add(good, expect=False)
        return [P]

    def r_long(self, F):
        p = genesis(F)
        P = Pair(F, self.accts(F), {}, [(p, [], [], [])])
        for i in range(260):
            P.add(P.build(timestamp=P.m.blocks[-1][0]["timestamp"] + 1 + i % 20), expect=True)
            if i in (252, 253, 254, 255, 256):
                for a in (0, 1, -2):
                    P.add(self.on(P, P.m.blocks[a][0], coinbase=b"\x55" * 20), expect=False)
        return [P]

    def r_fork(self, F):
        """Head chain of the previous fork continued by blocks of this one."""
        if F == LONDON:
            start = chain.LONDON_BLOCK - 3
        elif F == DAO:
            start = chain.DAO_BLOCK - 3
        else:
            start = genesis(F)["number"]
        p = genesis(F - 1, number=start)
        if F == PARIS:
            p["difficulty"] = 10**16
        acc = self.accts(F)
        A = Pair(F - 1, acc, {}, [(p, [], [], [])])
        for i in range(2):
            A.add(A.build(), expect=True)
        B = Pair(F, acc, {}, A.m.blocks)
        B.m.st = A.m.st.copy()
        B.resync()
        for i in range(12):
            good = B.build()
            for k, v in (("extra_data", b""), ("base_fee", 10**9), ("gas_limit", 15_000_000), ("difficulty", 0)):
                if k in good[0] and (k != "difficulty" or F >= PARIS):
                    h = dict(good[0], **{k: v})
                    if h != good[0]:
                        B.add((seal(h) if F < PARIS else h, *good[1:]))
                        if B.last is None:
                            good = B.build()
            B.add(good, expect=True)
        return [A, B]


if __name__ == "__main__":
    raise SystemExit(main(C()))
