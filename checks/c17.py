"""C17: a block is accepted exactly when its commitments match its execution."""
import itertools
from explore import Check, Result, main
from asm import asm, initcode
from drv import blocks, diff, real
from drv.blocks import Pair, genesis, seal
from drv.diff import Mismatch
from scen import A, ETH, S1, S2, NOBODY, K1, K2, price
from ref import chain, evm, prim
from ref.forks import *  # noqa

H0 = b"\x01" + bytes(31)
LOG, FAIL, OOG, SD, BH, STO, CREA = A(1), A(2), A(3), A(4), A(5), A(6), A(7)
SYSACC = {chain.WREQ: (1, 0, b"\x00"), chain.CREQ: (1, 0, b"\x00")}
BLOCKHASHES = b"".join(asm(off, "NUMBER", "SUB", "BLOCKHASH", i, "SSTORE") for i, off in enumerate((0, 1, 2, 5, 254, 255, 256, 257, 2**64)))
WORLD = {S1: (0, 10**6 * ETH, b""), S2: (0, 10**6 * ETH, b""),
         LOG: (1, 0, asm(7, 0, "MSTORE", 0xAA, 32, 0, "LOG1", 0xBB, 0xCC, 2, 30, "LOG2", 0, 0, "LOG0")),
         FAIL: (1, 0, asm(1, 1, "SSTORE", 0, 0, "LOG0", 0, 0, "REVERT") if False else asm(1, 1, "SSTORE", 0, 0, "LOG0", "INVALID")),
         OOG: (1, 0, asm("JUMPDEST", 0, "JUMP")), SD: (1, 77, asm("COINBASE", "SELFDESTRUCT")),
         BH: (1, 0, BLOCKHASHES),
         STO: (1, 0, asm("CALLVALUE", 0, "SLOAD", 1, "ADD", 0, "SSTORE", 0, "SLOAD", "NUMBER", "SSTORE", "TIMESTAMP", "GASLIMIT", "SSTORE", "GASPRICE", 9, "SSTORE")),
         CREA: (1, 0, asm(0, 0, "MSTORE", 0, 0, 0, "CREATE", 0, "SSTORE"))}


def kinds(F):
    """The transaction alphabet of a fork: name -> fields (nonce assigned per sender later)."""
    t = {"xfer": dict(to=NOBODY, value=3), "self": dict(to=S1, value=1, key=K2), "log": dict(to=LOG, data=b"\x01\x00"), "fail": dict(to=FAIL, gas=60000),
         "oog": dict(to=OOG, gas=30000), "sd": dict(to=SD), "bh": dict(to=BH, key=K2), "sto": dict(to=STO, value=2), "crea": dict(to=CREA, key=K2),
         "new": dict(to=b"", data=initcode(b"\x00\x01")), "newlog": dict(to=b"", data=asm(0, 0, "LOG0", 0, 0, "RETURN"))}
    if F >= BERLIN:
        t["t1"] = dict(to=STO, kind=1, access=((STO, (0, 9)),))
    if F >= LONDON:
        t["t2"] = dict(to=LOG, kind=2)
    if F >= CANCUN:
        t["t3"] = dict(to=STO, kind=3, blobs=(H0,), max_blob_fee=1000)
        t["t3b"] = dict(to=NOBODY, kind=3, blobs=(H0,) * 3, max_blob_fee=1000, key=K2)
    if F >= PRAGUE:
        t["t4"] = dict(to=LOG, kind=4, auths=())
    return t


def bad(F):
    b = {"nonce+": dict(to=NOBODY, dn=1), "poor": dict(to=NOBODY, value=10**6 * ETH), "gas": dict(to=NOBODY, gas=20999), "big": dict(to=NOBODY, gas=40_000_000)}
    if F >= LONDON:
        b["cheap"] = dict(to=NOBODY, p=1)
    if F >= CANCUN:
        b["noblob"] = dict(to=NOBODY, kind=3, blobs=(), max_blob_fee=1000)
        b["blobs"] = dict(to=NOBODY, kind=3, blobs=(H0,) * 10, max_blob_fee=1000)
    return b


def mk(F, specs, nonces=None):
    nonces = dict(nonces or {})
    out = []
    for s in specs:
        s = dict(s)
        key = s.pop("key", K1)
        dn = s.pop("dn", 0)
        k = s.get("kind", 0)
        d = dict(key=key, data=b"", value=0, gas=200_000, kind=k, nonce=nonces.get(key, 0) + dn)
        d.update(price(F, k, s.pop("p", 5000)))
        if k == 4:
            d["raw_auths"] = s.pop("raw_auths", ())
            if not d["raw_auths"]:
                a = real.addr_of(77)
                d["raw_auths"], d["auth_who"] = ((1, STO, 0, 0, 1, 0),), (None,)
            s.pop("auths", None)
        d.update(s)
        out.append(d)
        nonces[key] = nonces.get(key, 0) + 1
    return out, nonces


def wds(n):
    return [(i, i * 2 + 1, (NOBODY, A(9), S1, bytes(19) + b"\x77")[i % 4], (0, 1, 10**9, 2**64 - 1)[i % 4] if i < 4 else i) for i in range(n)]


class C(Check):
    pid = "C17"
    rule = ("for every fork: all sequences of transactions up to the depth from an alphabet of every type and outcome (transfer, log, failure, out of "
            "gas, destruction, creation, storage, block hashes) as blocks, and chains of such blocks; for each accepted block every commitment replaced "
            "by every value of a set of plausible wrong ones, bodies with a transaction or withdrawal dropped, duplicated or swapped; invalid "
            "transactions at every position; blocks of 0..300 transactions; logs of 0..4 topics with every assignment of three values to the topics and data over every offset and size of a set; block hashes read at chain lengths through 262; Osaka block size "
            "around the limit; a state is a distinct (header, verdict)")
    bounds = {"quick": "sequences to length 2 (+ cyclic length 3..6), 2-block chains of singles", "thorough": "sequences to length 3, 2-block chains of pairs, 3-block chains of singles"}
    assumptions = ["proof of work replaced by a stand-in (decided by C24)"]

    def cases(self, tier):
        th = tier == "thorough"
        for F in ALL:
            ks = sorted(kinds(F))
            yield ("seq", F, ())
            for n in (1, 2) + ((3,) if th else ()):
                for s in itertools.product(ks, repeat=n):
                    yield ("seq", F, s)
            for i in range(0, len(ks), 1 if th else 4):
                yield ("seq", F, tuple((ks + ks)[i:i + 6]))
            for s in itertools.product(ks, repeat=2):
                yield ("chain", F, ((s[0],), (s[1],)))
            if th:
                for s in itertools.product(ks, repeat=3):
                    yield ("chain", F, tuple((x,) for x in s))
                for s in itertools.product(ks, repeat=4):
                    yield ("chain", F, (s[:2], s[2:]))
            for b in sorted(bad(F)):
                for k in ks if th else ("xfer", "fail", "t3" if F >= CANCUN else "sto"):
                    for pos in range(3):
                        yield ("bad", F, b, k, pos)
            for n in (3, 127, 128, 129, 257) + ((126, 255, 256, 300, 600) if th else ()):
                yield ("many", F, n)
            yield ("gaslimit", F)
            for n in range(5):
                yield ("logs", F, n)
            yield ("bh", F)
            if F >= SHANGHAI:
                for n in (1, 2, 3, 4, 5, 16, 127, 128, 129, 257):
                    yield ("wd", F, n)
            if F >= OSAKA:
                for o in (-1, 0, 1, 2):
                    yield ("size", F, o)
            if F >= CANCUN:
                for n in range(0, 12):
                    yield ("blobs", F, n)

    def run(self, d):
        P = getattr(self, "r_" + d[0])(*d[1:])
        return Result(P.digs, P.n, P.n)

    def pair(self, F, extra=None, n=1, **kw):
        acc = {**WORLD, **(SYSACC if F >= PRAGUE else {}), **(extra or {})}
        kw.setdefault("number", 0)
        return Pair(F, acc, {}, [(genesis(F, **kw), [], [], [])])

    def wrong(self, F, P, b):
        """Every single deviation of a commitment."""
        h = b[0]
        p = P.m.blocks[-1][0]
        out, st = P.m.execute(*b)
        devs = []
        for k in chain.COMMIT:
            if k not in h:
                continue
            v = h[k]
            alts = set()
            if isinstance(v, int):
                step = 131072 if k == "blob_gas_used" else 1
                alts |= {v + step, max(v - step, 0), 0, v + 21000, max(0, v - 21000), v * 2}
                if k == "gas_used":
                    alts.add(h["gas_limit"])
            else:
                n = len(v)
                alts |= {bytes(n), b"\xff" * n, bytes([v[0] ^ 0x80]) + v[1:], v[:-1] + bytes([v[-1] ^ 1]), v[:n // 2] + bytes([v[n // 2] ^ 1]) + v[n // 2 + 1:], v[::-1]}
                alts |= {p.get(k, v), P.m.st.root() if n == 32 else v, h["receipt_root"] if n == 32 else v, h["transactions_root"] if n == 32 else v,
                         h["state_root"] if n == 32 else v, prim.EMPTY_ROOT if n == 32 else v}
                if k == "bloom":
                    for i in range(0, 256):
                        if v[i]:
                            alts.add(v[:i] + bytes([v[i] & (v[i] - 1)]) + v[i + 1:])
            for a in alts:
                if a != v:
                    devs.append({k: a})
        if F < BYZANTIUM:
            pass
        devs.append({"gas_used": h["gas_used"] + 1, "state_root": bytes(32)})
        # receipts root with the logs or order changed
        rs = out["receipts"]
        if len(rs) > 1 and rs[0] != rs[-1]:
            devs.append({"receipt_root": prim.mpt_root({prim.rlp(i): x for i, x in enumerate(rs[::-1])})})
        if rs:
            devs.append({"receipt_root": prim.mpt_root({prim.rlp(i): x for i, x in enumerate(rs[:-1])})})
            devs.append({"receipt_root": prim.mpt_root({prim.rlp(i + 1): x for i, x in enumerate(rs)})})
        for d in devs:
            h2 = dict(h, **d)
            P.add((seal(h2) if F < PARIS else h2, *b[1:]))

    def bodies(self, F, P, b):
        h, txs, om, w = b
        for i in range(len(txs)):
            P.add((h, txs[:i] + txs[i + 1:], om, w))
            P.add((h, txs[:i + 1] + txs[i:], om, w))
        if len(txs) > 1:
            P.add((h, txs[::-1], om, w))
        for i in range(len(w)):
            P.add((h, txs, om, w[:i] + w[i + 1:]))
            P.add((h, txs, om, w[:i + 1] + w[i:]))
            for j in range(4):
                x = list(w[i])
                x[j] = bytes(19) + b"\x01" if j == 2 else x[j] + 1 if x[j] < 2**64 - 1 else 0
                P.add((h, txs, om, w[:i] + [tuple(x)] + w[i + 1:]))
        if len(w) > 1:
            P.add((h, txs, om, w[::-1]))
        if F >= SHANGHAI:
            P.add((h, txs, om, w + [(9, 9, NOBODY, 0)]))

    def r_seq(self, F, s):
        ks = kinds(F)
        P = self.pair(F)
        ts, _ = mk(F, [ks[x] for x in s])
        b = P.build(P.txs(ts), wds=wds(len(s) % 3) if F >= SHANGHAI else ())
        if len(s) < 2 or len(s) > 3:
            self.wrong(F, P, b)
        if len(s) != 2:
            self.bodies(F, P, b)
        elif s[0] < s[1]:
            h, txs, om, w = b
            P.add((h, txs[::-1], om, w))
            P.add((h, txs[1:], om, w))
            P.add((dict(h, gas_used=h["gas_used"] - 1), txs, om, w))
        P.add(b, expect=True)
        P.add(P.build(), expect=True)
        return P

    def r_chain(self, F, bs):
        ks = kinds(F)
        P = self.pair(F)
        nonces = {}
        for s in bs:
            ts, nonces = mk(F, [ks[x] for x in s], nonces)
            b = P.build(P.txs(ts))
            b2 = (dict(b[0], state_root=bytes(32)), *b[1:])
            if F < PARIS:
                seal(b2[0])
            P.add(b2, expect=False)
            P.add(b, expect=True)
        P.add(P.build(), expect=True)
        return P

    def r_bad(self, F, bn, k, pos):
        ks = kinds(F)
        P = self.pair(F)
        specs = [ks[k], ks["log"]]
        specs.insert(pos, bad(F)[bn])
        ts, _ = mk(F, specs)
        txs = P.txs(ts)
        h, *r = P.build(txs)
        # commitments of the block without the bad transaction
        good, _ = mk(F, [x for i, x in enumerate(specs) if i != pos])
        g = P.build(P.txs(good))
        out, _ = P.m.execute(*g)
        for src in (h, g[0]):
            h2 = dict(src)
            h2["transactions_root"] = prim.mpt_root({prim.rlp(i): e for i, (_, _, e) in enumerate(txs)})
            P.add((seal(h2) if F < PARIS else h2, *r), expect=False)
        P.add(g, expect=True)
        return P

    def r_many(self, F, n):
        ks = kinds(F)
        P = self.pair(F)
        cyc = [x for x in sorted(ks) if x not in ("oog", "bh", "t3b", "t3", "sto", "t1", "crea")]
        ts, _ = mk(F, [dict(ks[cyc[i % len(cyc)]] if i % 7 == 0 else ks["xfer"]) for i in range(n)])
        b = P.build(P.txs([dict(t, gas=100_000) for t in ts]))
        P.add(b, expect=True)
        P.add(P.build(), expect=True)
        return P

    def r_logs(self, F, n):
        """Logs with n topics: every assignment of three values to the topics, the data over every offset and size of a small set."""
        reg = list(itertools.product((0, 1, 31, 32, 63), (0, 1, 31, 32, 33, 64)))
        top = list(itertools.product((0, 7, 2**256 - 2), repeat=n))
        code = asm("CALLER 0 MSTORE", int.from_bytes(bytes(range(1, 33)), "big"), "32 MSTORE")
        for i in range(max(len(top), len(reg))):
            off, size = reg[i % len(reg)]
            code += asm(*top[i % len(top)][::-1], size, off, f"LOG{n}")
        P = self.pair(F, {A(60): (1, 0, code)})
        ts, _ = mk(F, [dict(to=A(60), gas=1_500_000)])
        b = P.build(P.txs(ts))
        P.add(b, expect=True)
        P.add(P.build(), expect=True)
        return P

    def r_gaslimit(self, F):
        """Blocks whose gas is exhausted to within one unit."""
        P = self.pair(F, gas_limit=100_000)
        nonces = {}
        for g in (78_999, 79_000, 79_001, 100_000, 99_999):
            for first in ("xfer", "fail"):
                spec = [dict(kinds(F)[first], gas=21_000), dict(to=NOBODY, gas=g)]
                ts, nn = mk(F, spec, nonces)
                b = P.build(P.txs(ts))
                P.add(b)
                if P.last is None:
                    nonces = nn
        for g in (99_999, 100_000, 100_001):
            ts, nn = mk(F, [dict(to=NOBODY, gas=g)], nonces)
            P.add(P.build(P.txs(ts)))
            if P.last is None:
                nonces = nn
        return P

    def r_bh(self, F):
        P = self.pair(F)
        nonces = {}
        for i in range(263):
            ts = []
            if i in (0, 1, 2, 3, 6, 60) or i >= 252:
                ts, nonces = mk(F, [kinds(F)["bh"]], nonces)
                ts = [dict(t, gas=400_000) for t in ts]
            P.add(P.build(P.txs(ts)), expect=True)
        return P

    def r_wd(self, F, n):
        P = self.pair(F)
        ts, _ = mk(F, [kinds(F)["xfer"]])
        b = P.build(P.txs(ts), wds=wds(n))
        if n <= 16:
            self.bodies(F, P, b)
        self.wrong(F, P, b)
        P.add(b, expect=True)
        P.add(P.build(), expect=True)
        return P

    def r_size(self, F, o):
        P = self.pair(F, gas_limit=400_000_000, base_fee=7)
        tot = 8_388_608 + o
        n = 6

        def mkb(last):
            ts, _ = mk(F, [dict(to=NOBODY, data=bytes(1_400_000), gas=16_000_000) for _ in range(n - 1)] + [dict(to=NOBODY, data=bytes(last), gas=16_000_000)])
            return P.build(P.txs(ts))
        b = mkb(1_380_000)
        ln = len(P.m.block_rlp(*b))
        b = mkb(1_380_000 + tot - ln)
        ln = len(P.m.block_rlp(*b))
        if ln != tot:
            b = mkb(1_380_000 + tot - ln + (tot - ln))
            d = tot - len(P.m.block_rlp(*b))
            if d:
                raise AssertionError(f"harness: size {d}")
        P.add(b, expect=o <= 0)
        return P

    def r_blobs(self, F, n):
        """n blobs in the block over one, two or n transactions."""
        P = self.pair(F)
        nonces = {}
        for split in {(n,), (n // 2, n - n // 2), (1,) * n, (n - 1, 1)}:
            split = [x for x in split if x > 0]
            ts, nn = mk(F, [dict(to=NOBODY, kind=3, blobs=(H0,) * x, max_blob_fee=10**6) for x in split], nonces)
            b = P.build(P.txs(ts))
            P.add(b)
            if P.last is None:
                nonces = nn
                # excess accumulates; offer a wrong one next
                g = P.build()
                P.add((dict(g[0], excess_blob_gas=g[0]["excess_blob_gas"] + 131072), *g[1:]), expect=False)
                P.add(g, expect=True)
        return P


if __name__ == "__main__":
    raise SystemExit(main(C()))
