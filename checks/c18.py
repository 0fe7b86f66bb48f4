"""C18: ommers are admitted and rewarded exactly by the rules."""
import itertools
from explore import Check, Result, Violation, main
from drv import blocks, real
from drv.blocks import Pair, child, derive, genesis, seal
from drv.diff import Mismatch
from ref import chain, prim
from ref.chain import hhash
from ref.forks import *  # noqa

ACC = {bytes([0xC0]) + bytes(19): (1, 5, b"")}
SYSACC = {chain.WREQ: (1, 0, b"\x00"), chain.CREQ: (1, 0, b"\x00")}
FIRST = {HOMESTEAD: 1_150_000, DAO: 1_920_000, TANGERINE: 2_463_000, SPURIOUS: 2_675_000, BYZANTIUM: 4_370_000, CONSTANTINOPLE: 7_280_000,
         ISTANBUL: 9_069_000, MUIR: 9_200_000, BERLIN: 12_244_000, LONDON: 12_965_000, ARROW: 13_773_000, GRAY: 15_050_000}
# forks whose header rules differ from those of the fork before
RULES = (HOMESTEAD, DAO, BYZANTIUM, CONSTANTINOPLE, MUIR, LONDON, ARROW, GRAY)
POWF = [F for F in ALL if F < PARIS]


def devs(F):
    """Deviations of an ommer header: name -> in-place change (before sealing), or after ('!')."""
    d = {"ok": lambda p, o: None, "root": lambda p, o: o.update(state_root=b"\x11" * 32), "txroot": lambda p, o: o.update(transactions_root=b"\x12" * 32, receipt_root=b"\x13" * 32),
         "bloom": lambda p, o: o.update(bloom=b"\xff" * 256), "nephews": lambda p, o: o.update(ommers_hash=b"\x14" * 32), "used": lambda p, o: o.update(gas_used=o["gas_limit"]),
         "used+": lambda p, o: o.update(gas_used=o["gas_limit"] + 1), "x32": lambda p, o: o.update(extra_data=b"e" * 32), "x33": lambda p, o: o.update(extra_data=b"e" * 33),
         "dao": lambda p, o: o.update(extra_data=b"dao-hard-fork"), "xdao": lambda p, o: o.update(extra_data=b""),
         "d+": lambda p, o: o.update(difficulty=o["difficulty"] + 1), "d-": lambda p, o: o.update(difficulty=o["difficulty"] - 1),
         "t0": lambda p, o: o.update(timestamp=p["timestamp"]), "t-": lambda p, o: o.update(timestamp=p["timestamp"] - 1),
         "t+": lambda p, o: (o.update(timestamp=p["timestamp"] + 100), derive(F, p, o)), "gl+": lambda p, o: o.update(gas_limit=o["gas_limit"] + p["gas_limit"] // 1024 - 1),
         "gl++": lambda p, o: o.update(gas_limit=o["gas_limit"] + p["gas_limit"] // 1024), "gl-": lambda p, o: o.update(gas_limit=o["gas_limit"] - p["gas_limit"] // 1024),
         "n-": lambda p, o: (o.update(number=o["number"] - 1), derive(F, p, o)), "n+": lambda p, o: (o.update(number=o["number"] + 1), derive(F, p, o)),
         "nonce": lambda p, o: o.update(nonce=b"\x00" * 7 + b"\x09"), "mix!": lambda p, o: o.update(mix=bytes(32)), "nonce!": lambda p, o: o.update(nonce=b"\xff" * 8)}
    if F >= LONDON:
        d["bf+"] = lambda p, o: o.update(base_fee=o["base_fee"] + 1)
        d["bf-"] = lambda p, o: o.update(base_fee=o["base_fee"] - 1)
    return d


class C(Check):
    pid = "C18"
    rule = ("every proof-of-work fork: chains of 0..9 blocks on the first known one; every ommer (parent: any chain block or an ommer, every header "
            "deviation, number shifts) alone; every ordered pair and triple over valid ommers of each age and invalid ones; canonical blocks, the block itself, "
            "already included ommers (included 1..8 blocks before) and repeats as ommers; wrong ommer hashes; rewards for every age combination with shared, new, "
            "empty and existing beneficiaries; first blocks of each fork with ommers older than the fork; later forks with any ommer.  State: distinct (header, verdict)")
    bounds = {"quick": "chains to 9 blocks, pairs of 10 kinds", "thorough": "pairs over all deviations, triples over 10 kinds, chains to 12"}
    assumptions = ["proof of work replaced by a stand-in (C24)"]

    def cases(self, tier):
        th = tier == "thorough"
        for F in POWF:
            for n in range(0, 13 if th else 10):
                yield ("single", F, n)
            for a in range(-1, 9):
                for v in sorted(devs(F)):
                    yield ("dev", F, a, v)
            ks = self.pool(F)
            for x in itertools.product(ks, repeat=2):
                yield ("multi", F, x)
            for x in itertools.product(ks if th else ks[:4], repeat=3):
                yield ("multi", F, x)
            if th:
                vs = sorted(devs(F))
                for a, b in itertools.product(vs, repeat=2):
                    yield ("multi", F, ((1, a), (2, b)))
            for gap in range(1, 10):
                for again in (0, 1):
                    yield ("included", F, gap, again)
            yield ("kin", F)
            yield ("hash", F)
            for a in range(1, 7):
                for b in range(1, 7):
                    yield ("reward", F, a, b)
        for F in RULES:
            for k in range(1, 8):
                for v in ("ok", "d+", "d-", "x33", "newrules", "dao", "xdao", "used+", "mix!"):
                    for age in range(1, 8):
                        yield ("boundary", F, k, v, age)
        for F in ALL:
            if F >= PARIS:
                yield ("later", F)
        yield ("dao",)

    def pool(self, F):
        return [(1, "ok"), (2, "ok"), (6, "ok"), (3, "t+"), (7, "ok"), (0, "ok"), (2, "d+"), (1, "x33"), (4, "mix!"), (5, "canon")]

    def run(self, d):
        P = getattr(self, "r_" + d[0])(*d[1:])
        return Result(P.digs, P.n, P.n)

    def pair(self, F, n, **kw):
        P = Pair(F, ACC, {}, [(genesis(F, **kw), [], [], [])])
        for i in range(n):
            P.add(P.build(), expect=True)
        return P

    def ommer(self, F, P, age, dev="ok", salt=0):
        """Header whose number is age below the next block (age 0: sibling of the next block)."""
        bl = P.m.blocks
        i = len(bl) - 1 - age
        if i < 0:
            p = dict(bl[0][0], number=max(bl[0][0]["number"] - 1, 0))
        else:
            p = bl[min(i, len(bl) - 1)][0]
        if dev == "canon":
            return bl[min(i + 1, len(bl) - 1)][0]
        o = child(F, p, coinbase=bytes([0x50 + age, salt]) + bytes(18), timestamp=p["timestamp"] + 3 + salt)
        f = devs(F)[dev]
        if dev.endswith("!"):
            seal(o)
            f(p, o)
        else:
            f(p, o)
            seal(o, o["nonce"])
        return o

    def offer(self, F, P, oms):
        P.add(P.build(ommers=oms))

    def r_single(self, F, n):
        P = self.pair(F, n, number=0 if n % 2 else 7_000_000 if F not in (DAO, LONDON) else genesis(F)["number"])
        for age in range(-1, n + 3):
            self.try_(F, n, P, age)
        # ommer of block number 0 and 1
        P.add(P.build(), expect=True)
        return P

    def try_(self, F, n, P, age):
        o = self.ommer(F, P, age)
        h, *r = P.build(ommers=[o])
        before = len(P.m.blocks)
        P.add((h, *r))
        if P.last is None:
            # put the chain back to explore the other ages from the same point
            P2 = self.pair(F, n, number=P.m.blocks[0][0]["number"])
            P2.digs += P.digs
            P2.n += P.n
            P.__dict__.update(P2.__dict__)

    def r_dev(self, F, age, v):
        P = self.pair(F, 8)
        o = self.ommer(F, P, age, v)
        self.offer(F, P, [o])
        P.add(P.build(), expect=True)
        return P

    def r_multi(self, F, xs):
        P = self.pair(F, 8)
        self.offer(F, P, [self.ommer(F, P, a, v, i) for i, (a, v) in enumerate(xs)])
        P.add(P.build(), expect=True)
        return P

    def r_included(self, F, gap, again):
        """An ommer included once is not admitted again within the window; its child never."""
        P = self.pair(F, 2)
        o = self.ommer(F, P, 1)
        o2 = self.ommer(F, P, 1, salt=7)
        P.add(P.build(ommers=[o, o2] if again else [o]), expect=True)
        for i in range(gap - 1):
            P.add(P.build(), expect=True)
        self.offer(F, P, [o2 if again else o])
        # child of an ommer
        c = child(F, o, coinbase=b"\x66" * 20, timestamp=o["timestamp"] + 5)
        seal(c)
        self.offer(F, P, [c])
        if not again:
            self.offer(F, P, [o2])
        P.add(P.build(), expect=True)
        return P

    def r_kin(self, F):
        P = self.pair(F, 8)
        bl = P.m.blocks
        for b in bl:
            self.offer(F, P, [b[0]])
        # the block itself and its sibling
        h, *r = P.build()
        self.offer(F, P, [h])
        sib = dict(h, coinbase=b"\x01" * 20)
        seal(sib)
        self.offer(F, P, [sib])
        # siblings of canonical blocks differing in the nonce only
        for b in bl[1:]:
            s = dict(b[0])
            seal(s, b"\0\0\0\0\0\0\0\1")
            self.offer(F, P, [s])
        # parent hash of another canonical block than the number says
        for i, j in itertools.product(range(2, 9), repeat=2):
            if i != j:
                o = child(F, bl[i][0], coinbase=b"\x02" * 20, parent_hash=hhash(bl[j][0]))
                seal(o)
                self.offer(F, P, [o])
        for ph in (bytes(32), bl[0][0]["parent_hash"]):
            o = child(F, bl[-2][0], coinbase=b"\x02" * 20, parent_hash=ph)
            seal(o)
            self.offer(F, P, [o])
        P.add(P.build(), expect=True)
        return P

    def r_hash(self, F):
        P = self.pair(F, 8)
        a, b, c = (self.ommer(F, P, k, salt=k) for k in (1, 2, 3))
        H = lambda os: P.build(ommers=os)
        for claimed in ([], [a], [b], [a, b], [b, a], [a, b, c], [a, a]):
            for carried in ([], [a], [b], [a, b], [b, a], [a, b, c], [a, a]):
                if claimed != carried:
                    h = H(claimed)[0]
                    P.add((h, [], carried, []), expect=False)
        for hh in (bytes(32), b"\xff" * 32, prim.keccak(b""), prim.EMPTY_ROOT):
            for os in ([], [a]):
                P.add(P.build(ommers=os, ommers_hash=hh), expect=False)
        P.add(H([a, b]), expect=True)
        P.add(H([c]), expect=True)
        return P

    def r_reward(self, F, x, y):
        """Ages x and y in one block, over beneficiaries: distinct, equal, the miner, empty, zero address."""
        P = self.pair(F, 8)
        for c1, c2, m in itertools.product((b"\x71" * 20, bytes(20), bytes([0xC0]) + bytes(19)), (b"\x71" * 20, b"\x72" * 20), (b"\x71" * 20, b"\x73" * 20)):
            oms = []
            for a, c, s in ((x, c1, P.n % 200), (y, c2, P.n % 200 + 30)):
                o = self.ommer(F, P, a, salt=s)
                o["coinbase"] = c
                seal(o)
                oms.append(o)
            P.add(P.build(ommers=oms, coinbase=m), expect=True)
            P.add(P.build(ommers=oms[:1], coinbase=m))
        return P

    def r_boundary(self, F, k, v, only):
        """k blocks into fork F with an ommer older than the fork (rules of fork F-1)."""
        first = FIRST[F]
        kw = dict(number=first - 8, difficulty=10**9)
        if F == LONDON:
            kw["gas_limit"] = 15_000_000
        A = self.pair(F - 1, 7, **kw)
        P = Pair(F, ACC, {}, A.m.blocks, first=first)
        P.m.st = A.m.st.copy()
        P.resync()
        for i in range(k - 1):
            P.add(P.build(), expect=True)
        head = P.m.blocks[-1][0]
        for age in (only,):
            n = head["number"] + 1 - age
            par = next((b[0] for b in P.m.blocks if b[0]["number"] == n - 1), None)
            if par is None or n >= first + 2:
                continue
            fo = F - 1 if (n < first) != (v == "newrules") else F
            if fo == F and F == LONDON and n < first:
                o = child(F - 1, par, coinbase=b"\x42" * 20)
                o.update(F=F, base_fee=10**9)
            elif fo < F and F == LONDON and n >= first:
                continue   # not a well-formed London block
            else:
                o = child(fo, par, coinbase=b"\x42" * 20)
            f = devs(fo).get(v)
            if v.endswith("!"):
                seal(o)
                f(par, o)
            else:
                if f:
                    f(par, o)
                seal(o, o["nonce"])
            b = P.build(ommers=[o])
            snap = P.m.st.copy(), list(P.m.blocks), P.i
            try:
                P.add(b)
            except Mismatch as e:
                # known: an ommer older than the fork is judged by the new fork's rules
                if n < first:
                    try:
                        chain.check_ommers(F, snap[1], b[0], [o], blocks.pow_ok)
                        alt = "implementation accepts"
                    except chain.Reject:
                        alt = "implementation refuses"
                    except KeyError:
                        alt = "implementation refuses"
                    if alt in str(e) or F == LONDON and "raised AttributeError: 'Header' object has no attribute 'base_fee_per_gas'" in str(e):
                        raise Violation(str(e), f"{NAMES[F]}: ommer older than the fork judged by the rules of the fork")
                raise
            if P.last is None:
                break
        return P

    def r_dao(self):
        """Ommers inside and around the window of marked headers."""
        P = self.pair(DAO, 7, number=chain.DAO_BLOCK - 4, difficulty=10**6)
        for i in range(14):
            for age in range(1, 7):
                for v in ("dao", "xdao", "ok", "x32"):
                    o = self.ommer(DAO, P, age, v, salt=i)
                    if v in ("xdao", "x32"):
                        self.offer(DAO, P, [o])
            o = self.ommer(DAO, P, 2, "ok", salt=100 + i)
            P.add(P.build(ommers=[o]), expect=True)
        return P

    def r_later(self, F):
        acc = {**ACC, **(SYSACC if F >= PRAGUE else {})}
        P = Pair(F, acc, {}, [(genesis(F), [], [], [])])
        for i in range(3):
            P.add(P.build(), expect=True)
        bl = P.m.blocks
        mk = [bl[-1][0], bl[-2][0], child(F, bl[-2][0], coinbase=b"\x09" * 20), child(F, bl[-3][0], coinbase=b"\x09" * 20)]
        for o in mk:
            P.add(P.build(ommers=[o]), expect=False)
            P.add(P.build(ommers=[o], ommers_hash=chain.NO_OMMERS), expect=False)
            P.add(P.build(ommers=[o, mk[2]], ommers_hash=chain.NO_OMMERS), expect=False)
        for m in (b"\x55" * 20, bytes(20)):
            P.add(P.build(coinbase=m), expect=True)
        return P


if __name__ == "__main__":
    raise SystemExit(main(C()))
