"""C16: difficulty, gas-limit, base-fee and blob-price formulas."""
import itertools
from explore import Check, Result, main
from drv import blocks, real
from drv.diff import Mismatch
from ref import chain, evm
from ref.forks import *  # noqa
from ethereum_types.numeric import U64, U256, Uint

PD = [131072, 131073, 133120, 2048 * 64, 2048 * 100 - 1, 2**20, 2**20 + 2047, 2**20 + 2048, 10**9 + 7, 10**13, 12_345_678_901_234_567, 2**128 + 1]
DPOOL = sorted({0, 1, 2, 3} | {131072 + k for k in range(-2, 3)})


class C(Check):
    pid = "C16"
    rule = ("difficulty: every fork x parent difficulties (minimum, around multiples of 2048, large) x every time step 1..1100 and around 2^64/2^256 x "
            "block numbers on both sides of every bomb period and of the fork's delay x parent with/without ommers; gas limit: every parent limit of "
            "the set x every limit within 3 of each bound, and every limit for all small parents; base fee: parent limits x every gas used near 0, "
            "target, limit and quotient boundaries x base fees; excess blob gas: (excess, used) grids on blob steps and +-1, price crossing points of the "
            "reserve price; blob price: all blob multiples, +-1, and the two sides of every place where the price changes.  A state is a distinct (inputs, result)")
    bounds = {"quick": "time steps to 1100; excess to 131072*2400; gas limits to 8192 exhaustively", "thorough": "x8 on each axis"}
    assumptions = ["numbers are those a header can carry; block numbers beyond 200 bomb periods are not explored"]

    def cases(self, tier):
        th = tier == "thorough"
        for F in ALL:
            if F < PARIS:
                for pd in PD + ([131072 + 64 * k for k in range(64)] if th else []):
                    yield ("diff", F, pd, 0, 1100)
                    if th:
                        for a in range(1100, 8800, 1100):
                            yield ("diff", F, pd, a, a + 1100)
                yield ("difft", F)
                yield ("bomb", F)
            for lo in range(5000 - 64, 8192 * (4 if th else 1), 64):
                yield ("gl", F, lo)
            yield ("glb", F)
            if F >= LONDON:
                for pl in (5000, 5001, 8191, 9999, 15_000_000, 29_999_999, 30_000_000, 30_000_001, 36_000_000, 10**12 + 1):
                    yield ("bf", F, pl, th)
            if F >= CANCUN:
                for i in range(0, 2400 * (8 if th else 1), 50):
                    yield ("price", F, i)
                yield ("tick", F, 6000 if th else 1500)
                for i in range(0, 64 if not th else 512):
                    yield ("ex", F, i)
                yield ("exfork", F)
                if F >= OSAKA:
                    yield ("reserve", F, 700 if th else 150)
        for i in range(8 if not th else 32):
            yield ("taylor", i)

    def run(self, d):
        self.out = []
        self.n = 0
        getattr(self, "r_" + d[0])(*d[1:])
        return Result([hash(x) for x in self.out], self.n, self.n)

    def eq(self, what, got, want):
        self.n += 1
        if int(got) != want:
            raise Mismatch(f"{what}: implementation {int(got)}, protocol {want}")
        self.out.append((what[0], want) + tuple(what[1:]))

    # -------------------------------------------------------------- difficulty
    def diff(self, F, number, pt, dt, pd, om):
        f = real.fork(F).fork.calculate_block_difficulty
        a = [Uint(number), U256(pt + dt), U256(pt), Uint(pd)]
        if F >= BYZANTIUM:
            a.append(om)
        try:
            got = f(*a)
        except Exception as e:
            raise Mismatch(f"{NAMES[F]} difficulty({number},{pt}+{dt},{pd},{om}) raised {e!r}")
        if type(got) is not Uint:
            raise Mismatch(f"{NAMES[F]} difficulty is a {type(got).__name__}")
        self.eq((NAMES[F], number, pt, dt, pd, om), got, chain.difficulty(F, number, pt + dt, pt, pd, om))

    def r_diff(self, F, pd, a, b):
        n0 = chain.DELAY.get(F, 0)
        for number in (1, n0 + 1_000_000, n0 + 4_000_001):
            for om in ((False, True) if F >= BYZANTIUM else (False,)):
                for dt in range(max(a, 1), b):
                    self.diff(F, number, 1_500_000_000 + pd % 7, dt, pd, om)

    def r_difft(self, F):
        for pt in (0, 1, 2**32 - 5, 2**64 - 10, 2**256 - 1200, 2**256 - 15, 2**256 - 14, 2**256 - 13, 2**256 - 12, 2**256 - 2):
            for dt in list(range(1, 30)) + [2**32, 2**63, 2**64, 2**255]:
                if pt + dt < 2**256:
                    for pd in PD:
                        for om in ((False, True) if F >= BYZANTIUM else (False,)):
                            self.diff(F, 4_000_000, pt, dt, pd, om)

    def r_bomb(self, F):
        n0 = chain.DELAY.get(F, 0)
        nums = {1, 2, n0 - 1, n0, n0 + 1}
        for d in set(chain.DELAY.values()) | {0}:
            for k in range(0, 200):
                nums |= {d + 100_000 * k + o for o in (-1, 0, 1)}
            nums |= {d - 100_000 * k for k in (1, 2, 3)}
        for number in sorted(n for n in nums if 0 < n <= n0 + 20_000_001):
            for pd in (131072, 131073, 2**40 + 3):
                for dt in (1, 5, 9, 13, 20, 10**6):
                    for om in ((False, True) if F >= BYZANTIUM else (False,)):
                        self.diff(F, number, 1_500_000_000, dt, pd, om)

    # --------------------------------------------------------------- gas limit
    def gl(self, F, p, g):
        self.eq(("gl", F, p, g), bool(real.fork(F).fork.check_gas_limit(Uint(g), Uint(p))), chain.gas_limit_ok(g, p))

    def r_gl(self, F, lo):
        for p in range(lo, lo + 64):
            for g in range(max(0, p - 12), p + 13):
                self.gl(F, p, g)

    def r_glb(self, F):
        for p in (0, 1, 1023, 1024, 1025, 2047, 2048, 4999, 5000, 5001, 5119, 5120, 6144, 2**16, 10**6, 3_141_592, 8_000_000, 15_000_000, 30_000_000 - 1, 30_000_000,
                  2**31, 2**63 - 1, 2**63, 2**64, 10**30):
            for g in {0, 1, 4998, 4999, 5000, 5001, p, p // 2, p * 2, 2**64, *(p + s * (p // 1024) + o for s in (-1, 1) for o in range(-3, 4)),
                      *(p + s * (p // 1023) for s in (-1, 1)), *(p + s * (p // 1025) for s in (-1, 1))}:
                if g >= 0:
                    self.gl(F, p, g)

    # ---------------------------------------------------------------- base fee
    def bf(self, F, g, pl, pu, pb):
        fk = real.fork(F)
        try:
            got = fk.fork.calculate_base_fee_per_gas(Uint(g), Uint(pl), Uint(pu), Uint(pb))
        except real.INVALID:
            got = None
        want = chain.base_fee(pl, pu, pb) if chain.gas_limit_ok(g, pl) else None
        if (got is None) != (want is None):
            raise Mismatch(f"{NAMES[F]} base fee({g},{pl},{pu},{pb}) = {got}, protocol {want}")
        if want is not None:
            self.eq(("bf", F, g, pl, pu, pb), got, want)
        else:
            self.n += 1

    def r_bf(self, F, pl, th):
        t = pl // 2
        used = {0, 1, 2, pl - 1, pl, t - 1, t, t + 1, t + 2}
        for k in range(1, 9 if not th else 65):
            used |= {t * k // 8 + o for o in (-1, 0, 1)} | {t + t * k // 8 + o for o in (-1, 0, 1)} | {t + k * 997, t - k * 991}
        for pb in [*range(0, 40 if not th else 400), 63, 64, 65, 999, 10**9 - 1, 10**9, 10**9 + 1, 10**18 + 7, 2**64, 2**200]:
            for u in used:
                if 0 <= u <= pl:
                    self.bf(F, pl, pl, u, pb)
        for g in (pl - pl // 1024, pl - pl // 1024 + 1, pl + pl // 1024 - 1, pl + pl // 1024, pl * 2, 0):
            for u in (0, t, pl):
                self.bf(F, g, pl, u, 10**9)

    # -------------------------------------------------------------------- blobs
    def price(self, F, ex):
        self.eq(("price", F, ex), real.fork(F).gas.calculate_blob_gas_price(U64(ex)), evm.blob_price(F, ex))

    def r_price(self, F, i):
        for k in range(i, i + 50):
            for o in (-1, 0, 1):
                if 131072 * k + o >= 0:
                    self.price(F, 131072 * k + o)

    def r_tick(self, F, top):
        """Both sides of the smallest excess giving price p, for p = 2..top."""
        x = 0
        for p in range(2, top):
            lo, hi = x, x + 5_100_000
            while evm.blob_price(F, hi) < p:
                hi *= 2
            while lo + 1 < hi:
                m = (lo + hi) // 2
                if evm.blob_price(F, m) >= p:
                    hi = m
                else:
                    lo = m
            x = hi
            self.price(F, hi - 1)
            self.price(F, hi)

    def ex(self, F, e, u, b=10**9, PF=None):
        PF = PF if PF is not None else F
        p = blocks.genesis(PF, **(dict(excess_blob_gas=e, blob_gas_used=u, base_fee=b) if PF >= CANCUN else {}))
        got = real.fork(F).gas.calculate_excess_blob_gas(blocks.iheader(p))
        self.eq(("excess", F, PF, e, u, b), got, chain.excess_blob(F, p))

    def r_ex(self, F, i):
        mx = 6 if F < PRAGUE else 9
        for u in range(0, mx + 1):
            for o in (-1, 0, 1):
                for b in ((1000,) if F < OSAKA else (0, 1, 15, 16, 17, 1000, 10**9, 10**12)):
                    if 131072 * i + o >= 0:
                        self.ex(F, 131072 * i + o, 131072 * u, b)
                        self.ex(F, 131072 * i * 97 + 65536 + o, 131072 * u, b)

    def r_exfork(self, F):
        self.ex(F, 0, 0, 0, F - 1)
        if F > CANCUN:
            for e in (0, 1, 131072, 131072 * 3 - 1, 131072 * 3, 131072 * 6 - 1, 131072 * 6, 131072 * 6 + 1, 10**7, 10**8 + 3):
                for u in range(0, 10):
                    for b in (0, 7, 10**9):
                        self.ex(F, e, 131072 * u, b, F - 1)

    def r_reserve(self, F, top):
        """Base fees on both sides of the point where the blob price meets the reserve."""
        for p in range(1, top):
            x = int(5007716 * __import__("math").log(p)) if p > 1 else 0
            for o in (-1, 0, 1, 2):
                if x + o < 0:
                    continue
                pr = evm.blob_price(F, x + o)
                for b in (16 * pr - 1, 16 * pr, 16 * pr + 1):
                    for u in (0, 1, 6, 7, 9):
                        self.ex(F, x + o, u * 131072, max(b, 0))

    def r_taylor(self, i):
        from ethereum.utils.numeric import taylor_exponential as te
        for f in (0, 1, 2, 3, 10, 10**9):
            for den in (1, 2, 3, 7, 100, 3338477, 5007716):
                for num in {*range(i * 40, i * 40 + 40), den * i, den * i + 1, max(den * i - 1, 0), den * i // 2}:
                    if num > den * 150:
                        continue
                    self.eq(("taylor", f, num, den), te(Uint(f), Uint(num), Uint(den)), evm.fake_exp(f, num, den))


if __name__ == "__main__":
    raise SystemExit(main(C()))
