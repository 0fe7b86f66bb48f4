"""C24: proof-of-work hashing matches the ethash definition and the optimized validator."""
from explore import Check, Result, main
from drv import real
from drv import blocks as B
from drv.diff import Mismatch
from ref import chain, prim
from ref import ethash as R
from ref.forks import *  # noqa
from ethereum import ethash as E
from ethereum.exceptions import InvalidBlock
from ethereum_types.bytes import Bytes8, Bytes32
from ethereum_types.numeric import U32, Uint

POW = [F for F in ALL if F < PARIS]
PRIMES = [p for p in range(2, 200) if R.prime(p)]
HH = [bytes(32), b"\xff" * 32, bytes(range(32)), prim.keccak(b"h")]
NONCES = [bytes(8), b"\xff" * 8, bytes(7) + b"\x01", b"\x01" + bytes(7), bytes(range(1, 9))]
CONST = ("INITIAL_CACHE_SIZE", "CACHE_EPOCH_GROWTH_SIZE", "INITIAL_DATASET_SIZE", "DATASET_EPOCH_GROWTH_SIZE")


class small:
    """Shrink the caches and datasets through the module's own size constants."""

    def __init__(self, ci, cg, di, dg):
        self.v = dict(zip(CONST, (64 * ci, 64 * cg, 128 * di, 128 * dg)))

    def __enter__(self):
        self.old = {k: getattr(E, k) for k in CONST}
        for k, v in self.v.items():
            setattr(E, k, Uint(v))
        self.gdi = E.generate_dataset_item
        memo = {}

        def item(cache, index):
            k = (cache[0], len(cache), int(index))
            if k not in memo:
                memo[k] = self.gdi(cache, index)
            return memo[k]
        E.generate_dataset_item = item
        return self

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(E, k, v)
        E.generate_dataset_item = self.gdi

    def cache_size(self, e):
        return R.cache_size(e, self.v["INITIAL_CACHE_SIZE"], self.v["CACHE_EPOCH_GROWTH_SIZE"])

    def dataset_size(self, e):
        return R.dataset_size(e, self.v["INITIAL_DATASET_SIZE"], self.v["DATASET_EPOCH_GROWTH_SIZE"])


def icache(c):
    return tuple(tuple(U32(x) for x in row) for row in c)


class C(Check):
    pid = "C24"
    rule = ("sizes for every epoch in the range at its first and last block; seeds; caches of every prime row count up to the bound (several epochs) compared word by word with an independent "
            "ethash; dataset items for every index over small caches and at 32-bit extremes; the light hash over header hashes x nonces x dataset sizes; every fork's "
            "proof-of-work check on mined headers, on every single-field corruption, on epoch boundaries and on unmined nonces; the real epoch 0 cache in full; the optimized "
            "validators of every fork on real epochs against the definition.  State: distinct (input class, hash)")
    bounds = {"quick": "epochs 0..2100 and beyond the published tables at the powers of two up to 65536, rows <= 61, real cache of epoch 0", "thorough": "epochs 0..8192 and at the powers of two up to 65536, rows <= 199, real caches of epochs 0 and 1"}

    def cases(self, tier):
        th = tier == "thorough"
        yield ("real", 0)
        if th:
            yield ("real", 1)
        for F in POW:
            yield ("opt", F)
        top = 8192 if th else 2100
        for e in range(0, top, 50):
            yield ("size", e, min(e + 50, top))
        for e in (4095, 8191, 16383, 32767, 65535):  # past the published tables
            yield ("size", e, e + 3)
        for e in (list(range(0, 40)) + [63, 64, 65, 127, 128, 255, 256, 511, 512, 1000, 1023, 1024, 2047, 2048, 2049, 2100, 3000, 4095, 4096, 8192] if not th else list(range(0, 2100)) + [3000, 4095, 4096, 4097, 8192, 16384]):
            yield ("seed", e)
        yield ("fnv",)
        for p in [p for p in PRIMES if p <= (199 if th else 61)]:
            yield ("cache", p)
        for p in (2, 3, 5, 7, 13, 31) + ((61, 127) if th else ()):
            for k in range(4):
                yield ("item", p, k)
        for d in (2, 3, 5, 13, 31) + ((61, 127) if th else ()):
            for h in range(4):
                yield ("hash", d, h)
        yield ("dataset",)
        for F in POW:
            for n in (1, 29999, 30000, 60001):
                yield ("pow", F, n)

    def run(self, d):
        self.seen, self.n, self.k = set(), 0, 0
        getattr(self, d[0])(*d[1:])
        return Result(self.seen, self.n, self.k)

    def eq(self, got, want, what):
        self.k += 1
        self.n += 1
        self.seen.add(hash(repr(want)))
        if got != want:
            raise Mismatch(f"{what}: implementation {got!r} expected {want!r}"[:900])

    def size(self, a, b):
        for e in range(a, b):
            for blk in (e * 30000, e * 30000 + 29999):
                self.eq(int(E.epoch(Uint(blk))), e, f"epoch({blk})")
                self.eq(int(E.cache_size(Uint(blk))), R.cache_size(e), f"cache_size({blk})")
                self.eq(int(E.dataset_size(Uint(blk))), R.dataset_size(e), f"dataset_size({blk})")

    def seed(self, e):
        for blk in (e * 30000, e * 30000 + 29999):
            self.eq(bytes(E.generate_seed(Uint(blk))), R.seed(e), f"generate_seed({blk})")

    def fnv(self):
        vs = [0, 1, 2, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x01000193, 0x12345678]
        for a in vs:
            for b in vs:
                self.eq(int(E.fnv(U32(a), U32(b))), R.fnv(a, b), f"fnv({a},{b})")
        for a in vs:
            w = tuple(U32((a + i * 0x9E3779B9) & R.MASK) for i in range(32))
            v = tuple(U32((a * 3 + i * 0x85EBCA6B) & R.MASK) for i in range(32))
            self.eq([int(x) for x in E.fnv_hash(w, v)], [R.fnv(int(x), int(y)) for x, y in zip(w, v)], "fnv_hash")

    def cache(self, p):
        for g in (0, 2):
            with small(p + 1, g, 3, 0) as s:
                for blk in (0, 29999, 30000, 90001):
                    e = blk // 30000
                    c = E.generate_cache(Uint(blk))
                    w = R.make_cache(s.cache_size(e), R.seed(e))
                    self.eq([[int(x) for x in r] for r in c], w, f"generate_cache({blk}) with {p}+{g}*epoch rows")

    def item(self, p, k):
        c = R.make_cache(64 * p, R.seed(k))
        ic = icache(c)
        for i in list(range(p + 3))[k::4] + ([2**31 - 1, 2**31, 2**32 - 1, 2**24 + 1][k:k + 1] if p > 2 else []):
            self.eq(bytes(E.generate_dataset_item(ic, Uint(i))), R.item(c, i), f"dataset item {i} of a {p}-row cache")

    def hash(self, d, h):
        full = 128 * d
        items = {i: R.k512(bytes([i % 256, d, h])) for i in range(2 * d + 2)}

        def fetch(i):
            return tuple(U32(x) for x in R.words(items[int(i)]))
        for n in NONCES:
            m, r = E.hashimoto(Bytes32(HH[h]), Bytes8(n), Uint(full), fetch)
            self.eq((bytes(m), bytes(r)), R.hashimoto(HH[h], n, full, items.__getitem__), f"hashimoto rows {d} nonce {n.hex()}")
        # through a cache
        c = R.make_cache(64 * 7, R.seed(1))
        with small(8, 0, 3, 0):
            memo = {}
            for n in NONCES[:2]:
                m, r = E.hashimoto_light(Bytes32(HH[h]), Bytes8(n), icache(c), Uint(full if d < 13 else 128 * 5))
                self.eq((bytes(m), bytes(r)), R.light(HH[h], n, c, full if d < 13 else 128 * 5, memo), f"hashimoto_light rows {d}")

    def dataset(self):
        with small(6, 0, 4, 2) as s:
            for blk in (0, 30000):
                e = blk // 30000
                c = R.make_cache(s.cache_size(e), R.seed(e))
                got = [bytes(x) for x in E.generate_dataset(Uint(blk))]
                self.eq(got, [R.item(c, i) for i in range(s.dataset_size(e) // 64)], f"generate_dataset({blk})")

    # ------------------------------------------------------------ header checks
    def header(self, F, n, diff):
        h = B.genesis(F, number=n, difficulty=diff, extra_data=b"x" * 5, gas_used=21000, bloom=bytes(range(256)), ommers_hash=bytes([3]) * 32, transactions_root=bytes([4]) * 32, receipt_root=bytes([6]) * 32)
        return h

    def decide(self, fn, F, h):
        try:
            fn(B.iheader(h, F))
            return True
        except InvalidBlock:
            return False

    def variants(self, F, h):
        """Every single-field corruption of a mined header."""
        for i in (0, 1, 31):
            m = bytearray(h["mix"])
            m[i] ^= 1
            yield dict(h, mix=bytes(m)), f"mix byte {i}"
        yield dict(h, mix=h["mix"][::-1]), "mix reversed"
        for k in chain.hfields(F):
            v = h[k]
            if k in ("mix", "difficulty", "number"):
                continue
            if isinstance(v, int):
                yield dict(h, **{k: v + 1}), k
            elif k == "extra_data":
                yield dict(h, extra_data=b""), k
            else:
                yield dict(h, **{k: v[:-1] + bytes([v[-1] ^ 1])}), k
        yield dict(h, number=h["number"] + 1), "number"
        yield dict(h, difficulty=h["difficulty"] + 1), "difficulty"

    def pow(self, F, n):
        with small(12, 2, 6, 2) as s:
            e = n // 30000
            c = R.make_cache(s.cache_size(e), R.seed(e))
            memo = {}

            def ok(h):
                ee = h["number"] // 30000
                if ee != e:
                    cc, mm = R.make_cache(s.cache_size(ee), R.seed(ee)), {}
                else:
                    cc, mm = c, memo
                m, r = R.light(chain.pow_hash(h), h["nonce"], cc, s.dataset_size(ee), mm)
                return m == h["mix"] and int.from_bytes(r, "big") <= 2**256 // h["difficulty"]
            fn = real.fork(F).fork.validate_proof_of_work
            good = None
            for diff in (2, 7, 131072):
                for i in range(6):
                    h = self.header(F, n, diff)
                    h["nonce"] = i.to_bytes(4, "big") + (255 - i).to_bytes(4, "big")
                    h["mix"] = R.light(chain.pow_hash(h), h["nonce"], c, s.dataset_size(e), memo)[0]
                    w = ok(h)
                    self.eq(self.decide(fn, F, h), w, f"{NAMES[F]} proof of work number {n} difficulty {diff} nonce {i}")
                    if w and good is None and diff == 2:
                        good = h
            assert good
            for h, what in self.variants(F, good):
                self.eq(self.decide(fn, F, h), ok(h), f"{NAMES[F]} proof of work number {n} with corrupted {what}")

    # ------------------------------------------------------------ real epochs
    def real(self, e):
        import ethash
        c = R.make_cache(R.cache_size(e), R.seed(e))
        ic = E.generate_cache(Uint(30000 * e + 17))
        self.eq(len(ic), len(c), f"rows of the cache of epoch {e}")
        for i, (a, b) in enumerate(zip(ic, c)):
            if [int(x) for x in a] != b:
                raise Mismatch(f"cache of epoch {e} differs in row {i}")
        self.n += len(c)
        full = R.dataset_size(e)
        for i in (0, full // 64 - 1, 12345677):
            self.eq(bytes(E.generate_dataset_item(ic, Uint(i))), R.item(c, i), f"item {i} of epoch {e}")
        F = POW[-1]
        fk = real.fork(F)
        for hh, n in ((HH[2], NONCES[4]), (HH[3], NONCES[1])):
            m, r = R.light(hh, n, c, full)
            self.eq((r, m), ethash.hash(e, hh, int.from_bytes(n, "big")), f"definition and C library, epoch {e}")
        m, r = R.light(HH[2], NONCES[4], c, full)
        im, ir = E.hashimoto_light(Bytes32(HH[2]), Bytes8(NONCES[4]), ic, E.dataset_size(Uint(30000 * e)))
        self.eq((bytes(im), bytes(ir)), (m, r), f"hashimoto_light, epoch {e}")

    def opt(self, F):
        """The optimized check against the definition (C library: bound to it by the real case)."""
        import ethash
        from ethereum_optimized.fork import get_optimized_pow_patches
        fn = get_optimized_pow_patches(NAMES[F])["validate_proof_of_work"]

        def ok(h):
            r, m = ethash.hash(h["number"] // 30000, chain.pow_hash(h), int.from_bytes(h["nonce"], "big"))
            return m == h["mix"] and int.from_bytes(r, "big") <= 2**256 // h["difficulty"]
        for n in (1, 29999, 30000):
            good = None
            for diff in (2, 3, 7, 64, 131072, 2**255, 2**256 - 1, 2**256):
                for i in range(8):
                    h = self.header(F, n, diff)
                    h["nonce"] = (i * 0x0123456789ABCDEF % 2**64).to_bytes(8, "big")
                    h["mix"] = ethash.hash(n // 30000, chain.pow_hash(h), int.from_bytes(h["nonce"], "big"))[1]
                    w = ok(h)
                    self.eq(self.decide(fn, F, h), w, f"{NAMES[F]} optimized proof of work number {n} difficulty {diff} nonce {i}")
                    if w and good is None:
                        good = h
            assert good
            for h, what in self.variants(F, good):
                self.eq(self.decide(fn, F, h), ok(h), f"{NAMES[F]} optimized proof of work number {n} with corrupted {what}")
        # every fork that has the check can be patched, the others refuse
        from ethereum_optimized import monkey_patch_optimized_spec
        old = real.fork(F).fork.validate_proof_of_work
        try:
            monkey_patch_optimized_spec(NAMES[F])
            if real.fork(F).fork.validate_proof_of_work is old:
                raise Mismatch(f"{NAMES[F]}: the optimized proof-of-work check was not installed")
        finally:
            real.fork(F).fork.validate_proof_of_work = old


if __name__ == "__main__":
    raise SystemExit(main(C()))
