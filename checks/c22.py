"""C22: trie, state and storage roots commit exactly to the contents."""
import itertools

from explore import Check, Result, main
from drv import real
from drv.diff import Mismatch
from ref import prim
from ref.forks import *  # noqa
from ethereum_types.bytes import Bytes, Bytes20, Bytes32
from ethereum_types.numeric import U64, U256, Uint

# key sets by shape: one is a prefix of others, odd/even shared nibbles, deep sharing
K_MIX = [b"", b"\x12", b"\x12\x34", b"\x12\x35", b"\x13", b"\x12\x34\x56\x78", b"\x22", b"\x12\x34\x56\x79", b"\x10", b"\x01"]
K_DEEP = [bytes(31) + b"\x00", bytes(31) + b"\x01", bytes(31) + b"\x10", bytes(30) + b"\x01\x00", bytes(16) + b"\x01" + bytes(15), b"\x80" + bytes(31), b"\x08" + bytes(31), b"\xff" * 32]
K_IDX = [prim.rlp(prim.i2b(i)) for i in (0, 1, 2, 15, 16, 17, 127, 128, 129, 255, 256, 257)]
KEYSETS = {"mix": K_MIX, "deep": K_DEEP, "idx": K_IDX}
VALS = {1: b"\x01", 2: b"\x80", 30: bytes(range(1, 31)), 31: b"\xc1" * 31, 32: b"\x11" * 32, 33: b"\xaa" * 33, 60: b"\x07" * 60, 300: b"\xfe" * 300}
SEQ_KEYS = {"mix": [b"", b"\x12", b"\x12\x34", b"\x12\x35", b"\x13"], "pair": [b"\x12\x34", b"\x12\x35"]}

_coll = None


def colliding():
    """Addresses / slots whose hashes share 0..5 leading nibbles with the first one."""
    global _coll
    if _coll is None:
        base = bytes([0xA1]) * 20
        h0 = prim.keccak(base).hex()
        out = {}
        i = 0
        while len(out) < 5:
            a = i.to_bytes(20, "big")
            h = prim.keccak(a).hex()
            n = next(j for j in range(64) if h[j] != h0[j])
            if n <= 4 and n not in out:
                out[n] = a
            i += 1
        sbase = bytes(32)
        s0 = prim.keccak(sbase).hex()
        so = {}
        i = 1
        while len(so) < 5:
            h = prim.keccak(i.to_bytes(32, "big")).hex()
            n = next(j for j in range(64) if h[j] != s0[j])
            if n <= 4 and n not in so:
                so[n] = i
            i += 1
        _coll = [base] + [out[n] for n in range(5)], [0] + [so[n] for n in range(5)]
    return _coll


def valmap(keys, mode):
    vs = list(VALS.values())
    if mode < len(vs):
        return [vs[mode]] * len(keys)
    return [vs[(i * 3 + mode) % len(vs)] for i in range(len(keys))]


class C(Check):
    pid = "C22"
    rule = ("for every fork: every subset of three key families (prefix keys, 32-byte keys sharing up to 63 nibbles, list indices) with every value-length class, secured and "
            "not, inserted forwards, backwards and with detours; every set/overwrite/delete/copy sequence up to the depth; index tries of every size in the range; every "
            "state over accounts and slots whose hashes share 0..4 nibbles, built along several histories.  Each root, every read and every copy is compared with an "
            "independent Merkle Patricia construction")
    bounds = {"quick": "subsets of 8 keys x 10 value modes; sequences of length 3 over 16 and 4 over 7 operations; indices 0..300 at 60 sizes; 3 accounts x 6 values x 4 slots",
              "thorough": "subsets of 12 keys x 10 value modes; sequences of length 4/5; every index count 0..400"}

    def cases(self, tier):
        th = tier == "thorough"
        for F in ALL:
            for ks in KEYSETS:
                for mode in range(10):
                    for sec in (False, True):
                        for hi in range(2 if not th else 16):
                            yield ("sub", F, ks, mode, sec, hi, 8 if not th else len(KEYSETS[ks]))
            for i in range(16):
                for tr in (False, True):
                    yield ("seq", F, "mix", i, tr, 3 if not th else 4)
            for i in range(7):
                yield ("seq", F, "pair", i, False, 4 if not th else 5)
            for kind in ("bytes", "small", "tx", "receipt") + (("wd",) if F >= SHANGHAI else ()):
                yield ("idx", F, kind, 400 if th else 300, th)
            for a in range(6):
                for b in range(6):
                    yield ("state", F, a, b, th)
            yield ("api", F)

    def run(self, d):
        self.seen, self.n, self.k = set(), 0, 0
        getattr(self, d[0])(*d[1:])
        return Result(self.seen, self.n, self.k)

    def eq(self, got, want, what):
        self.k += 1
        got = bytes(got)
        self.seen.add(want)
        if got != want:
            raise Mismatch(f"{what()}: root {got.hex()} expected {want.hex()}")

    # ------------------------------------------------------------ subsets
    def sub(self, F, ks, mode, sec, hi, nk):
        T = real.fork(F).trie
        keys = KEYSETS[ks][:nk]
        vals = valmap(keys, mode)
        n = len(keys)
        per = 2 ** n // (2 if n <= 8 else 16)
        for mask in range(hi * per, (hi + 1) * per):
            sel = [i for i in range(n) if mask >> i & 1]
            want = prim.mpt_root({keys[i]: vals[i] for i in sel}, secured=sec)
            for order in range(3):
                if order and len(sel) < 2 - (order == 2):
                    continue
                t = T.Trie(secured=sec, default=None if mode % 2 else Bytes(b""))
                dflt = t.default
                if order == 2:    # write everything, overwrite, then delete what is not wanted
                    for i in range(n):
                        T.trie_set(t, Bytes(keys[i]), Bytes(vals[(i + 1) % n] + b"x"))
                    for i in range(n):
                        T.trie_set(t, Bytes(keys[i]), Bytes(vals[i]) if i in sel else dflt)
                    self.n += 2 * n
                else:
                    for i in (sel if order == 0 else sel[::-1]):
                        T.trie_set(t, Bytes(keys[i]), Bytes(vals[i]))
                    self.n += len(sel)
                self.eq(T.root(t), want, lambda: f"{NAMES[F]} trie secured={sec} keys {[keys[i].hex() for i in sel]} value lengths {[len(vals[i]) for i in sel]} order {order}")

    # ------------------------------------------------------------ sequences
    def seq(self, F, which, first, sec, depth):
        T = real.fork(F).trie
        keys = SEQ_KEYS[which]
        ops = [(k, v) for k in keys for v in (b"\x05", b"\xbb" * 40, b"")] + [("copy",)]
        self.path = []
        t = T.Trie(secured=sec, default=Bytes(b""))
        self.rec(F, T, ops, [first], t, {}, [], depth, sec)

    def rec(self, F, T, ops, choice, t, m, frozen, left, sec):
        for i in choice:
            o = ops[i]
            # the trie is a value built by copying: branch the search with our own copy
            t2 = T.Trie(secured=sec, default=Bytes(b""))
            for k, v in m.items():
                T.trie_set(t2, Bytes(k), Bytes(v))
            m2 = dict(m)
            fz = list(frozen)
            self.path.append(o)
            if o[0] == "copy":
                c = T.copy_trie(t2)
                fz.append((t2, dict(m)))     # the original must stay as it was
                t2 = c
            else:
                T.trie_set(t2, Bytes(o[0]), Bytes(o[1]))
                if o[1]:
                    m2[o[0]] = o[1]
                else:
                    m2.pop(o[0], None)
            self.n += 1
            for x, mm in [(t2, m2)] + fz[-1:]:
                for k in {q[0] for q in ops if q[0] != "copy"}:
                    g = bytes(T.trie_get(x, Bytes(k)))
                    if g != mm.get(k, b""):
                        raise Mismatch(f"{NAMES[F]} trie_get {k.hex()} after {self.path}: {g.hex()} expected {mm.get(k, b'').hex()}")
            self.eq(T.root(t2), _root(m2, sec), lambda: f"{NAMES[F]} after {self.path}")
            if o[0] == "copy" and left > 1:
                # write to the copy, then to the original: neither sees the other
                for q in ops:
                    if q[0] == "copy":
                        continue
                    c2 = T.copy_trie(t2)
                    T.trie_set(c2, Bytes(q[0]), Bytes(q[1]))
                    m3 = dict(m2)
                    m3[q[0]] = q[1]
                    if not q[1]:
                        del m3[q[0]]
                    self.eq(T.root(c2), _root(m3, sec), lambda: f"{NAMES[F]} copy written {q} after {self.path}")
                    self.eq(T.root(t2), _root(m2, sec), lambda: f"{NAMES[F]} original after its copy was written {q} after {self.path}")
                self.eq(T.root(fz[-1][0]), _root(fz[-1][1], sec), lambda: f"{NAMES[F]} original after {self.path}")
            if left > 1:
                self.rec(F, T, ops, range(len(ops)), t2, m2, fz, left - 1, sec)
            self.path.pop()

    # ------------------------------------------------------------ index tries
    def idx(self, F, kind, top, th):
        from ethereum_rlp import rlp
        fk = real.fork(F)
        T = fk.trie
        sizes = range(top + 1) if th else sorted(set(list(range(0, 34)) + list(range(120, 136)) + [254, 255, 256, 257, 258, 272, 273, top]))

        def item(i):
            if kind == "small":
                return Bytes(bytes([i % 255 + 1])), bytes([i % 255 + 1])
            if kind == "bytes":
                v = bytes([i % 251]) * (i % 70 + 1)
                return Bytes(v), v
            if kind == "tx":
                cls = getattr(fk.txs, "LegacyTransaction", None) or fk.txs.Transaction
                o = cls(nonce=U256(i), gas_price=Uint(i * 7), gas=Uint(21000 + i), to=fk.types.Address(bytes([i % 256]) * 20), value=U256(i), data=Bytes(bytes(i % 40)), v=U256(27), r=U256(i + 1), s=U256(5))
                return o, prim.rlp([i, i * 7, 21000 + i, bytes([i % 256]) * 20, i, bytes(i % 40), 27, i + 1, 5])
            if kind == "wd":
                o = fk.blocks.Withdrawal(index=U64(i), validator_index=U64(2 * i), address=fk.types.Address(bytes([i % 256]) * 20), amount=U256(i * 1000))
                return o, prim.rlp([i, 2 * i, bytes([i % 256]) * 20, i * 1000])
            B = fk.blocks
            logs = tuple(B.Log(address=fk.types.Address(bytes([j]) * 20), topics=tuple(Bytes32(bytes([q]) * 32) for q in range(j)), data=Bytes(bytes(j * 20))) for j in range(i % 4))
            rl = [[bytes([j]) * 20, [bytes([q]) * 32 for q in range(j)], bytes(j * 20)] for j in range(i % 4)]
            bl = bytes([i % 256]) * 256
            from ethereum_types.bytes import Bytes256
            if F < BYZANTIUM:
                o = B.Receipt(post_state=fk.types.Root(bytes([i % 256]) * 32), cumulative_gas_used=Uint(i * 21000), bloom=Bytes256(bl), logs=logs)
                f = bytes([i % 256]) * 32
            else:
                o = B.Receipt(succeeded=bool(i % 2), cumulative_gas_used=Uint(i * 21000), bloom=Bytes256(bl), logs=logs)
                f = i % 2
            return o, prim.rlp([f, i * 21000, bl, rl])

        items = [item(i) for i in range(top)]
        for n in sizes:
            t = T.Trie(secured=False, default=None)
            order = range(n) if n % 2 else range(n - 1, -1, -1)
            for i in order:
                T.trie_set(t, rlp.encode(Uint(i)), items[i][0])
            self.n += n
            want = prim.mpt_root({prim.rlp(prim.i2b(i)): items[i][1] for i in range(n)})
            self.eq(T.root(t), want, lambda: f"{NAMES[F]} index trie of {n} {kind} entries")

    # ------------------------------------------------------------ state roots
    ACCS = [None, (0, 0, b""), (1, 0, b""), (0, 1, b""), (2**64 - 1, 2**256 - 1, b"\x60"), (0, 7, b"\x00" * 33)]

    def state(self, F, ia, ib, th):
        addrs, slots = colliding()
        fk = real.fork(F)
        S = fk.state
        for ic in range(6):
            for which in (range(1, 6) if th else (1, 3, 5)):
                trio = [addrs[0], addrs[which], addrs[which % 5 + 1]]
                vals = [self.ACCS[ia], self.ACCS[ib], self.ACCS[ic]]
                for sm in range(16 if th else 5):
                    acc = {a: v for a, v in zip(trio, vals) if v}
                    masks = [sm, (sm * 5 + 3) % 16, 0]
                    sto = {}
                    for a, mk in zip(trio, masks):
                        if a in acc:
                            s = {slots[(j + which) % 6]: (1, 0x80, 2**255, 2**256 - 1)[j] for j in range(4) if mk >> j & 1}
                            if s:
                                sto[a] = s
                    want = prim.state_root(acc, sto)
                    for hist in range(3):
                        st = self.make(fk, acc, sto, slots, hist)
                        self.eq(S.state_root(st), want, lambda: f"{NAMES[F]} state {acc} {sto} history {hist}")
                        for a in acc:
                            self.eq(S.storage_root(st, fk.types.Address(a)), prim.storage_root(sto[a]) if a in sto else prim.EMPTY_ROOT,
                                    lambda: f"{NAMES[F]} storage of {a.hex()} in {acc} {sto} history {hist}")
                        if hist == 0 and sm == 1 and which == 1:
                            st2 = self.make(fk, acc, sto, slots, 1)
                            if not st == st2:
                                raise Mismatch(f"{NAMES[F]}: states with the same contents compare unequal: {acc} {sto}")

    def make(self, fk, acc, sto, slots, hist):
        S, A = fk.state, fk.types.Address
        st = S.State()
        mk = lambda v: fk.types.Account(nonce=Uint(v[0]), balance=U256(v[1]), code=Bytes(v[2]))
        K = lambda k: Bytes32(k.to_bytes(32, "big"))
        it = list(acc.items())
        if hist:
            it = it[::-1]
        for a, v in it:
            if hist == 2:
                S.set_account(st, A(a), mk((9, 9, b"\x01")))
                for k in slots:
                    S.set_storage(st, A(a), K(k), U256(77))
                for k in slots[:3]:
                    S.set_storage(st, A(a), K(k), U256(0))
            S.set_account(st, A(a), mk(v))
            if hist == 1 and a not in sto:
                S.set_storage(st, A(a), K(slots[0]), U256(3))
                S.set_storage(st, A(a), K(slots[0]), U256(0))
            want = sto.get(a, {})
            for k in (slots if hist == 2 else want):
                S.set_storage(st, A(a), K(k), U256(want.get(k, 0)))
            self.n += 3
        if hist == 2:
            x = A(bytes([0x77]) * 20)
            S.set_account(st, x, mk((1, 1, b"")))
            S.set_storage(st, x, K(0), U256(1))
            S.destroy_account(st, x)
        return st

    def api(self, F):
        """Edges of the interface: empty roots, an account's own default."""
        fk = real.fork(F)
        T, S = fk.trie, fk.state
        for sec in (False, True):
            for dflt in (None, Bytes(b""), U256(0)):
                self.eq(T.root(T.Trie(secured=sec, default=dflt)), prim.EMPTY_ROOT, lambda: f"{NAMES[F]} empty trie")
        self.eq(S.state_root(S.State()), prim.EMPTY_ROOT, lambda: f"{NAMES[F]} empty state")
        for v in (1, 0x7f, 0x80, 255, 256, 2**255, 2**256 - 1):
            for k in (0, 1, 2**256 - 1):
                t = T.Trie(secured=True, default=U256(0))
                T.trie_set(t, Bytes32(k.to_bytes(32, "big")), U256(v))
                self.eq(T.root(t), prim.storage_root({k: v}), lambda: f"{NAMES[F]} slot {k}={v}")
                T.trie_set(t, Bytes32(k.to_bytes(32, "big")), U256(0))
                self.eq(T.root(t), prim.EMPTY_ROOT, lambda: f"{NAMES[F]} slot {k} zeroed")
                self.n += 2


_rc = {}


def _root(m, sec):
    k = (tuple(sorted(m.items())), sec)
    if k not in _rc:
        _rc[k] = prim.mpt_root(m, secured=sec)
    return _rc[k]


if __name__ == "__main__":
    raise SystemExit(main(C()))
