"""C04: contract-visible context: call path, account, data-bounds, block and blob fields."""
import itertools
from checkbase import *

W = 32


def probe(F):
    """Store every context word in memory and return it."""
    ops = ["RETURNDATASIZE"] if F >= BYZANTIUM else []
    ops += ["ADDRESS", "CALLER", "ORIGIN", "CALLVALUE", "CALLDATASIZE", "0 CALLDATALOAD", "5 CALLDATALOAD", "CODESIZE",
            "ADDRESS BALANCE", "CALLER BALANCE", "ORIGIN BALANCE", "GASPRICE", "PC", "MSIZE", "GAS", "COINBASE", "TIMESTAMP",
            "NUMBER", "PREVRANDAO", "GASLIMIT", "ADDRESS EXTCODESIZE", "CALLER EXTCODESIZE"]
    if F >= CONSTANTINOPLE:
        ops += ["ADDRESS EXTCODEHASH", "CALLER EXTCODEHASH"]
    if F >= ISTANBUL:
        ops += ["CHAINID", "SELFBALANCE"]
    if F >= LONDON:
        ops += ["BASEFEE"]
    if F >= CANCUN:
        ops += ["BLOBBASEFEE", "0 BLOBHASH"]
    c = []
    for i, o in enumerate(ops):
        c += [o, W * i, "MSTORE"]
    n = W * len(ops)
    c += [40, 0, n, "CALLDATACOPY", 40, 0, n + 64, "CODECOPY"]
    return asm(*c, n + 128, 0, "RETURN"), n + 128


KINDS = ["CALL", "CALLCODE", "DELEGATECALL", "STATICCALL"]


def avail(F):
    return [k for k in KINDS if not (k == "DELEGATECALL" and F < HOMESTEAD or k == "STATICCALL" and F < BYZANTIUM)]


def forward(kind, to, n, value):
    """Call `to` with 37 bytes of data and return its output."""
    v = [value] if kind in ("CALL", "CALLCODE") else []
    return asm(mstore_code(bytes(range(1, 38)), 0), n, 64, 37, 0, *v, addr_int(to), 200000, kind,
               "POP", n, 64, "RETURN")


def logret(kind, to, n, value):
    v = [value] if kind in ("CALL", "CALLCODE") else []
    return asm(mstore_code(bytes(range(65, 102)), 0), n, 64, 37, 0, *v, addr_int(to), 300000, kind,
               n + 64, "MSTORE", n + 32, 64, "LOG0")


class C(DiffCheck):
    pid = "C04"
    rule = ("all call-kind paths of length 0..2 (and creation) to a context probe; all paths of one to three calls and creations, entered by a call and by a creation; all account kinds x account opcodes; all "
            "data opcodes x offsets x sizes x data lengths; block-hash window positions; block/blob/price field values; in all "
            "forks.  A state is a distinct model post-state incl. the logged observations")
    bounds = {"quick": "as stated", "thorough": "all size/offset pairs of a larger alphabet"}

    def cases(self, tier):
        for F in ALL:
            ks = avail(F)
            for path in [()] + [(a,) for a in ks] + list(itertools.product(ks, ks)):
                for v in (0, 3):
                    for kind in range(evm.max_kind(F) + 1):
                        if kind in (0, evm.max_kind(F)) or path == ():
                            yield ("path", F, path, v, kind)
            fr = ks + ["CREATE"] + ["CREATE2"] * (F >= CONSTANTINOPLE)
            for n in (1, 2, 3):
                for path in itertools.product(fr, repeat=n):
                    if n < 3 or "CREATE" in path or "CREATE2" in path or path[0] == path[1]:
                        yield ("frames", F, path)
            yield ("create", F, 0)
            yield ("create", F, 1)
            yield ("acct", F)
            for dl in (0, 1, 31, 32, 33, 70):
                yield ("data", F, dl, tier)
            for num in (1, 2, 5, 255, 256, 257, 258, 300, 100000):
                yield ("hash", F, num)
            for fld, vals in FIELDS.items():
                for v in vals:
                    yield ("field", F, fld, v)
            if F >= CANCUN:
                for n in range(1, 10 if PRAGUE == F else 7):
                    yield ("blob", F, n)
                for ex in (0, 1, 131072, 3338477, 5007716, 10**7, 10**8, 2 * 10**8):
                    yield ("blobfee", F, ex)
            if F >= LONDON:
                for base in (0, 1, 7, 9, 10):
                    for mx, pr in ((10, 0), (10, 1), (10, 3), (10, 10), (100, 2)):
                        yield ("price", F, base, mx, pr)

    def build(self, d):
        return getattr(self, "b_" + d[0])(*d[1:])

    def b_path(self, F, path, v, kind):
        p, n = probe(F)
        acc = {A(9): (3, 77, p)}
        kw = {}
        if kind == 3:
            kw = dict(blobs=(b"\x01" + b"\x22" * 31,), max_blob_fee=10**6)
        if kind == 4:
            kw = dict(raw_auths=(real.sign_auth(K3, 1, A(9), 0),), auth_who=(S3,))
        if len(path) == 0:
            # the probe's return value is not observable at top level: use a creation
            acc[A(1)] = (1, 50, p[:-1] + b"\xa0")
        elif len(path) == 1:
            acc[A(1)] = (1, 50, logret(path[0], A(9), n, v))
        else:
            acc[A(1)] = (1, 50, logret(path[0], A(2), n, v))
            acc[A(2)] = (2, 60, forward(path[1], A(9), n, v and v - 1))
        return case(F, world(acc), [tx(F, A(1), bytes(range(7, 60)), value=v, kind=kind, **kw)])

    def b_frames(self, F, path):
        """The probe at the end of every path of calls and creations, entered by a call and by a creation."""
        p, n = probe(F)
        acc = {}
        quiet = "STATICCALL" in path

        def frame(i):
            if i == len(path):
                return p if quiet else p[:-1] + b"\xa0"
            k, inner = path[i], frame(i + 1)
            if k in ("CREATE", "CREATE2"):
                return asm(mstore_code(inner, 0), *([7] if k == "CREATE2" else []), len(inner), 0, 1, k, "0 MSTORE 32 0 RETURN")
            acc[A(20 + i)] = (1 + i, 60 + i, inner)
            return asm(*[n, 64, 37, 0], *([2] if k in ("CALL", "CALLCODE") else []), addr_int(A(20 + i)), 1_500_000, k, "POP", n + 64, 0, "RETURN")

        top = frame(0)
        log = asm("RETURNDATASIZE 0 0 RETURNDATACOPY RETURNDATASIZE 0 LOG0") if F >= BYZANTIUM else asm("GAS 0 MSTORE", n + 128, 0, "LOG0")
        acc[A(1)] = (1, 50, asm(0, 0, 0, 0, 5, addr_int(A(2)), 2_500_000, "CALL POP") + log)
        acc[A(2)] = (1, 50, top)
        yield case(F, world(acc), [tx(F, A(1), bytes(range(7, 60)), value=3, gas=4_000_000), tx(F, b"", top, value=9, nonce=1, gas=4_000_000)])

    def b_create(self, F, viatx):
        p, n = probe(F)
        if viatx:
            return case(F, world(), [tx(F, b"", p, value=9)])
        code = asm(mstore_code(p, 0), len(p), 0, 5, "CREATE 0 MSTORE 32 0 LOG0")
        return case(F, world({A(1): (1, 50, code)}), [tx(F, A(1), value=3)])

    def b_acct(self, F):
        accs = {A(1): None, A(2): (0, 5, b""), A(3): (5, 0, b""), A(4): (0, 0, b"\x00\x01"), A(5): (1, 7, bytes(range(40))),
                COINBASE: (0, 3, b"")}
        if F < PARIS:
            accs[A(6)] = (0, 0, b"")
        if F >= PRAGUE:
            accs[A(7)] = (1, 2, evm.DELEG + A(5))
        targets = [NOBODY, A(1), A(2), A(3), A(4), A(5), A(6), A(7), COINBASE, S1, S2, bytes(20), (1).to_bytes(20, "big"),
                   (9).to_bytes(20, "big"), b"\xff" * 20]
        c, k = [], 0
        ops = ["BALANCE", "EXTCODESIZE"] + (["EXTCODEHASH"] if F >= CONSTANTINOPLE else [])
        for t in targets:
            for hi in (0, (1 << 96) - 1, 1):
                x = addr_int(t) | hi << 160
                for o in ops:
                    c += ["GAS", 32 * k, "MSTORE", x, o, 32 * k + 32, "MSTORE"]
                    k += 2
                for off, s in ((0, 33), (1, 5), (39, 4), (40, 3), (2**256 - 1, 2), (2**64, 32)):
                    c += [s, off, 32 * k, x, "EXTCODECOPY"]
                    k += 2
        accs[A(1)] = (1, 11, asm(*c, 32 * k, 0, "LOG0"))
        return case(F, world(accs), [tx(F, A(1), gas=5_000_000, value=4)])

    def b_data(self, F, dl, tier):
        offs = [0, 1, 30, 31, 32, 33, 63, 64, 69, 70, 71, 2**16, 2**63, 2**64 - 1, 2**64, 2**255, 2**256 - 32, 2**256 - 1]
        szs = [0, 1, 31, 32, 33, 70] if tier == "quick" else list(range(0, 75))
        data = bytes((i * 5 + 1) & 255 for i in range(dl))
        c, k = [], 1
        for o in offs:
            c += [o, "CALLDATALOAD", 32 * k, "MSTORE"]
            k += 1
            for s in szs:
                for op in ("CALLDATACOPY", "CODECOPY"):
                    c += [s, o, 32 * k, op]
                    k += 3
        acc = {A(1): (1, 0, asm(*c, "MSIZE 0 LOG0"))}
        out = [case(F, world(acc), [tx(F, A(1), data, gas=16_000_000)])]
        if F >= BYZANTIUM:
            # return data: echo via identity-like contract, then copy windows; failing copies in sub-frames
            echo = asm("CALLDATASIZE 0 0 CALLDATACOPY CALLDATASIZE 0 RETURN")
            contracts, calls = {A(20): (1, 0, echo), A(21): (1, 0, echo[:-1] + b"\xfd")}, []
            i = 30
            for src in (A(20), A(21), NOBODY):
                for o in offs:
                    for s in (0, 1, 31, 32, 33, 70):
                        if o + s > 200 and s not in (0, 1):
                            continue
                        contracts[A(i)] = (1, 0, asm(mstore_code(data, 0), 7, 400, dl, 0, 0, addr_int(src), 50000, "CALL",
                                                     256, "MSTORE RETURNDATASIZE 288 MSTORE", s, o, 0, "RETURNDATACOPY 0 MLOAD 320 MSTORE 400 MLOAD 352 MSTORE 128 256 RETURN"))
                        calls.append(dict(to=A(i), gas=60000, out=128))
                        i += 1
            for k in range(0, len(calls), 100):
                out.append(batch_case(F, contracts, calls[k:k + 100]))
        return out

    def b_hash(self, F, num):
        hs = [prim.keccak(i.to_bytes(4, "big")) for i in range(max(0, num - 256), num)]
        c, k = [], 0
        for q in sorted({x for x in (0, 1, 2, num - 258, num - 257, num - 256, num - 255, num - 254, num - 2, num - 1, num, num + 1, 2**64, 2**256 - 1)
                         if x >= 0}):
            c += [q, "BLOCKHASH", 32 * k, "MSTORE"]
            k += 1
        return case(F, world({A(1): (1, 0, asm(*c, 32 * k, 0, "LOG0"))}), [tx(F, A(1))],
                    bl=block(F, number=num, hashes=hs[-256:]))

    def b_field(self, F, fld, v):
        if fld == "base_fee" and F < LONDON or fld == "difficulty" and F >= PARIS or fld == "prev_randao" and F < PARIS:
            v, fld = 5, "time"
        p, n = probe(F)
        bl = block(F, **{fld: v})
        kw = {}
        if fld == "base_fee":
            kw = dict(p=v + 3)
        if fld == "chain_id":
            kw = dict(chain_id=v)
        return case(F, world({A(1): (1, 50, logret("CALL", A(9), n, 0)), A(9): (1, 5, p)}), [tx(F, A(1), **kw)], bl=bl)

    def b_blob(self, F, n):
        if F >= OSAKA and n > 6:
            n = 6
        hs = tuple(bytes([1]) + bytes([0x10 + i]) * 31 for i in range(n))
        c, k = [], 0
        for i in list(range(0, n + 2)) + [255, 256, 2**32, 2**64, 2**256 - 1]:
            c += [i, "BLOBHASH", 32 * k, "MSTORE"]
            k += 1
        code = asm(*c, 32 * k, 0, "LOG0")
        a2 = asm(0, 0, 0, 0, 0, addr_int(A(1)), 100000, "CALL")
        t = tx(F, A(2), kind=3, blobs=hs, max_blob_fee=100)
        return case(F, world({A(1): (1, 0, code), A(2): (1, 0, a2)}), [t, tx(F, A(1), nonce=1, kind=2)])

    def b_blobfee(self, F, ex):
        return case(F, world({A(1): (1, 0, asm("BLOBBASEFEE 0 MSTORE 32 0 LOG0"))}), [tx(F, A(1), kind=2)],
                    bl=block(F, excess_blob_gas=ex))

    def b_price(self, F, base, mx, pr):
        c = asm("GASPRICE 0 MSTORE BASEFEE 32 MSTORE ORIGIN BALANCE 64 MSTORE COINBASE BALANCE 96 MSTORE 128 0 LOG0")
        ts = [tx(F, A(1), kind=2, max_fee=mx, max_prio=pr), tx(F, A(1), kind=0, gas_price=mx, nonce=1),
              tx(F, A(1), kind=1, gas_price=mx, nonce=2)]
        return case(F, world({A(1): (1, 0, c)}), ts, bl=block(F, base_fee=base))


FIELDS = {
    "number": [1, 2, 255, 2**32, 2**63],
    "time": [0, 1, 2**32, 2**63, 2**64 - 1],
    "gas_limit": [5_000_000, 30_000_000, 2**63 - 1],
    "coinbase": [S1, S2, A(9), A(1), bytes(20), b"\xff" * 20, (2).to_bytes(20, "big"), NOBODY],
    "difficulty": [131072, 2**63, 2**70],
    "prev_randao": [bytes(32), b"\xff" * 32, bytes(31) + b"\x01"],
    "base_fee": [0, 1, 2**20, 10**9],
    "chain_id": [1, 5, 1337, 2**32, 2**40],
}


if __name__ == "__main__":
    raise SystemExit(main(C()))
