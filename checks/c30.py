"""C30: every transaction and block ends in acceptance or in a declared invalidity."""
import itertools
from checkbase import *
from drv import blocks
from drv.blocks import Pair, genesis
from drv.diff import Mismatch
from ref import chain

M = 2**256 - 1
E1 = (0, 1, 2, 31, 32, 33, 0x400, 2**16, 2**31, 2**32, 2**63, 2**64 - 1, 2**64, 2**128, 2**160, 2**255 - 1, 2**255, M - 31, M)
E2 = (0, 1, 31, 32, 0x400, 2**32, 2**64 - 1, 2**64, 2**160 + 1, 2**255, M - 31, M)
E3 = (0, 1, 32, 2**32, 2**64, 2**255, M)
E4 = (0, 1, 33, 2**64, M)
E5 = (0, 32, 2**64, M)
E6 = (0, 33, M)


def arity(op):
    if op in (1, 2, 3, 4, 5, 6, 7, 0xA, 0xB, 0x10, 0x11, 0x12, 0x13, 0x14, 0x16, 0x17, 0x18, 0x1A, 0x1B, 0x1C, 0x1D, 0x20, 0x52, 0x53,
              0x55, 0x57, 0x5D, 0xA0, 0xF3, 0xFD):
        return 2
    if op in (8, 9, 0x37, 0x39, 0x3E, 0x5E, 0xA1, 0xF0):
        return 3
    if op in (0x3C, 0xA2, 0xF5):
        return 4
    if op == 0xA3:
        return 5
    if op in (0xA4, 0xF4, 0xFA):
        return 6
    if op in (0xF1, 0xF2):
        return 7
    if op in (0x15, 0x19, 0x1E, 0x31, 0x35, 0x3B, 0x3F, 0x40, 0x49, 0x50, 0x51, 0x54, 0x56, 0x5C, 0xFF):
        return 1
    if 0x80 <= op < 0x90:
        return op - 0x7F
    if 0x90 <= op < 0xA0:
        return op - 0x8E
    return 0


def combos(op, th):
    n = arity(op)
    if n == 0:
        return [()]
    if 0x80 <= op < 0xA0:
        return [tuple(E1[(i + j) % len(E1)] for i in range(n)) for j in range(3)] + [tuple(range(1, n))]
    al = (None, E1, E2 if not th else E1, E3 if not th else E2, E4 if not th else E3, E5 if not th else E4, E6 if not th else E5, E6 if not th else E5)[n]
    return list(itertools.product(al, repeat=n)) + [(M,) * (n - 1)]


PROBE = A(0x77)
PROBE_CODE = asm("0 SLOAD", 1, "ADD DUP1 0 SSTORE 0 MSTORE 32 0 LOG0")

# short programs: the stack the program starts with
PRE = {"none": b"",
       "small": asm(*[x for x in (9, 3, 0, 32, 64, 1, 0, 32, 2, 0)]),
       "big": asm(0, M, 1, 2**64, M, 0, 32, 2**255, M),
       "mid": asm(mstore_code(bytes.fromhex("60016000f3"), 0), 5, 0, 0, 5, 27, 0, 0xFFFF, 0, 5, 27)}
# a representative of every opcode class
ALPHA = [0x00, 0x01, 0x03, 0x08, 0x0A, 0x0B, 0x1A, 0x1D, 0x20, 0x30, 0x31, 0x35, 0x37, 0x39, 0x3C, 0x3D, 0x3E, 0x3F, 0x40, 0x49, 0x4A, 0x50, 0x51, 0x52,
         0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x5A, 0x5B, 0x5C, 0x5D, 0x5E, 0x5F, 0x60, 0x61, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xA4, 0xEF, 0xF0, 0xF1,
         0xF2, 0xF3, 0xF4, 0xF5, 0xFA, 0xFD, 0xFE, 0xFF]
A3 = [0x00, 0x01, 0x0A, 0x20, 0x37, 0x3E, 0x52, 0x55, 0x56, 0x5A, 0x5B, 0x5F, 0x60, 0x80, 0x91, 0xA1, 0xF0, 0xF1, 0xF3, 0xF4, 0xFD, 0xFF]


class C(DiffCheck):
    pid = "C30"
    rule = ("every one of the 256 opcodes with every combination of extreme operands (and one operand missing), in called, delegated and static "
            "frames; all two-byte programs over the full byte alphabet behind several stack prologues, three-byte programs over one opcode per "
            "class, run as creation code and as called code; precompiles with constant-filled inputs of boundary lengths and extreme length "
            "fields; all pairs of extreme transaction fields; all pairs of extreme header fields.  Each batch is followed by a probe transaction "
            "and a state root (which needs every snapshot closed), all compared with the model.  A state is a distinct model post-state")
    bounds = {"quick": "two-byte programs: full alphabet on three forks behind one or two prologues, class alphabet on all; three bytes on two forks",
              "thorough": "full two-byte alphabet and three-byte class alphabet on all forks, larger operand alphabets"}

    def cases(self, tier):
        th = tier == "thorough"
        for F in ALL:
            for op in range(256):
                n = len(combos(op, th))
                for lo in range(0, n, 96):
                    yield ("op", F, op, "CALL", lo, th)
                if arity(op) <= 2 or th:
                    if F >= HOMESTEAD:
                        yield ("op", F, op, "DELEGATECALL", 0, th)
                    if F >= BYZANTIUM:
                        yield ("op", F, op, "STATICCALL", 0, th)
            for p in ("none", "small", "big", "mid"):
                full = th or (F, p) in ((FRONTIER, "mid"), (BYZANTIUM, "small"), (OSAKA, "big"), (OSAKA, "mid"))
                for a in (range(256) if full and p != "none" else ALPHA):
                    yield ("two", F, p, a, full)
            if th or F in (ISTANBUL, OSAKA):
                for p in ("small", "big"):
                    for a in A3:
                        for b in A3:
                            yield ("three", F, p, a, b)
            for a in list(range(1, 0x13)) + [0x100, 0x101]:
                yield ("pre", F, a)
            if F >= BYZANTIUM:
                for i in range(6):
                    yield ("modexp", F, i)
            k = len(self.txf(F))
            for i in range(k):
                yield ("tx", F, i)
            for i in range(len(self.hdr(F))):
                yield ("hdr", F, i)

    # ---- one opcode
    def b_op(self, F, op, kind, lo, th):
        cs = combos(op, th)[lo:lo + 96]
        n = arity(op)
        full = asm(7, [[32 * i, "CALLDATALOAD"] for i in reversed(range(n))])
        less = asm([[32 * i, "CALLDATALOAD"] for i in reversed(range(max(0, n - 1)))])
        tail = asm("0 MSTORE 32 0 RETURN JUMPDEST 1 0 MSTORE 32 0 RETURN")
        con = {A(1): (1, 9, full + bytes([op]) + tail), A(2): (1, 9, less + bytes([op]) + tail), PROBE: (1, 0, PROBE_CODE)}
        calls = [dict(kind=kind, to=A(1) if len(c) == n else A(2), gas=60_000, data=b"".join(x.to_bytes(32, "big") for x in c), out=64) for c in cs]
        c = batch_case(F, con, calls, after=[tx(F, PROBE, nonce=1)])
        c["close"] = 1
        return c

    # ---- short programs
    def progs(self, F, codes):
        """Run each code as creation code and as the code of a called account."""
        con = {PROBE: (1, 0, PROBE_CODE)}
        seq = []
        for k, code in enumerate(codes):
            o = 0x1000 + 64 * k
            seq.append(mstore_code(code, 0x100) + asm(len(code), 0x100, 0, "CREATE", o, "MSTORE"))
            a = bytes([0xAA]) + bytes(17) + k.to_bytes(2, "big")
            con[a] = (1, 3, code)
            seq.append(asm(32, o + 32, 33, 0x100, 0, addr_int(a), 70_000, "CALL", "GAS", "ADD"))
            seq.append(asm(o + 32, "MLOAD ADD", o + 32, "MSTORE"))
        code = b"".join(seq) + asm(64 * len(codes), 0x1000, "LOG0")
        acc = world(con)
        acc[DRV] = (1, 10**6, code)
        c = case(F, acc, [tx(F, DRV, gas=16_000_000), tx(F, PROBE, nonce=1)])
        c["close"] = 1
        return c

    def b_two(self, F, p, a, full):
        bs = list(range(256)) if full else ALPHA
        return [self.progs(F, [PRE[p] + bytes([a, b]) for b in bs[i:i + 64]]) for i in range(0, len(bs), 64)]

    def b_three(self, F, p, a, b):
        return self.progs(F, [PRE[p] + bytes([a, b, c]) for c in A3])

    # ---- precompiles
    def b_pre(self, F, a):
        calls = []
        for fill in (0, 1, 0xFF):
            for n in (0, 1, 31, 32, 63, 64, 96, 127, 128, 129, 160, 192, 212, 213, 214, 256, 288, 384, 512, 576):
                calls.append(dict(to=a.to_bytes(20, "big"), gas=400_000 if fill else 30_000, data=bytes([fill]) * n, out=64))
        out = []
        for lo in range(0, len(calls), 20):
            c = batch_case(F, {PROBE: (1, 0, PROBE_CODE)}, calls[lo:lo + 20], after=[tx(F, PROBE, nonce=1)])
            c["close"] = 1
            out.append(c)
        return out

    def b_modexp(self, F, i):
        L = (0, 1, 33, 1025, 2**32, M)
        calls = []
        for b, c in itertools.product(L, L):
            for g in (5_000, 200_000):
                for tail in (b"", b"\xff" * 40):
                    calls.append(dict(to=(5).to_bytes(20, "big"), gas=g, data=b"".join(x.to_bytes(32, "big") for x in (L[i], b, c)) + tail, out=64))
        out = []
        for lo in range(0, len(calls), 48):
            c = batch_case(F, {PROBE: (1, 0, PROBE_CODE)}, calls[lo:lo + 48], after=[tx(F, PROBE, nonce=1)])
            c["close"] = 1
            out.append(c)
        return out

    # ---- transaction fields
    def txf(self, F):
        D = [("nonce", v) for v in (0, 1, 2**64 - 2, 2**64 - 1)]
        D += [("gas", v) for v in (0, 1, 20_999, 21_000, 53_000, 2**24, 2**24 + 1, 100_000_000, 100_000_001, 2**64 - 1, 2**64, M)]
        D += [("value", v) for v in (0, 1, 100 * ETH, 2**128, M)]
        D += [("price", v) for v in (0, 1, 7, 2**64, 2**128, M)]
        D += [("to", v) for v in (b"", bytes(20), b"\xff" * 20, S1, COINBASE, (5).to_bytes(20, "big"), A(1), A(2))]
        D += [("data", v) for v in (b"", b"\x00", b"\xfe" * 100, b"\x60\x01" * 24600, b"\x00" * 49153)]
        D += [("bal", v) for v in (0, 21_000 * 7, 2**255, M)]
        D += [("snonce", v) for v in (1, 2**64 - 2, 2**64 - 1)]
        D += [("kind", v) for v in range(1, evm.max_kind(F) + 1)]
        D += [("blgas", v) for v in (0, 20_999, 21_000, 2**63)]
        if F >= LONDON:
            D += [("bf", v) for v in (0, 1, 2**64, 2**200)]
            D += [("prio", v) for v in (0, 7, 11, M)]
        if F >= CANCUN:
            D += [("excess", v) for v in (1, 10**8, 10**9)]
            D += [("blobfee", v) for v in (0, 1, M)]
            D += [("blobs", v) for v in ((), (b"\x01" + bytes(31),) * 2, (b"\x01" + bytes(31),) * 10, (bytes(32),))]
        return D

    def b_tx(self, F, i):
        D = self.txf(F)
        out = []
        for j in range(i, len(D)):
            if j != i and D[i][0] == D[j][0]:
                continue
            d = dict([D[i], D[j]])
            kind = d.get("kind", 3 if "blobs" in d or "blobfee" in d else 2 if "prio" in d else 0)
            to = d.get("to", A(1))
            kw = {}
            p = d.get("price", 10 + d.get("bf", 0))
            if kind == 3:
                kw = dict(blobs=d.get("blobs", (b"\x01" + bytes(31),)), max_blob_fee=d.get("blobfee", 100))
                if to == b"":
                    continue
            if kind == 4:
                if to == b"":
                    continue
                kw = dict(raw_auths=((1, A(1), 0, 0, 0, 1),), auth_who=(None,))
            snonce = d.get("snonce", 0)
            t = tx(F, to, data=d.get("data", b""), value=d.get("value", 5), gas=d.get("gas", 300_000), nonce=d.get("nonce", snonce), kind=kind, **kw)
            t.pop("gas_price", None), t.pop("max_fee", None), t.pop("max_prio", None)
            if kind >= 2:
                t.update(max_fee=p, max_prio=d.get("prio", 2))
            else:
                t.update(gas_price=p)
            acc = world({A(1): (1, 9, asm("0 SLOAD 1 ADD 0 SSTORE")), A(2): (1, 9, asm("0 0 REVERT")), PROBE: (1, 0, PROBE_CODE)})
            acc[S1] = (snonce, d.get("bal", 100 * ETH), b"")
            bk = {}
            if "blgas" in d:
                bk["gas_limit"] = d["blgas"]
            if "bf" in d:
                bk["base_fee"] = d["bf"]
            if "excess" in d:
                bk["excess_blob_gas"] = d["excess"]
            c = case(F, acc, [t, tx(F, PROBE, key=K2, gas=100_000, p=max(10, 2 * d.get("bf", 0)) if d.get("bf", 0) < 2**64 else 2**64 + 5)], bl=block(F, **bk))
            c["close"] = 1
            out.append(c)
        return out

    # ---- header fields
    def hdr(self, F):
        H = [("number", v) for v in (0, 1, 2**64, 2**70)] + [("timestamp", v) for v in (0, 2**64 - 1, 2**64, M)]
        H += [("gas_limit", v) for v in (0, 1, 4999, 2**63, 2**64, M)] + [("gas_used", v) for v in (1, 2**64, M)]
        H += [("extra_data", v) for v in (b"\x00", bytes(32), bytes(33), bytes(5000))] + [("nonce", b"\xff" * 8), ("mix", b"\xff" * 32)]
        H += [("coinbase", v) for v in (bytes(20), b"\xff" * 20, (1).to_bytes(20, "big"))] + [("bloom", b"\xff" * 256)]
        H += [("difficulty", v) for v in (0, 1, 2**64, 2**255, M)]
        H += [(k, b"\xff" * 32) for k in ("parent_hash", "ommers_hash", "state_root", "transactions_root", "receipt_root")]
        if F >= LONDON:
            H += [("base_fee", v) for v in (0, 1, 2**64, 2**255, M)]
        if F >= SHANGHAI:
            H += [("withdrawals_root", b"\xff" * 32)]
        if F >= CANCUN:
            H += [("blob_gas_used", v) for v in (1, 131072, 2**64 - 1)] + [("excess_blob_gas", v) for v in (1, 2**32, 2**64 - 1)]
            H += [("beacon_root", b"\xff" * 32)]
        if F >= PRAGUE:
            H += [("requests_hash", b"\xff" * 32)]
        return H

    def b_hdr(self, F, i):
        H = self.hdr(F)
        acc = {PROBE: (1, 0, PROBE_CODE), S1: (0, ETH, b""), **({chain.WREQ: (1, 0, b"\x00"), chain.CREQ: (1, 0, b"\x00")} if F >= PRAGUE else {})}
        P = Pair(F, acc, {}, [(genesis(F), [], [], [])])
        ok, *body = P.build(txs=P.txs([tx(F, PROBE, gas=100_000, p=3000)]))
        for j in range(i, len(H)):
            if j != i and H[i][0] == H[j][0]:
                continue
            h = dict(ok)
            d = dict([H[i], H[j]])
            h.update(d)
            if F < PARIS and not set(d) & {"mix", "nonce"} and h["difficulty"]:
                blocks.seal(h)
            P.add((h, *body))
            if P.last is None:
                P = Pair(F, acc, {}, [(genesis(F), [], [], [])])
        P.add((ok, *body), expect=True)
        return P

    def build(self, d):
        return getattr(self, "b_" + d[0])(*d[1:])

    def run(self, d):
        if d[0] == "hdr":
            P = self.b_hdr(*d[1:])
            return Result(P.digs, P.n, P.n)
        return super().run(d)


if __name__ == "__main__":
    raise SystemExit(main(C()))
