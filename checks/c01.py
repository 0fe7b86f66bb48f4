"""C01: every pure instruction on every operand tuple of a boundary alphabet, all forks."""
import functools
import itertools
from checkbase import *

M = 1 << 256
Q = [0, 1, 2, 3, 7, 8, 16, 31, 32, 33, 64, 127, 128, 255, 256, 257, 0x8000, 1 << 64, (1 << 64) - 1, 1 << 127, 1 << 128,
     (1 << 128) - 1, (1 << 255) - 1, 1 << 255, (1 << 255) + 1, M - 1, M - 2, M - 3, M - 128, M - 256,
     int("80ff" * 16, 16), int("0123456789abcdef" * 4, 16)]
T = Q + [4, 5, 9, 15, 17, 29, 30, 62, 63, 65, 96, 129, 160, 191, 192, 200, 224, 240, 247, 248, 254, 1000, 1 << 32, 1 << 96,
         1 << 160, (1 << 160) - 1, 1 << 192, 1 << 248, 1 << 254, M - 7, M - 8, M - 33, M - 255, M - 257, int("7f" * 32, 16),
         int("a5" * 32, 16), int("01" * 32, 16), (M - 1) // 3]
Q3 = [0, 1, 2, 3, 7, 1 << 128, (1 << 255) - 1, 1 << 255, M - 1, M - 2]
T3 = Q3 + [31, 256, 1 << 64, (1 << 128) - 1, (1 << 255) + 1, M - 3, int("a5" * 32, 16)]
BIN = {o for o in evm._BIN} | {0x0A}
UN = [0x15, 0x19, 0x1E]


def patterns(th):
    """Values whose top bit, or nearest zero/one, sits at a byte boundary."""
    out = []
    for k in range(32):
        s = 1 << (8 * k + 7)
        out += [s, s - 1, M - s, M - 1 - s, 0x5A << 8 * k, ((M - 1) ^ (0xFF << 8 * k)) & (M - 1)]
        if th:
            out += [1 << 8 * k, (1 << 8 * k) - 1, s | int("11" * 32, 16) & (s - 1), (M - 1) ^ (s >> 7)]
    return list(dict.fromkeys(v % M for v in out))


SH = [1, 2, 3, 1 << 128, 1 << 255, M - 1, M - 2, (1 << 255) - 1, int("80ff" * 16, 16), int("0123456789abcdef" * 4, 16)]


@functools.cache
def special(op, th):
    """Operand pairs chosen for one opcode: every byte index / shift amount, powers of two around every bit, quotients around every divisor."""
    if op in (0x0B, 0x1A):
        return [(i, v) for i in list(range(34)) + [255, 256, 1 << 64] for v in (patterns(th) if op == 0x0B else patterns(th)[:64:3] + SH)]
    if op in (0x1B, 0x1C, 0x1D):
        return [(i, v) for i in range(258) for v in SH]
    P = [(1 << i, 1 << j) for i in range(256) for j in dict.fromkeys((i, (i + 1) % 256, (i - 1) % 256, 255 - i, (256 - i) % 256, 128))]
    P += [((1 << i) - 1, (1 << i)) for i in range(256)] + [(M - (1 << i), (1 << i)) for i in range(256)] + [(M - (1 << i), M - (1 << (255 - i))) for i in range(256)]
    if op in (4, 5, 6, 7):
        for d in (1, 2, 3, 7, 10, 255, 256, 65537, (1 << 64) - 59, (1 << 127) + 3, (1 << 128) - 1, (1 << 200) + 9):
            for k in (1, 2, 3, 255, (1 << 32) + 1, M // 2 // d, M // d):
                for e in (-1, 0, 1, d // 2):
                    for a, b in ((1, 1), (-1, 1), (1, -1), (-1, -1)):
                        P.append(((a * (k * d + e)) % M, (b * d) % M))
    if op == 0x0A:
        P = [(b, e) for b in (0, 1, 2, 3, 5, 16, 255, 1 << 64, M - 1, M - 2, 1 << 255) for e in list(range(0, 40)) + [1 << i for i in range(5, 256)] + [(1 << 8 * i) - 1 for i in range(1, 33)]]
    return list(dict.fromkeys(P))


# operands of addmod/mulmod: sums and products around 2^256 and around the modulus
MT = [(M - 1, M - 1, m) for m in (1, 2, 3, M - 1, M - 2, 1 << 255, (1 << 255) + 1, 1 << 128, (1 << 128) + 1)] + [
    (x, y, m) for i in range(0, 256, 5) for x in (1 << i, (1 << i) - 1) for y in (M - (1 << i), 1 << (255 - i), (1 << i) + 1) for m in ((1 << i) or 1, (1 << i) + 1, M - 1, 7)]


class C(DiffCheck):
    pid = "C01"
    rule = ("every (fork, opcode, operand tuple) over a boundary alphabet, grouped into programs of up to 128 evaluations "
            "whose results are logged; a state is a distinct model post-state (incl. logged results)")
    bounds = {"quick": f"{len(Q)}^2 operand pairs, {len(Q3)}^3 triples, keccak 0..140 bytes; all pure opcodes x 18 forks; every byte index 0..33 and shift 0..257 on sign patterns; powers of two around every bit; quotients around divisors",
              "thorough": f"{len(T)}^2 operand pairs, {len(T3)}^3 triples, keccak 0..300 bytes"}
    assumptions = ["operand values outside the boundary alphabet behave like their neighbours"]

    def cases(self, tier):
        V, V3 = (Q, Q3) if tier == "quick" else (T, T3)
        for op in sorted(BIN):
            for blk in range(0, len(V) * len(V), 128):
                for F in ALL:
                    if op in evm._OPS[F]:
                        yield (F, op, tier, 2, blk)
        for op in UN:
            for F in ALL:
                if op in evm._OPS[F]:
                    yield (F, op, tier, 1, 0)
        for op in (8, 9):
            for blk in range(0, len(V3) ** 3, 128):
                for F in ALL:
                    yield (F, op, tier, 3, blk)
            for blk in range(0, len(MT), 128):
                for F in ALL:
                    yield (F, op, tier, 33, blk)
        for op in sorted(BIN):
            n = len(special(op, tier != "quick"))
            for blk in range(0, n, 256):
                for F in ALL:
                    if op in evm._OPS[F]:
                        yield (F, op, tier, 22, blk)
        for F in ALL:
            for blk in range(0, 140 if tier == "quick" else 300, 10):
                yield (F, 0x20, tier, 0, blk)

    def build(self, d):
        F, op, tier, ar, blk = d
        V, V3 = (Q, Q3) if tier == "quick" else (T, T3)
        code = []
        k = 0
        if ar == 0:
            src = bytes((i * 37 + 11) & 255 for i in range(320))
            code.append(mstore_code(src, 0))
            for s in range(blk, blk + 10):
                for o in (0, 1, 31, 33):
                    code += [s, o, "KECCAK", 1024 + 32 * k, "MSTORE"]
                    k += 1
            return case(F, world({A(1): (1, 0, asm(*code, 32 * k, 1024, "LOG0"))}), [tx(F, A(1), gas=5_000_000)])
        if ar in (22, 33):
            sp = special(op, tier != "quick")[blk:blk + 256] if ar == 22 else MT[blk:blk + 128]
            for k, t in enumerate(sp):
                code += [*reversed(t), bytes([op]), 32 * k, "MSTORE"]
            code += [32 * len(sp), 0, "LOG0"]
            return case(F, world({A(1): (1, 0, asm(*code))}), [tx(F, A(1), gas=5_000_000)])
        vals = V if ar < 3 else V3
        for i in range(blk, min(blk + 128, len(vals) ** ar)):
            t = []
            for _ in range(ar):
                i, r = divmod(i, len(vals))
                t.append(vals[r])
            # first operand on top of the stack, and a canary below
            for v in t:
                code.append(v)
            code.append(bytes([op]))
            code += [32 * k, "MSTORE"]
            k += 1
        code += [32 * k, 0, "LOG0"]
        return case(F, world({A(1): (1, 0, asm(*code))}), [tx(F, A(1), gas=5_000_000)])


if __name__ == "__main__":
    raise SystemExit(main(C()))
