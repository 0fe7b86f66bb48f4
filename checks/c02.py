"""C02: control flow, opcode availability, stack and memory - exhaustive small programs."""
import itertools
from checkbase import *

ALPHA = bytes([0x00, 0x01, 0x05, 0x56, 0x57, 0x58, 0x5B, 0x60, 0x61, 0x80])
EPI = asm("0 MSTORE 32 MSTORE 64 0 RETURN")
N = 96


def progs(tier):
    L = 4 if tier == "quick" else 5
    for y in ((5,) if tier == "quick" else (5, 7, 8)):
        pre = asm(1, y)
        for l in range(1, L + 1):
            for p in itertools.product(ALPHA, repeat=l):
                yield pre + bytes(p) + EPI


RAW = bytes([0x00, 0x01, 0x02, 0x03, 0x56, 0x57, 0x5B, 0x60])


def raw(tier):
    """Byte programs without any prologue, and jumps (taken once) to the first bytes of the code."""
    L = 4 if tier == "quick" else 5
    for l in range(0, L + 1):
        for p in itertools.product(RAW, repeat=l):
            yield bytes(p)
    for l in range(0, 4 if tier == "quick" else 5):
        for p in itertools.product((0x5B, 0x58, 0x60, 0x61, 0x62, 0x0C), repeat=l):
            for t in range(0, l + 1):
                yield bytes(p) + asm("MSIZE ISZERO 0 MLOAD POP", t, "JUMPI") + b"\0"


def pushdata(tier):
    """JUMPDEST hidden at every position of every PUSHn, jump there and just behind."""
    for n in range(1, 33):
        for pos in range(n):
            d = bytearray(n)
            d[pos] = 0x5B
            body = bytes([0x5F + n]) + bytes(d) + b"\x5b" + EPI
            yield asm(7, 8) + push(4 + 3 + 1 + pos) + b"\x56" + body
            yield asm(7, 8) + push(4 + 3 + 1 + n) + b"\x56" + body
            yield asm(7, 8, 1) + push(4 + 5 + 1 + pos) + b"\x57" + body
    for n in range(1, 33):  # truncated push at end of code
        for k in range(0, n + 1):
            yield asm(0x5F00) + bytes([0x5F + n]) + b"\x11" * k
            yield asm(1, 1) + push(7) + b"\x57" + bytes([0x5F + n]) + b"\x5b" * k  # falls through / jumps
    for t in (0, 1, 2, 3, 4, 5, 6, 7, 8, 255, 256, 1 << 31, 1 << 32, 1 << 63, 1 << 64, (1 << 64) + 5, 1 << 128, (1 << 256) - 1):
        for op in ("JUMP", "JUMPI"):
            for c in (0, 1, 1 << 255):
                yield asm(c, t, op, "JUMPDEST") + EPI
        yield b"\x5b" + asm("1 1 1 1") + asm(t, "SWAP1 POP") + EPI


def stacks(F, tier):
    for op in range(256):
        for d in (0, 1, 2, 3, 4, 5, 6, 7, 16, 17) if tier == "quick" else range(0, 18):
            yield asm(*[(i + 1) for i in range(d)]) + bytes([op]) + EPI
        for d in (1022, 1023, 1024):
            if tier == "quick" and d < 1024 and op not in (0x80, 0x8F, 0x60, 0x58, 0x30, 0x5F, 0x90, 0x03):
                continue
            if op in evm._OPS[F] and op not in (0xF0, 0xF1, 0xF2, 0xF4, 0xF5, 0xFA, 0x56, 0x57, 0x0A):
                yield asm(1, "DUP1 " * (d - 1)) + bytes([op]) + b"\x50" * 4 + EPI
    for d in (1023, 1024, 1025):
        yield asm("1 " * d) + b"\x50" * 2 + EPI


MOPS = [(o, a) for o in ("MSTORE", "MSTORE8", "MLOAD") for a in (0, 1, 31, 32, 33, 95)]
MCP = [(d, s, n) for d in (0, 1, 32, 65) for s in (0, 1, 33, 64) for n in (0, 1, 31, 32, 64)]


# every overlap of two ranges: both directions, by less and more than a word, lengths beyond one and two words
OVL = [(d, s, n) for d, s in itertools.product((0, 1, 31, 32, 33, 40, 64, 96, 128), repeat=2) for n in (33, 40, 65, 96, 100, 129)]


def mems(F, tier):
    ops = list(MOPS)
    if F >= CANCUN:
        ops += [("MCOPY",) + x for x in MCP]
    base = mstore_code(bytes(range(1, 65)), 0)
    tail = asm("MSIZE DUP1 0 LOG0 MSIZE 0 MSTORE 32 0 RETURN")
    if F >= CANCUN:
        wide = mstore_code(bytes((i * 7 + 3) & 255 for i in range(256)), 0)
        for d, s, n in OVL:
            yield asm(wide, n, s, d, "MCOPY") + tail
    L = 2
    for l in range(0, L + 1):
        for p in itertools.product(ops, repeat=l):
            if l == 2 and tier == "quick" and p[0][0] == "MCOPY" and p[1][0] == "MCOPY":
                continue
            c = [base]
            for k, q in enumerate(p):
                if q[0] == "MLOAD":
                    c += [q[1], "MLOAD", 96 + 32 * k, "MSTORE"]
                elif q[0] == "MCOPY":
                    c += [q[3], q[2], q[1], "MCOPY"]
                else:
                    c += [int("c3d4" * 16, 16) + k, q[1], q[0]]
            yield asm(*c) + tail


def gen(kind, F, tier):
    if kind == "p":
        return progs(tier)
    if kind == "r":
        return raw(tier)
    if kind == "d":
        return pushdata(tier)
    if kind == "s":
        return stacks(F, tier)
    return mems(F, tier)


class C(DiffCheck):
    pid = "C02"
    rule = ("all programs of each family (byte programs over a 10-byte alphabet, push-data jumps, every opcode at every "
            "stack depth class, memory op sequences) in each fork; each is called from a driver contract, its return "
            "data, success and gas logged; a state is a distinct model post-state of a batch")
    bounds = {"quick": "byte programs up to length 4 (also without prologue), memory sequences up to length 2, 10 stack depths + limit",
              "thorough": "byte programs up to length 5 (also without prologue) x 3 jump targets, 18 stack depths + limit"}
    assumptions = ["programs over bytes outside the alphabet follow the per-opcode family"]
    _cache = {}

    def cases(self, tier):
        for kind in "prdsm":
            for F in ALL:
                key = (kind, F if kind in "sm" else 0, tier)
                if key not in self._cache:
                    self._cache[key] = sum(1 for _ in gen(kind, F, tier))
                for b in range(0, self._cache[key], N):
                    yield (kind, F, tier, b)

    _pl = {}

    def build(self, d):
        kind, F, tier, b = d
        key = (kind, F if kind in "sm" else 0, tier)
        if self._pl.get("k") != key:
            self._pl = {"k": key, "v": list(gen(kind, F, tier))}
        ps = self._pl["v"][b:b + N]
        contracts = {A(i): (1, 0, c) for i, c in enumerate(ps)}
        calls = [dict(to=A(i), gas=60000 if kind != "r" else 300) for i in range(len(ps))]
        return batch_case(F, contracts, calls, gas=16_000_000)


if __name__ == "__main__":
    raise SystemExit(main(C()))
