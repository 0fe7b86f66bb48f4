"""C07: SSTORE cost and refund by history; refund cap."""
import itertools
from checkbase import *

W = A(1)
GASOBS = "GAS"


def writer(F):
    """calldata: value, mode.  Writes value to slot 1, then stops / reverts / halts by mode."""
    rev = "0 0 REVERT" if F >= BYZANTIUM else "INVALID"
    body = asm("0 CALLDATALOAD 1 SSTORE 32 CALLDATALOAD")
    m1 = asm("DUP1 1 EQ")
    m2 = asm("DUP1 2 EQ")
    base = len(body) + len(m1) + 3 + len(m2) + 3 + 1
    r = asm("JUMPDEST", rev)
    return body + m1 + b"\x60" + bytes([base]) + b"\x57" + m2 + b"\x60" + bytes([base + len(r)]) + b"\x57" + b"\x00" + r + asm("JUMPDEST INVALID")


def step(F, v, mode, k):
    """One write of v in the given mode, then log point k (gas left) in memory."""
    if mode == "I":
        c = asm(v, 1, "SSTORE")
    else:
        m = {"K": 0, "R": 1, "H": 2, "D": 0, "E": 1, "X": 0}[mode]
        kind = "DELEGATECALL" if mode in "DE" and F >= HOMESTEAD else "CALL"
        # D/E: delegate to the writer code (writes our slot); K/R/H: call ourselves through the hub; X: other account
        to = {"D": A(2), "E": A(2), "X": A(2)}.get(mode, A(3))
        val = [0] if kind == "CALL" else []
        c = asm(v, 0x400, "MSTORE", m, 0x420, "MSTORE", 0, 0, 64, 0x400, *val, addr_int(to), 60000, kind, "POP")
    return asm(c, "GAS", 32 * k, "MSTORE")


class C(DiffCheck):
    pid = "C07"
    rule = ("all write sequences to one slot: values {0,1,2}, length <= 4 inline and length <= 3 with every write either inline, in a "
            "kept, reverted or halted re-entrant call or delegate call, from originals {0,1}; multi-slot sequences; refund-cap "
            "grids of cleared slots x burnt gas; write-gas thresholds; originals across transactions, creation and destruction; "
            "all forks.  The smaller families again two calls further down.  A state is a distinct model post-state")
    bounds = {"quick": "as in rule", "thorough": "length 5 inline, length 4 with modes I/K/R, original 2 as well"}

    def cases(self, tier):
        th = tier == "thorough"
        for F in ALL:
            modes = "IKRD" if not th else "IKRHDEX"
            for n in range(1, 6 if th else 5):
                for vs in itertools.product((0, 1, 2), repeat=n):
                    for o in (0, 1, 2)[: 3 if th else 2]:
                        yield ("seq", F, o, vs, "I" * n)
            for n in range(1, 4 if F in (ISTANBUL, BERLIN, LONDON, OSAKA, BYZANTIUM) or th else 3):
                for vs in itertools.product((0, 1, 2), repeat=n):
                    for ms in itertools.product(modes, repeat=n):
                        if set(ms) != {"I"}:
                            for o in (0, 1):
                                yield ("seq", F, o, vs, "".join(ms))
            if th:
                for vs in itertools.product((0, 1, 2), repeat=4):
                    for ms in itertools.product("IKR", repeat=4):
                        yield ("seq", F, 1, vs, "".join(ms))
            for ms in ("H", "E", "X", "HI", "IH", "XI", "IX", "IE", "EI"):
                for vs in itertools.product((0, 1, 2), repeat=len(ms)):
                    for o in (0, 1):
                        yield ("seq", F, o, vs, ms)
            for outcome in ("ok", "bad", "rev"):
                for vs in itertools.product((0, 1, 2), repeat=2):
                    for ws in itertools.product((0, 1, 2), repeat=2):
                        yield ("nest", F, vs, ws, outcome)
            for n in range(0, 8):
                yield ("cap", F, n, th)
            yield ("thr", F, th)
            for a, b in itertools.product((0, 1, 2), repeat=2):
                for c in (0, 1, 2):
                    yield ("txs", F, a, b, c)
            yield ("fresh", F)
            for bits in range(27):
                yield ("slots", F, bits)
            for last in ("ok", "bad", "rev"):
                yield ("top", F, last)
            yield ("keys", F)

    def deep(self, d):
        return d[0] in ("nest", "fresh", "slots", "txs", "keys") or d[0] == "seq" and len(d[3]) < 3

    def build(self, d):
        return getattr(self, "b_" + d[0])(*d[1:])

    def mk(self, F, prog, extra=None):
        """W: empty calldata -> main program, else writer. A(2) writer; A(3) hub calling W."""
        wr = writer(F)
        main = asm(prog)
        head = asm("CALLDATASIZE")
        d = len(head) + 4 + len(main)
        j = b"\x61" + d.to_bytes(2, "big") + b"\x57"
        # the writer's own jump targets are relative to its start: relocate by delegating to A(2)
        w = b"\x5b" + asm("64 0 0 CALLDATACOPY", 0, 0, 64, 0) + (asm(addr_int(A(2)), 100000, "DELEGATECALL") if F >= HOMESTEAD else asm(0, addr_int(A(2)), 100000, "CALLCODE"))
        t = w + asm("ISZERO")
        bad = d + len(t) + 5
        w = t + b"\x61" + bad.to_bytes(2, "big") + b"\x57" + b"\x00" + asm("JUMPDEST", "0 0 REVERT" if F >= BYZANTIUM else "INVALID")
        code = head + j + main + w
        hub = asm("64 0 0 CALLDATACOPY", 0, 0, 64, 0, 0, addr_int(W), 50000, "CALL 0 MSTORE 32 0",
                  "RETURN")
        acc = {W: (1, 9, code), A(2): (1, 0, wr), A(3): (1, 0, hub)}
        acc.update(extra or {})
        return world(acc)

    def b_seq(self, F, o, vs, ms):
        prog = asm(*[step(F, v, m, i) for i, (v, m) in enumerate(zip(vs, ms))], "1 SLOAD 0x300 MSTORE GAS 0x320 MSTORE 0x340 0 LOG0 STOP")
        # burn gas so that refunds are below the cap for most histories
        return case(F, self.mk(F, asm(0, "0x8000 MSTORE", prog)), [tx(F, W, gas=2_000_000)], {W: {1: o}, A(2): {1: 1}})

    def b_nest(self, F, vs, ws, outcome):
        """A frame making two writes that then ends by outcome, between inline writes."""
        end = {"ok": "STOP", "bad": "INVALID", "rev": "0 0 REVERT" if F >= BYZANTIUM else "INVALID"}[outcome]
        inner = asm(ws[0], 1, "SSTORE", ws[1], 1, "SSTORE", 5, 2, "SSTORE", end)
        k = "DELEGATECALL" if F >= HOMESTEAD else "CALLCODE"
        val = [] if F >= HOMESTEAD else [0]
        prog = asm(0, "0x8000 MSTORE", vs[0], 1, "SSTORE GAS 0 MSTORE", 0, 0, 0, 0, *val, addr_int(A(5)), 100000, k, "32 MSTORE GAS 64 MSTORE",
                   vs[1], 1, "SSTORE GAS 96 MSTORE 0 2 SSTORE GAS 128 MSTORE 160 0 LOG0 STOP")
        for o in (0, 1):
            yield case(F, self.mk(F, prog, {A(5): (1, 0, inner)}), [tx(F, W, gas=2_000_000)], {W: {1: o, 2: 1}})

    def b_cap(self, F, n, th):
        for burn in ((0, 50, 200, 400, 800, 1500, 3000, 9000) if not th else range(0, 9000, 60)):
            prog = asm(*[asm(0, i, "SSTORE") for i in range(n)], 0, 32 * burn, "MSTORE", "STOP")
            yield case(F, self.mk(F, prog), [tx(F, W, gas=3_000_000)], {W: {i: i + 1 for i in range(n)}})

    def b_thr(self, F, th):
        """Callee with an exact amount of gas performing one write."""
        marks = [100, 800, 2100, 2200, 2300, 2900, 3000, 5000, 5100, 5800, 20000, 20100, 22100, 22106, 20006, 5006]
        pts = sorted({max(0, m + d) for m in marks for d in range(-2, 12)}) if not th else list(range(0, 23000, 1))
        for o, v in ((0, 0), (0, 1), (1, 1), (1, 0), (1, 2)):
            inner = asm(v, 1, "SSTORE")
            inner2 = asm(1, "SLOAD POP", v, 1, "SSTORE")
            for ic in (inner, inner2):
                for k in range(0, len(pts), 24):
                    calls = b"".join(asm(0, 0, 0, 0, 0, addr_int(A(100 + k + i)), g, "CALL", 32 * i, "MSTORE") for i, g in enumerate(pts[k:k + 24]))
                    acc = world({W: (1, 0, asm(calls, "GAS 0x600 MSTORE 0x620 0 LOG0"))})
                    acc.update({A(100 + k + i): (1, 0, ic) for i in range(24)})
                    yield case(F, acc, [tx(F, W, gas=2_000_000)], {A(100 + k + i): {1: o} for i in range(24)})

    def b_txs(self, F, a, b, c):
        """The value at transaction start is the one committed by the previous transaction."""
        code = asm("0 CALLDATALOAD 1 SSTORE 32 CALLDATALOAD 1 SSTORE GAS 0 MSTORE 32 0 LOG0")
        d = lambda x, y: x.to_bytes(32, "big") + y.to_bytes(32, "big")
        for o in (0, 1):
            yield case(F, world({W: (1, 0, code)}), [tx(F, W, d(a, b)), tx(F, W, d(b, c), nonce=1), tx(F, W, d(c, a), nonce=2)], {W: {1: o}})
            # second transaction fails, third must see the first's value
            yield case(F, world({W: (1, 0, code)}), [tx(F, W, d(a, b)), tx(F, W, d(c, c), nonce=1, gas=24000), tx(F, W, d(b, a), nonce=2)], {W: {1: o}})

    def b_fresh(self, F):
        """Writes in a contract under creation: the original is always zero."""
        for vs in itertools.product((0, 1, 2), repeat=3):
            ini = asm(*[asm(v, 1, "SSTORE") for v in vs], "1 SLOAD POP", 1, 0, "RETURN")
            yield case(F, world(), [tx(F, b"", ini, gas=900_000)])
            code = asm(mstore_code(ini, 0), len(ini), 0, 0, "CREATE 0 MSTORE GAS 32 MSTORE 64 0 LOG0")
            yield case(F, world({W: (1, 0, code)}), [tx(F, W, gas=900_000), tx(F, W, gas=900_000, nonce=1)])

    def b_slots(self, F, bits):
        vals = [bits % 3, bits // 3 % 3, bits // 9]
        prog = asm(*[asm(v, s, "SSTORE GAS", 32 * i, "MSTORE") for i, (v, s) in enumerate(zip(vals + vals[::-1], (1, 2, 3, 1, 2, 3)))],
                   "192 0 LOG0", 0, "0x6000 MSTORE STOP")
        for o in ({}, {1: 1}, {1: 1, 2: 2, 3: 1}):
            yield case(F, self.mk(F, prog), [tx(F, W, gas=2_000_000)], {W: dict(o)})

    def b_top(self, F, last):
        end = {"ok": "STOP", "bad": "INVALID", "rev": "0 0 REVERT" if F >= BYZANTIUM else "INVALID"}[last]
        for v in (0, 1, 2):
            for o in (0, 1):
                prog = asm(v, 1, "SSTORE", 7, 2, "SSTORE", end)
                yield case(F, self.mk(F, prog), [tx(F, W), tx(F, W, nonce=1)], {W: {1: o, 2: 5}})

    def b_keys(self, F):
        """Distinct keys and values stay distinct over their full width."""
        ks = [0, 1, 255, 256, 2**64, 2**128, 2**255, 2**256 - 1, 2**256 - 2, 1 << 160]
        prog = asm(*[asm(k ^ (2**256 - 1), k, "SSTORE") for k in ks], *[asm(k, "SLOAD", 32 * i, "MSTORE") for i, k in enumerate(ks)], 32 * len(ks), 0, "LOG0 STOP")
        yield case(F, self.mk(F, prog), [tx(F, W, gas=2_000_000)], {W: {k: 1 for k in ks[::2]}})


if __name__ == "__main__":
    raise SystemExit(main(C()))
