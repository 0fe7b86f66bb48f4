"""C10: transient storage."""
import itertools
from checkbase import *

M, B = A(1), A(2)
FORKS = [F for F in ALL if F >= CANCUN]


class C(DiffCheck):
    pid = "C10"
    rule = ("all sequences up to length 4 (5 thorough) of transient writes and reads, each made by the account itself, by a second contract, "
            "by delegate call, in a kept / reverted / halted re-entrant frame, or refused in a read-only call; re-read after every step; "
            "two and three transactions in a row; interplay with persistent slots, creation and self-destruction; gas thresholds; key and "
            "value width; Cancun to Osaka.  The smaller families again two calls further down.  A state is a distinct model post-state incl. logged reads")
    bounds = {"quick": "length <= 4", "thorough": "length 5"}
    # step: (who, key, value, mode)
    STEPS = [("M", 1, 5, "I"), ("M", 1, 0, "I"), ("M", 2, 6, "K"), ("M", 1, 7, "R"), ("M", 1, 8, "H"), ("B", 1, 9, "K"), ("B", 1, 3, "R"),
             ("D", 1, 4, "K"), ("D", 1, 2, "R"), ("M", 1, 5, "S"), ("N", 1, 6, "R"), ("P", 1, 1, "I")]

    def cases(self, tier):
        th = tier == "thorough"
        n = len(self.STEPS)
        for F in FORKS:
            for k in (1, 2, 3, 4, 5)[: 5 if th else 3]:
                for s in itertools.product(range(n), repeat=k):
                    yield ("seq", F, s)
            if not th:
                core = (0, 1, 3, 5, 7, 8, 10)
                for s in itertools.product(core, repeat=4):
                    yield ("seq", F, s)
            for a, b in itertools.product(range(n), repeat=2):
                yield ("txs", F, a, b)
            yield ("keys", F)
            yield ("gas", F)
            yield ("create", F)
            yield ("sd", F)
            yield ("kinds", F)
            yield ("static", F)

    def deep(self, d):
        return d[0] in ("kinds", "static", "sd", "create") or d[0] == "seq" and len(d[2]) < 3

    def build(self, d):
        return getattr(self, "b_" + d[0])(*d[1:])

    def body(self):
        """Writer: calldata key, value, mode (0 stop, 1 revert, 2 invalid, 3 persistent instead)."""
        b = asm("32 CALLDATALOAD 0 CALLDATALOAD TSTORE 64 CALLDATALOAD")
        t1, t2 = asm("DUP1 1 EQ"), asm("DUP1 2 EQ")
        base = len(b) + len(t1) + 3 + len(t2) + 3 + 1
        r = asm("JUMPDEST 0 0 REVERT")
        return b + t1 + b"\x60" + bytes([base]) + b"\x57" + t2 + b"\x60" + bytes([base + len(r)]) + b"\x57\x00" + r + asm("JUMPDEST INVALID")

    def step(self, s, k):
        who, key, val, mode = s
        md = {"K": 0, "R": 1, "H": 2, "S": 0, "I": 0}[mode]
        args = asm(key, 0x100, "MSTORE", val, 0x120, "MSTORE", md, 0x140, "MSTORE")
        if who == "P":
            c = asm(val, key, "SSTORE")
        elif mode == "I":
            c = asm(val, key, "TSTORE")
        elif mode == "S":
            c = asm(args, 0, 0, 96, 0x100, addr_int(A(5)), 60000, "STATICCALL POP")
        elif who == "B":
            c = asm(args, 0, 0, 96, 0x100, 0, addr_int(B), 60000, "CALL POP")
        elif who == "D":
            c = asm(args, 0, 0, 96, 0x100, addr_int(B), 60000, "DELEGATECALL POP")
        elif who == "N":   # kept inner frame inside a reverted outer frame
            c = asm(args, 0, 0, 96, 0x100, 0, addr_int(A(6)), 90000, "CALL POP")
        else:
            c = asm(args, 0, 0, 96, 0x100, 0, addr_int(A(5)), 80000, "CALL POP")
        o = 0x400 + 160 * k
        read = asm(1, "TLOAD", o, "MSTORE", 2, "TLOAD", o + 32, "MSTORE", 1, "SLOAD", o + 64, "MSTORE",
                   32, o + 96, 0, 0, 0, addr_int(A(7)), 30000, "CALL POP GAS", o + 128, "MSTORE")
        return asm(c, read)

    def world(self, code):
        # M: with data acts as writer through delegatecall to B; A(5) calls M with the given data
        head = asm("CALLDATASIZE")
        main = asm(code, "STOP")
        d = len(head) + 4 + len(main)
        w = asm("JUMPDEST 96 0 0 CALLDATACOPY", 0, 0, 96, 0, addr_int(B), 50000, "DELEGATECALL ISZERO")
        bad = d + len(w) + 5
        w += b"\x61" + bad.to_bytes(2, "big") + b"\x57\x00" + asm("JUMPDEST 0 0 REVERT")
        mc = head + b"\x61" + d.to_bytes(2, "big") + b"\x57" + main + w
        # B: writer when called with 96 bytes; reader (TLOAD 1) otherwise
        wr = self.body()
        return {M: (1, 9, mc), B: (1, 9, wr), A(5): (1, 0, asm("96 0 0 CALLDATACOPY", 0, 0, 96, 0, 0, addr_int(M), 60000, "CALL POP")),
                A(6): (1, 0, asm("96 0 0 CALLDATACOPY 0 64 MSTORE", 0, 0, 96, 0, 0, addr_int(M), 60000, "CALL POP 0 0 REVERT")),
                A(7): (1, 0, asm(1, "TLOAD 0 MSTORE 32 0 RETURN"))}

    def b_seq(self, F, s):
        code = asm(*[self.step(self.STEPS[x], k) for k, x in enumerate(s)], 160 * len(s), 0x400, "LOG0")
        return case(F, world(self.world(code)), [tx(F, M, gas=2_000_000)])

    def b_txs(self, F, a, b):
        out = []
        code = asm(self.step(self.STEPS[a], 0), self.step(self.STEPS[b], 1), 320, 0x400, "LOG0")
        rd = asm(1, "TLOAD 0 MSTORE 2 TLOAD 32 MSTORE 64 0 LOG0")
        for bad in (b"", asm("INVALID"), asm("0 0 REVERT")):
            ex = self.world(asm(rd, code, bad))
            out.append(case(F, world(ex), [tx(F, M, gas=2_000_000), tx(F, M, gas=2_000_000, nonce=1), tx(F, M, gas=2_000_000, nonce=2)]))
        return out

    def b_keys(self, F):
        ks = [0, 1, 255, 256, 2**64, 2**128, 2**160, 2**255, 2**256 - 1]
        code = asm(*[asm(k ^ (2**256 - 1), k, "TSTORE") for k in ks], *[asm(k, "TLOAD", 32 * i, "MSTORE") for i, k in enumerate(ks)],
                   *[asm(k, "SLOAD", 32 * (i + 9), "MSTORE") for i, k in enumerate(ks)], 32 * 18, 0, "LOG0")
        return case(F, world({M: (1, 0, code)}), [tx(F, M)], {M: {k: 3 for k in ks[::3]}})

    def b_gas(self, F):
        out = []
        for op, base in (("TLOAD", 100), ("TSTORE", 100)):
            for g in list(range(98, 112)) + [2300, 2301, 800]:
                inner = asm(1, "TLOAD POP") if op == "TLOAD" else asm(1, 1, "TSTORE")
                ex = {M: (1, 0, asm(0, 0, 0, 0, 0, addr_int(B), g, "CALL 0 MSTORE GAS 32 MSTORE 64 0 LOG0")), B: (1, 0, inner)}
                out.append(case(F, world(ex), [tx(F, M)]))
        return out

    def b_create(self, F):
        """Transient storage of a contract under creation, its later frames, and re-creation after destruction."""
        out = []
        for t in ("0 0 RETURN", "INVALID", "0 0 REVERT", "ADDRESS SELFDESTRUCT", "CALLER SELFDESTRUCT"):
            run = asm(1, "TLOAD 0 MSTORE 32 0 RETURN")
            ini = asm(5, 1, "TSTORE 1 TLOAD 0 SSTORE", t)
            ini2 = asm(5, 1, "TSTORE") + initcode(run)
            # initcode() copies from its own offset: rebuild with prefix
            pre = asm(5, 1, "TSTORE")
            n = len(run)
            tail = lambda o: pre + asm(n, o, 0, "CODECOPY", n, 0, "RETURN")
            ini2 = tail(len(tail(30))) + run
            for ini_ in (ini, ini2):
                for op in ("CREATE", "CREATE2"):
                    s = [3] if op == "CREATE2" else []
                    code = asm(mstore_code(ini_, 0), *s, len(ini_), 0, 0, op, "DUP1 0x300 MSTORE", "32 0x320 0 0 0 DUP6 50000 CALL 0x340 MSTORE 1 TLOAD 0x360 MSTORE 0x80 0x300 LOG0")
                    out.append(case(F, world({M: (1, 0, code)}), [tx(F, M), tx(F, M, nonce=1)]))
                out.append(case(F, world(), [tx(F, b"", ini_)]))
        return out

    def b_sd(self, F):
        """Self-destructing and calling again in the same transaction keeps the transient values readable."""
        out = []
        for seq in itertools.product(("w", "k", "r"), repeat=4):
            # B: data 1 byte write, 2 bytes kill, else read
            h = asm("CALLDATASIZE DUP1 1 EQ")
            t2 = asm("DUP1 2 EQ")
            base = len(h) + 3 + len(t2) + 3
            rd = asm("1 TLOAD 0 MSTORE 32 0 RETURN")
            wr = asm("JUMPDEST 1 TLOAD 3 ADD 1 TSTORE STOP")
            kl = asm("JUMPDEST", addr_int(S2), "SELFDESTRUCT")
            code = h + b"\x60" + bytes([base + len(rd)]) + b"\x57" + t2 + b"\x60" + bytes([base + len(rd) + len(wr)]) + b"\x57" + rd + wr + kl
            c = [asm(32, 32 * i, {"w": 1, "k": 2, "r": 0}[x], 0, 0, addr_int(B), 60000, "CALL POP") for i, x in enumerate(seq)]
            out.append(case(F, world({M: (1, 0, asm(*c, "128 0 LOG0")), B: (1, 1, code)}), [tx(F, M), tx(F, M, nonce=1)]))
        return out

    def b_kinds(self, F):
        """Ownership under every call kind, both directions."""
        out = []
        for k1, k2 in itertools.product(("CALL", "CALLCODE", "DELEGATECALL", "STATICCALL"), repeat=2):
            v = lambda k: [0] if k in ("CALL", "CALLCODE") else []
            ex = {A(3): (1, 0, asm("1 TLOAD 1 ADD 1 TSTORE 1 TLOAD 0 MSTORE 32 0 RETURN")),
                  B: (1, 0, asm("1 TLOAD 10 ADD 1 TSTORE", 32, 0, 0, 0, *v(k2), addr_int(A(3)), 60000, k2, "POP 1 TLOAD 32 MSTORE 64 0 RETURN")),
                  M: (1, 0, asm("100 1 TSTORE", 64, 0, 0, 0, *v(k1), addr_int(B), 120000, k1, "64 MSTORE 1 TLOAD 96 MSTORE",
                                64, 128, 0, 0, 0, addr_int(B), 120000, "CALL POP", 32, 192, 0, 0, 0, addr_int(A(3)), 60000, "CALL POP 224 0 LOG0"))}
            out.append(case(F, world(ex), [tx(F, M)]))
        return out

    def b_static(self, F):
        out = []
        for leaf in (asm(1, 1, "TSTORE STOP"), asm(0, 1, "TSTORE STOP"), asm(1, "TLOAD 0 MSTORE 32 0 RETURN")):
            for k in ("CALL", "CALLCODE", "DELEGATECALL", "STATICCALL"):
                v = [0] if k in ("CALL", "CALLCODE") else []
                ex = {A(3): (1, 0, leaf), B: (1, 0, asm(32, 0, 0, 0, *v, addr_int(A(3)), 60000, k, "32 MSTORE 64 0 RETURN")),
                      M: (1, 0, asm("9 1 TSTORE", 64, 0, 0, 0, addr_int(B), 100000, "STATICCALL 64 MSTORE 1 TLOAD 96 MSTORE GAS 128 MSTORE 160 0 LOG0"))}
                out.append(case(F, world(ex), [tx(F, M)]))
        return out


if __name__ == "__main__":
    raise SystemExit(main(C()))
