"""C03: exact gas of every cost rule at every boundary, and atomic out-of-gas."""
from checkbase import *

BIG = 8_000_000
SZ = [0, 1, 2, 31, 32, 33, 63, 64, 65, 255, 256, 257, 1023, 1024, 1025, 22528, 22529, 24576, 24577, 49152, 49153, 100000]
OFF = [0, 1, 31, 32, 33, 992, 993, 1024, 4096, 22496, 22497, 65536, 200000, 500000]
TO = A(500)


def sized(F):
    """(label, code) for every size-dependent rule."""
    for n in SZ:
        yield asm(n, 0, "KECCAK")
        for op in ("CALLDATACOPY", "CODECOPY"):
            yield asm(n, 0, 0, op)
        yield asm(n, 0, 0, addr_int(TO), "EXTCODECOPY")
        for k in range(5):
            yield asm("0 " * k, n, 0, f"LOG{k}")
        yield asm(n, 0, "RETURN")
        yield asm(n, 0, 0, "CREATE")
        if F >= BYZANTIUM:
            yield asm(n, 0, "REVERT")
            yield asm(0, 0, n, 0, addr_int(TO), 1000, "STATICCALL")
            yield asm(n, 0, 0, 0, addr_int((4).to_bytes(20, "big")), 100000, "STATICCALL 0 0 0 RETURNDATACOPY")
            yield asm(0, 0, n, 0, 4, 100000, "STATICCALL POP", n, 0, 0, "RETURNDATACOPY")
        if F >= CONSTANTINOPLE:
            yield asm(5, n, 0, 0, "CREATE2")
        for (i, o) in ((n, 0), (0, n), (n, 5), (5, n)):
            yield asm(o, 0, i, 0, 0, addr_int(TO), 1000, "CALL")
            yield asm(o, 0, i, 0, 0, addr_int(TO), 1000, "CALLCODE")
            if F >= HOMESTEAD:
                yield asm(o, 0, i, 0, addr_int(TO), 1000, "DELEGATECALL")
        if F >= CANCUN:
            yield asm(n, 0, 0, "MCOPY")
            yield asm(n, n, 0, "MCOPY")
            yield asm(n, 0, n, "MCOPY")
    for o in OFF:
        yield asm(1, o, "MSTORE")
        yield asm(1, o, "MSTORE8")
        yield asm(o, "MLOAD")
        yield asm(o, "MLOAD", 64, "MLOAD", o + 1, "MLOAD")
        yield asm(5, o, "KECCAK")
        yield asm(0, o, "KECCAK")
        yield asm(0, o, 0, "CALLDATACOPY")
        yield asm(1, o, 0, "CODECOPY")
        yield asm(1, 0, o, "CODECOPY")
        yield asm(3, o, "RETURN")
        yield asm(o, 10, 3, o + 7, 0, addr_int(TO), 0, "CALL")
    for e in range(0, 33):
        yield asm((1 << (8 * e)) >> 1, 3, "EXP") if e else asm(0, 3, "EXP")
        yield asm(((1 << (8 * e)) - 1), 2, "EXP")


def plain(F):
    """Every opcode with small and with account-like operands."""
    for op in range(256):
        if op in evm._OPS[F] or op in (0x0C, 0x1E, 0x1F, 0x21, 0x49, 0x4B, 0xB0, 0xEF, 0xFE, 0xF6, 0xFB):
            for v in (0, 1, addr_int(TO), addr_int(NOBODY)):
                yield asm(v, v, v, v, v, v, v) + bytes([op])
                if op in (0x80, 0x90, 0x60):
                    break
    for v in (1, 7):
        for op in ("CALL", "CALLCODE"):
            for to in (TO, NOBODY, (4).to_bytes(20, "big"), bytes(20), A(501)):
                for g in (0, 1, 700, 10**6):
                    yield asm(0, 0, 0, 0, v, addr_int(to), g, op)
        yield asm(v, v, "SSTORE", 0, v, "SSTORE", v, 0, "SSTORE")
        yield asm(0, 5, "SSTORE", 9, 5, "SSTORE", 9, 5, "SSTORE", 8, 5, "SSTORE")
    for ben in (TO, NOBODY, A(501), bytes(20)):
        yield asm(addr_int(ben), "SELFDESTRUCT")


def txlevel(F):
    yield A(1), asm(1, 0, "SSTORE", mstore_code(b"abc"), 3, 0, "LOG0", 2, 1, "SSTORE 5 3 ADD POP"), b""
    yield A(1), asm(0, 0, 0, 0, 3, addr_int(TO), 3000, "CALL", 0, 5, "SSTORE"), b"\x00\x01\x00\x02"
    yield b"", None, initcode(asm(1, 2, "ADD")) 
    yield b"", None, asm(1, 0, "SSTORE 0 0 RETURN")


class C(DiffCheck):
    pid = "C03"
    rule = ("for every program exercising one cost rule at one size/offset, run with gas c-1, c, c+1 around each "
            "model charge boundary (every gas value for small programs; every boundary +-1 of the transaction gas limit); "
            "a state is a distinct model post-state")
    bounds = {"quick": "all opcodes, 22 sizes, 14 offsets, 33 exponent lengths, 18 forks",
              "thorough": "as quick, plus every gas value from 0 to completion for programs up to 3000 gas"}

    def progs(self, F):
        if getattr(self, "_k", None) != F:
            self._k, self._v = F, list(plain(F)) + list(sized(F))
        return self._v

    def cases(self, tier):
        for F in ALL:
            n = len(self.progs(F))
            for b in range(0, n, 24):
                yield ("p", F, b, tier)
            for i, _ in enumerate(txlevel(F)):
                for kind in range(0, evm.max_kind(F) + 1):
                    if kind < 3:
                        for part in range(8):
                            yield ("t", F, i, kind, part, tier)

    def points(self, F, code, sto):
        """Gas limits to try: every charge boundary +-1."""
        st = evm.State(self.extra(F), sto)
        bl = evm.Block(**block(F))
        m = evm.Machine(F, st, bl, S1, 1)
        m.orig = sto
        pts = set()
        st.acc[A(0)] = (1, 0, code)
        f = evm.Frame(code, DRV, A(0), 0, b"", BIG, 1, False, None, self.warm(F), set())
        m.trace = lambda fr, op: fr is f and pts.add(BIG - fr.gas)
        m.call(f, A(0), True)
        if not f.err or f.err == "revert":
            pts.add(BIG - f.gas)
        out = set()
        top = sorted(pts)[-4:]
        for p in top:
            out |= {p - 1, p, p + 1}
        return sorted(x for x in out if x >= 0)

    def warm(self, F):
        return set(evm._PRE[F]) | {S1, DRV, COINBASE, A(0)}

    def extra(self, F):
        return {TO: (1, 3, asm(1, 2, "ADD", 7, "POP")), A(501): (0, 5, b""), COINBASE: (0, 1, b"")}

    def build(self, d):
        if d[0] == "t":
            return self.build_tx(d)
        _, F, b, tier = d
        ps = self.progs(F)[b:b + 24]
        sto = {5: 3}
        contracts, calls = {}, []
        stos = {}
        for i, c in enumerate(ps):
            pts = self.points(F, c, {A(0): sto})
            if tier == "thorough" and pts and pts[-1] < 3000:
                pts = list(range(0, pts[-1] + 2))
            contracts[A(i)] = (1, 50, c)
            stos[A(i)] = dict(sto)
            for g in pts:
                calls.append(dict(to=A(i), gas=g))
        cs = []
        ex = self.extra(F)
        for k in range(0, len(calls), 120):
            cs.append(batch_case(F, contracts, calls[k:k + 120], gas=90_000_000, sto=stos, extra=ex))
        return cs

    def build_tx(self, d):
        _, F, i, kind, part, tier = d
        to, code, data = list(txlevel(F))[i]
        acc = self.extra(F)
        if code is not None:
            acc[A(1)] = (1, 50, code)
        kw = dict(access=((A(1), (1, 2)), (TO, ()))) if kind else {}
        base = tx(F, to, data, kind=kind, value=2, **kw)
        # model run to find charge boundaries in terms of the gas limit
        t, _ = diff.make_tx(F, base)
        st = evm.State(world(acc), {A(1): {5: 3}})
        pts = set()
        r = evm.run_tx(F, st, evm.Block(**block(F)), t,
                       trace=lambda f, op: f.depth == 0 and pts.add(base["gas"] - f.gas))
        ig, floor = evm.intrinsic(F, t)
        if tier == "quick":
            pts = set(sorted(pts)[:4] + sorted(pts)[-8:])
        pts |= {r["gas_before_refund"], ig, floor, r["gas_used"]}
        lim = sorted({p + x for p in pts for x in (-2, -1, 0, 1, 2, 2300, 2301) if p + x > 0})
        lim = [g for j, g in enumerate(lim) if j % 8 == part]
        out = []
        for g in lim:
            out.append(case(F, world(acc), [dict(base, gas=g), dict(base, gas=200000, nonce=1)],
                            {A(1): {5: 3}} if code is not None else {}))
        return out


if __name__ == "__main__":
    raise SystemExit(main(C()))
