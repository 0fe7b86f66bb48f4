"""C05: message calls: value, gas, return data, memory, isolation, read-only, depth."""
import itertools
from checkbase import *

KINDS = ["CALL", "CALLCODE", "DELEGATECALL", "STATICCALL"]
SUB = A(50)


def avail(F):
    return [k for k in KINDS if not (k == "DELEGATECALL" and F < HOMESTEAD or k == "STATICCALL" and F < BYZANTIUM)]


def callseq(kind, to, gas, value=0, i=(0, 0), o=(0, 0)):
    """gas: int, or 'GAS' for everything left (minus a margin before 63/64)."""
    v = [value] if kind in ("CALL", "CALLCODE") else []
    g = gas if isinstance(gas, int) else asm(gas)
    return asm(o[1], o[0], i[1], i[0], *v, addr_int(to) if isinstance(to, bytes) else to, g, kind)


SEND = callseq("CALL", A(60), 30000, 1)


def behaviours(F):
    b = {
        "none": None, "eoa": b"", "stop": asm("STOP"),
        "ret5": asm(mstore_code(b"\xaa" * 5), 5, 0, "RETURN"),
        "ret64": asm(mstore_code(bytes(range(1, 65))), 64, 0, "RETURN"),
        "ret0": asm(0, 0, "RETURN"),
        "bad": b"\xfe", "oog": asm(7, 1, "SSTORE", 1, 2**40, "MSTORE"), "under": asm("POP"),
        "sstore": asm(7, 1, "SSTORE"), "sstore_bad": asm(7, 1, "SSTORE", b"\xfe"),
        "log": asm(9, 3, 5, 0, "LOG2"), "log_bad": asm(9, 3, 5, 0, "LOG2", b"\xfe"),
        "send": SEND, "send_bad": asm(SEND, b"\xfe"),
        "sd": asm(addr_int(A(61)), "SELFDESTRUCT"), "sdself": asm("ADDRESS SELFDESTRUCT"),
        "create": asm(mstore_code(initcode(b"\x00\x01"), 0), len(initcode(b"\x00\x01")), 0, 1, "CREATE 0 MSTORE 32 0 RETURN"),
        "create_bad": asm(mstore_code(initcode(b"\x00\x01"), 0), len(initcode(b"\x00\x01")), 0, 0, "CREATE POP", b"\xfe"),
        "gas": asm("GAS 0 MSTORE CALLVALUE 32 MSTORE CALLER 64 MSTORE ADDRESS 96 MSTORE 128 0 RETURN"),
        "echo": asm("CALLDATASIZE 0 0 CALLDATACOPY CALLDATASIZE 0 RETURN"),
        "deep": asm(callseq("CALL", A(62), 20000, 0, (0, 0), (0, 32)), "POP 0 MLOAD 5 ADD 0 MSTORE 32 0 RETURN"),
    }
    if F >= BYZANTIUM:
        b["rev"] = asm(mstore_code(b"\xbb" * 40), 40, 0, "REVERT")
        b["rev0"] = asm(0, 0, "REVERT")
        b["sstore_rev"] = asm(7, 1, "SSTORE", 4, 0, "REVERT")
        b["send_rev"] = asm(SEND, 4, 0, "REVERT")
        b["log_rev"] = asm(9, 3, 5, 0, "LOG2 4 0 REVERT")
        b["create_rev"] = b["create"][:-1] + b"\xfd"
    if F >= CANCUN:
        b["tstore"] = asm(7, 1, "TSTORE 1 TLOAD 0 MSTORE 32 0 RETURN")
    return b


SIDE = {A(60): (0, 2, b""), A(62): (1, 0, asm(77, 0, "MSTORE 32 0 RETURN"))}


def after(F):
    """Observe everything after a call whose success flag is on the stack."""
    s = [0x400, "MSTORE GAS 0x420 MSTORE MSIZE 0x440 MSTORE"]
    if F >= BYZANTIUM:
        s += ["RETURNDATASIZE 0x460 MSTORE RETURNDATASIZE 0 0x480 RETURNDATACOPY"]
    return asm(*s, 0x560, 0, "LOG0")


FILL = mstore_code(bytes(0x80 + i for i in range(96)), 0)
WRITES = {
    "sstore": asm(1, 1, "SSTORE"), "sstore_same": asm(0, 9, "SSTORE"), "log0": asm(0, 0, "LOG0"), "log1": asm(1, 0, 0, "LOG1"),
    "log4": asm(1, 2, 3, 4, 0, 0, "LOG4"), "create": asm(0, 0, 0, "CREATE"), "sd": asm("ADDRESS SELFDESTRUCT"),
    "callv": callseq("CALL", A(60), 5000, 1), "callv_self": asm(0, 0, 0, 0, 1, "ADDRESS 5000 CALL"), "call0": callseq("CALL", A(60), 5000, 0),
    "callcodev": callseq("CALLCODE", A(62), 5000, 1), "sload": asm(1, "SLOAD POP"), "callv_huge": callseq("CALL", A(60), 5000, 10**30),
    "callv_none": callseq("CALL", NOBODY, 5000, 1),
}


class C(DiffCheck):
    pid = "C05"
    rule = ("call kind x callee behaviour x value x gas request x in/out windows; all two-level nestings of call kinds x outcomes "
            "with effects in both frames; every state-changing instruction under a read-only call through 0-2 further calls, and every path of three to five calls to a write; the "
            "call depth limit with every call/create kind at the boundary; a sweep of available gas for the forwarding rule; all "
            "forks.  The smaller families again two calls further down.  A state is a distinct model post-state")
    bounds = {"quick": "as in rule, reduced windows", "thorough": "full product of windows, values and gas requests"}

    def cases(self, tier):
        th = tier == "thorough"
        for F in ALL:
            for kind in avail(F):
                for b in behaviours(F):
                    vals = (0, 1, 50, 51) if kind in ("CALL", "CALLCODE") else (0,)
                    if b not in ("none", "eoa", "send", "sd", "sdself", "create", "gas") and not th:
                        vals = vals[:2] + vals[3:]
                    for v in vals:
                        for g in (0, 2300, 50000, "max") if not th else (0, 1, 700, 2300, 9000, 25000, 50000, "GAS", "max"):
                            wins = [((0, 4), (0, 32))] if g != 50000 and not th else [
                                ((0, 0), (0, 0)), ((1, 40), (3, 5)), ((0, 4), (10, 64)), ((2**255, 0), (2**255, 0)), ((64, 32), (0, 100))]
                            for w in wins:
                                yield ("one", F, kind, b, v, g, w)
            outc = ["ok", "bad"] + (["rev"] if F >= BYZANTIUM else [])
            for k1, k2 in itertools.product(avail(F), repeat=2):
                for o1, o2 in itertools.product(outc, repeat=2):
                    for v in (0, 2):
                        yield ("two", F, k1, k2, o1, o2, v)
                    if th:
                        for k3 in avail(F):
                            yield ("three", F, k1, k2, k3, o1, o2)
            if F >= BYZANTIUM:
                ws = dict(WRITES)
                for w in list(ws) + (["create2"] if F >= CONSTANTINOPLE else []) + (["tstore", "tload"] if F >= CANCUN else []):
                    for path in [()] + [(k,) for k in avail(F)] + [p for p in itertools.product(avail(F), repeat=2)] * th:
                        yield ("static", F, w, path)
                yield ("static_create", F)
                for w in ("sstore", "log0", "create") + ("tstore",) * (F >= CANCUN) if th else ("sstore",):
                    for k12 in itertools.product(avail(F), repeat=2):
                        yield ("chain", F, w, k12, 5 if th or F in (BYZANTIUM, BERLIN, OSAKA) else 4)
            for kind in avail(F) + ["CREATE"] + (["CREATE2"] if F >= CONSTANTINOPLE else []):
                if F < OSAKA:
                    yield ("depth", F, kind, 0)
                    if kind in ("CALL", "CALLCODE", "CREATE"):
                        yield ("depth", F, kind, 1)
            for kind in avail(F):
                for v in (0, 1):
                    yield ("gas", F, kind, v, th)
                yield ("mem", F, kind)
                yield ("self", F, kind)
            yield ("multi", F)
            for op in ["CREATE"] + ["CREATE2"] * (F >= CONSTANTINOPLE):
                for prev in ("none", "ret5", "ret64", "bad") + ("rev",) * (F >= BYZANTIUM):
                    yield ("createret", F, op, prev)

    def deep(self, d):
        return d[0] in ("two", "static", "self") or d[0] == "one" and d[4] in (0, 1) and d[5] == 50000

    def build(self, d):
        return getattr(self, "b_" + d[0])(*d[1:])

    def mkworld(self, F, code, callee, bal=50):
        acc = {A(1): (1, bal, code)}
        acc.update(SIDE)
        if callee is not None:
            acc[SUB] = (1 if callee else 0, 5, callee)
        return world(acc)

    def b_one(self, F, kind, b, v, g, w):
        if g == "max":
            g = 2**256 - 1 if F >= TANGERINE else asm(60000, "GAS SUB")
        code = asm(FILL, callseq(kind, SUB, g if isinstance(g, int) else g, v, *w), after(F))
        if isinstance(g, bytes):
            vv = [v] if kind in ("CALL", "CALLCODE") else []
            code = asm(FILL, w[1][1], w[1][0], w[0][1], w[0][0], *vv, addr_int(SUB), g, kind, after(F))
        return case(F, self.mkworld(F, code, behaviours(F)[b]), [tx(F, A(1), gas=400000)], {SUB: {1: 3}, A(1): {1: 4}})

    def b_two(self, F, k1, k2, o1, o2, v):
        end = {"ok": asm(32, 0, "RETURN"), "bad": b"\xfe", "rev": asm(32, 0, "REVERT") if F >= BYZANTIUM else b""}
        inner = asm("CALLER 0 MSTORE", 1, "SLOAD", 1, "ADD", 1, "SSTORE", 5, 0, 0, "LOG1", SEND, end[o2])
        outer = asm(1, "SLOAD", 10, "ADD", 1, "SSTORE", callseq(k2, A(51), 120000, v and 1, (0, 0), (0, 32)),
                    2, "SSTORE", 6, 0, 0, "LOG1", end[o1])
        code = asm(callseq(k1, SUB, 400000, v, (0, 0), (0, 32)), 3, "SSTORE", 1, "SLOAD", 100, "ADD", 1, "SSTORE 32 0 LOG0 7 0 0 LOG1")
        acc = {A(1): (1, 50, code), SUB: (1, 20, outer), A(51): (1, 10, inner)}
        acc.update(SIDE)
        return case(F, world(acc), [tx(F, A(1), gas=900000)])

    def b_three(self, F, k1, k2, k3, o1, o2):
        end = {"ok": asm(32, 0, "RETURN"), "bad": b"\xfe", "rev": asm(32, 0, "REVERT")}
        c = [asm("CALLER 0 MSTORE", 1, "SLOAD", 1, "ADD", 1, "SSTORE", 5, 0, 0, "LOG1", SEND, "32 0 RETURN")]
        c.append(asm(1, "SLOAD", 10, "ADD", 1, "SSTORE", callseq(k3, A(52), 100000, 1, (0, 0), (0, 32)), 4, "SSTORE", end[o2]))
        c.append(asm(1, "SLOAD", 10, "ADD", 1, "SSTORE", callseq(k2, A(51), 300000, 2, (0, 0), (0, 32)), 2, "SSTORE", end[o1]))
        code = asm(callseq(k1, SUB, 600000, 3, (0, 0), (0, 32)), 3, "SSTORE 32 0 LOG0")
        acc = {A(1): (1, 50, code), SUB: (1, 20, c[2]), A(51): (1, 10, c[1]), A(52): (1, 5, c[0])}
        acc.update(SIDE)
        return case(F, world(acc), [tx(F, A(1), gas=1200000)])

    def b_static(self, F, w, path):
        wc = WRITES.get(w) or {"create2": asm(0, 0, 0, 0, "CREATE2"), "tstore": asm(1, 1, "TSTORE"), "tload": asm(1, "TLOAD")}[w]
        leaf = asm(wc, "1 0 MSTORE 32 0 RETURN")
        acc = {SUB: (1, 9, leaf)}
        n = SUB
        for j, k in enumerate(path):
            acc[A(70 + j)] = (1, 8, asm(callseq(k, n, 150000, 0, (0, 0), (32, 32)), "0 MSTORE 64 0 RETURN"))
            n = A(70 + j)
        code = asm(callseq("STATICCALL", n, 300000, 0, (0, 0), (0, 64)), "64 MSTORE 96 0 LOG0",
                   callseq("CALL", SUB, 100000, 0), 5, "SSTORE")
        acc[A(1)] = (1, 50, code)
        acc.update(SIDE)
        return case(F, world(acc), [tx(F, A(1), gas=600000)], {SUB: {1: 3}})

    def b_chain(self, F, w, k12, L):
        """Every path of calls of up to L links to one write: it happens exactly if no link is read-only."""
        wc = WRITES.get(w) or asm(1, 1, "TSTORE")
        for n in range(1, L - 1):
            for rest in itertools.product(avail(F), repeat=n):
                ks = k12 + rest
                acc = {SUB: (1, 9, asm(wc, "1 0 MSTORE CALLER 32 MSTORE CALLVALUE 64 MSTORE 96 0 RETURN"))}
                nxt = SUB
                for j, k in reversed(list(enumerate(ks[1:]))):
                    acc[A(70 + j)] = (1, 8, asm(callseq(k, nxt, 2**255 if F >= TANGERINE else 100000 * (L - j), 0, (0, 0), (0, 96)), "96 MSTORE 128 0 RETURN"))
                    nxt = A(70 + j)
                code = asm(callseq(ks[0], nxt, 2**255, 0, (0, 0), (0, 128)), "128 MSTORE 160 0 LOG0")
                acc[A(1)] = (1, 50, code)
                acc.update(SIDE)
                yield case(F, world(acc), [tx(F, A(1), gas=900000)], {SUB: {1: 3}})

    def b_static_create(self, F):
        # a creation inside a normal frame below a static frame is forbidden, beside it allowed
        code = asm(callseq("STATICCALL", SUB, 200000), "POP 0 0 0 CREATE 0 MSTORE 32 0 LOG0")
        acc = {A(1): (3, 50, code), SUB: (1, 5, asm("0 0 0 CREATE 0 MSTORE 32 0 RETURN"))}
        return case(F, world(acc), [tx(F, A(1), gas=600000)])

    def b_depth(self, F, kind, v):
        g = "GAS" if F >= TANGERINE else asm(400 * 25 if kind[:2] != "CR" else 100000, "GAS SUB")
        if kind in ("CREATE", "CREATE2"):
            # recursion by CALL, creation attempted at the boundary depths only
            leaf = asm(*(["0"] if kind == "CREATE2" else []), 0, 0, v, kind, "ISZERO 0 SLOAD ADD 0 SSTORE GAS 2 SSTORE")
            body = asm(1, "0 MLOAD ADD 0 MSTORE", )
            code = asm("0 CALLDATALOAD 1 ADD 0 MSTORE", 1021, "0 MLOAD LT", 0, "JUMPI")
            pre = asm("0 CALLDATALOAD 1 ADD 0 MSTORE", 1022, "0 MLOAD LT ISZERO")
            # if depth counter <= 1022 skip the leaf
            rest = asm("JUMPDEST 0 0 32 0 0 ADDRESS", g, "CALL POP")
            off = len(pre) + 4
            dest = off + len(leaf)
            prog = pre + b"\x61" + dest.to_bytes(2, "big") + b"\x57" + leaf + rest
            code = prog
        else:
            val = [v] if kind in ("CALL", "CALLCODE") else []
            code = asm("0 CALLDATALOAD 1 ADD 0 MSTORE", 0, 0, 32, 0, *val, "ADDRESS", g, kind,
                       "0 MSTORE", *([] if kind == "STATICCALL" else ["0 MLOAD ISZERO 0 SLOAD ADD 0 SSTORE GAS 1 SSTORE"]),
                       *(["0 MLOAD ISZERO", "32 MSTORE 64 0 RETURN"] if kind == "STATICCALL" else []))
        gas = 10**14 if F >= TANGERINE else 40_000_000
        if F >= TANGERINE and kind in ("CREATE", "CREATE2"):
            gas = 10**14
        acc = {A(1): (1, 50, code), S1: (0, 10**40, b"")}
        c = case(F, world(acc), [tx(F, A(1), gas=gas)], bl=block(F, gas_limit=2 * 10**14))
        return c

    def b_gas(self, F, kind, v, th):
        """Available gas sweep: what the callee receives and what comes back."""
        callee = asm("GAS 0 MSTORE 32 0 RETURN")
        out = []
        for req in (2**256 - 1, 5000, 0) if F >= TANGERINE else (5000, 0):
            code = asm(callseq(kind, SUB, req, v, (0, 0), (0, 32)), "32 MSTORE GAS 64 MSTORE 96 0 LOG0")
            lo = 21000 + (9000 if v and kind in ("CALL", "CALLCODE") else 0)
            for g in list(range(lo + 5000, lo + 5130 if not th else lo + 9000, 1 if th else 3)) + [lo + 20000, lo + 100000]:
                out.append(tx(F, A(1), gas=g, nonce=len(out)))
            yield_case = case(F, self.mkworld(F, code, callee, bal=10**6), out)
            out = []
            yield yield_case

    def b_mem(self, F, kind):
        offs = [0, 1, 32, 33, 1000, 2**32, 2**64 - 1, 2**64, 2**255, 2**256 - 1]
        for io, is_, oo, os_ in itertools.product(offs, (0, 1, 33), (0, 5, 2**12, 2**256 - 1), (0, 1, 64)):
            if io and oo and is_ and os_ and io > 33:
                continue
            code = asm(callseq(kind, SUB, 3000, 0, (io, is_), (oo, os_)), "0 MSTORE GAS 32 MSTORE MSIZE 64 MSTORE 96 0 LOG0")
            yield case(F, self.mkworld(F, code, behaviours(F)["echo"]), [tx(F, A(1), gas=150000)])

    def b_self(self, F, kind):
        """Calls to oneself, to the caller and to precompile-like addresses with value aliasing."""
        for to in (A(1), S1, COINBASE, (4).to_bytes(20, "big"), (1).to_bytes(20, "big"), bytes(20), (0x13).to_bytes(20, "big")):
            for v in (0, 1, 50):
                for hi in (0, 1):
                    tgt = addr_int(to) | hi << 200
                    code = asm("CALLDATASIZE", 0, "SLOAD ADD 0 SSTORE 3 0 SLOAD LT ISZERO 64 MSTORE",
                               callseq(kind, tgt, 60000, v, (0, 7), (0, 7)), "96 MSTORE ADDRESS BALANCE 128 MSTORE GAS 160 MSTORE 192 0 LOG0")
                    yield case(F, self.mkworld(F, code, b""), [tx(F, A(1), b"\x01\x02", gas=400000, value=1)])

    def b_multi(self, F):
        """Successive calls: return buffer replacement, value depletion, log and refund order."""
        ks = avail(F)
        bs = ["ret5", "ret64", "bad", "none", "gas"] + (["rev"] if F >= BYZANTIUM else [])
        be = behaviours(F)
        for b1, b2 in itertools.product(bs, bs):
            for k1, k2 in itertools.product(ks, ks):
                rd = asm("RETURNDATASIZE 0x300 MSTORE") if F >= BYZANTIUM else b""
                rd2 = asm("RETURNDATASIZE 0x320 MSTORE") if F >= BYZANTIUM else b""
                code = asm(callseq(k1, SUB, 30000, 30, (0, 4), (0, 64)), "0x340 MSTORE", rd, callseq(k2, A(51), 30000, 30, (0, 4), (96, 8)),
                           "0x360 MSTORE", rd2, "0x400 0 LOG0")
                acc = self.mkworld(F, code, be[b1])
                if be[b2] is not None:
                    acc[A(51)] = (1, 5, be[b2])
                yield case(F, acc, [tx(F, A(1), gas=300000)])

    def b_createret(self, F, op, prev):
        """Return buffer, memory, stack and gas after a creation, whatever the buffer held before."""
        inits = {"empty": b"", "code": initcode(b"\x00\x01\x02"), "ret0": asm(0, 0, "RETURN"), "stop": asm("STOP"), "bad": b"\xfe", "under": asm("POP"),
                 "oog": asm(1, 2**40, "MSTORE"), "ef": asm(mstore_code(b"\xef"), 1, 0, "RETURN"), "sd": asm("ADDRESS SELFDESTRUCT"),
                 "callee": asm(callseq("CALL", A(62), 20000, 0, (0, 0), (0, 32)), "32 0 RETURN"),
                 "callee_stop": asm(callseq("CALL", A(62), 20000, 0, (0, 0), (0, 32)))}
        if F >= BYZANTIUM:
            inits.update({f"rev{n}": asm(mstore_code(b"\xbb" * 40), n, 0, "REVERT") for n in (0, 1, 32, 40)})
            inits["rev_callee"] = asm(callseq("CALL", A(62), 20000, 0, (0, 0), (0, 32)), "7 0 REVERT")
        if F >= SPURIOUS:
            inits["toobig"] = asm(0x6001, 0, "RETURN")
        for name, ic in inits.items():
            for val in (0, 1, 51):
                code = asm(callseq("CALL", SUB, 30000, 0, (0, 0), (0x200, 8)), "0x300 MSTORE", mstore_code(ic or b"\x00", 0),
                           *([5] if op == "CREATE2" else []), len(ic), 0, val, op, after(F),
                           *([5] if op == "CREATE2" else []), len(ic), 0, val, op, after(F))  # the second CREATE2 collides
                acc = self.mkworld(F, code, behaviours(F)[prev])
                yield case(F, acc, [tx(F, A(1), gas=700000)])
        if F >= BYZANTIUM:
            # the creation happens in a callee: its caller sees only the callee's own output
            for name, ic in inits.items():
                mid = asm(mstore_code(ic or b"\x00", 0), *([5] if op == "CREATE2" else []), len(ic), 0, 0, op, "0 MSTORE")
                for end in (asm("STOP"), asm(3, 0, "RETURN"), asm(3, 0, "REVERT"), b"\xfe"):
                    for k in avail(F):
                        code = asm(callseq(k, SUB, 300000, 0, (0, 0), (0x200, 8)), after(F))
                        yield case(F, self.mkworld(F, code, mid + end), [tx(F, A(1), gas=700000)])


if __name__ == "__main__":
    raise SystemExit(main(C()))
