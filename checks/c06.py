"""C06: contract creation by transaction, CREATE and CREATE2."""
import itertools
from checkbase import *


def addr_create(sender, nonce):
    return prim.keccak(prim.rlp([sender, nonce]))[12:]


def addr_create2(sender, salt, init):
    return prim.keccak(b"\xff" + sender + salt.to_bytes(32, "big") + prim.keccak(init))[12:]


def inits(F):
    R = asm("0 SLOAD 1 ADD 0 SSTORE")
    d = {
        "empty": b"", "ret0": asm(0, 0, "RETURN"), "ret1": asm(1, 0, "RETURN"), "run": initcode(R),
        "ret32": asm(32, 0, "RETURN"), "max": asm(24576, 0, "RETURN"), "max1": asm(24577, 0, "RETURN"),
        "ef": asm(b"\x60\xef", 0, "MSTORE8 1 0 RETURN"), "ef00": asm(b"\x60\xef", 0, "MSTORE8 40 0 RETURN"),
        "ef_second": asm(b"\x60\xef", 1, "MSTORE8 2 0 RETURN"), "fe": asm(b"\x60\xfe", 0, "MSTORE8 1 0 RETURN"),
        "bad": asm(5, 5, "SSTORE", b"\xfe"), "badjump": asm(3, "JUMP"), "oog": asm(0, 2**40, "MSTORE"),
        "store": asm(5, 1, "SSTORE", 6, 2, "SSTORE 1 SLOAD 0 MSTORE 32 0 RETURN"),
        "log": asm(1, 2, 0, 0, "LOG2", 1, 0, "RETURN"),
        "ctx": asm("CALLER 0 SSTORE ADDRESS 1 SSTORE CALLVALUE 2 SSTORE CALLDATASIZE 3 SSTORE CODESIZE 4 SSTORE ADDRESS EXTCODESIZE 5 "
                   "SSTORE ORIGIN 6 SSTORE ADDRESS BALANCE 7 SSTORE 0 CALLDATALOAD 8 SSTORE CALLER BALANCE 9 SSTORE 10 0 RETURN"),
        "sd": asm(addr_int(A(61)), "SELFDESTRUCT"), "sdself": asm("ADDRESS SELFDESTRUCT"),
        "sdcaller": asm("CALLER SELFDESTRUCT"),
        "callback": asm(0, 0, 0, 0, 0, "CALLER 60000 CALL 0 SSTORE 1 0 RETURN"),
        "send": asm(0, 0, 0, 0, 1, addr_int(A(60)), 0, "CALL 0 SSTORE 1 0 RETURN"),
        "nest": asm(mstore_code(initcode(R), 0), len(initcode(R)), 0, 1, "CREATE 0 SSTORE 3 0 RETURN"),
        "nestbad": asm(mstore_code(b"\xfe", 0), 1, 0, 0, "CREATE 0 SSTORE 3 0 RETURN"),
    }
    if F >= BYZANTIUM:
        d["rev"] = asm(7, 1, "SSTORE", mstore_code(b"\xcc" * 40), 40, 0, "REVERT")
        d["rev0"] = asm(0, 0, "REVERT")
        d["nestrev"] = asm(mstore_code(initcode(R), 0), len(initcode(R)), 0, 1, "CREATE 0 MSTORE 32 0 REVERT")
    if F >= CONSTANTINOPLE:
        d["nest2"] = asm(mstore_code(initcode(R), 0), 9, len(initcode(R)), 0, 1, "CREATE2 0 SSTORE 3 0 RETURN")
        d["selfhash"] = asm("ADDRESS EXTCODEHASH 0 SSTORE 1 0 RETURN")
    return d


def creator(F, op, init, value, salt=3, tail=b"", calls=()):
    """Contract creating from calldata-independent init code; logs what it can observe."""
    s = [salt] if op == "CREATE2" else []
    obs = ["0x800 MSTORE GAS 0x820 MSTORE ADDRESS BALANCE 0x840 MSTORE 0x800 MLOAD EXTCODESIZE 0x860 MSTORE",
           "0x800 MLOAD BALANCE 0x880 MSTORE GAS 0x8A0 MSTORE"]
    if F >= BYZANTIUM:
        obs += ["RETURNDATASIZE 0x8C0 MSTORE RETURNDATASIZE 0 0x8E0 RETURNDATACOPY"]
    n = len(init)
    # the init code is appended to the creator and copied from there
    def body(off):
        return asm(n, b"\x62" + off.to_bytes(3, "big"), 0, "CODECOPY", *s, n, 0, value, op, *obs, 0x200, 0x800, "LOG0", tail, "STOP")
    off = len(body(0))
    return body(off) + init


class C(DiffCheck):
    pid = "C06"
    rule = ("creation path (transaction / CREATE / CREATE2, also below DELEGATECALL and inside init code) x init-code behaviour x "
            "endowment x pre-state of the target address x creator nonce; code-deposit gas sweeps; size limits at the boundary; "
            "creation-destruction-recreation sequences over 1-3 transactions; all forks.  The smaller families again two calls further down.  A state is a distinct model post-state")
    bounds = {"quick": "as in rule", "thorough": "full products, all gas limits of the sweeps"}

    def ops(self, F):
        return ["CREATE"] + (["CREATE2"] if F >= CONSTANTINOPLE else [])

    def cases(self, tier):
        th = tier == "thorough"
        for F in ALL:
            for i in inits(F):
                for v in (0, 1, 50):
                    for k in range(evm.max_kind(F) + 1):
                        if k < 3 and (k == 0 or v == 0 or th):
                            yield ("tx", F, i, v, "fresh", k)
                for op in self.ops(F):
                    for v in (0, 1, 50, 51):
                        for g in (400_000, 6_000_000):
                            yield ("op", F, op, i, v, "fresh", 1, g)
            for i in ("run", "empty", "bad", "sd", "store", "ctx"):
                for pre in ("balance", "nonce", "code", "storage", "empty", "codebal", "noncesto"):
                    for v in (0, 1):
                        yield ("tx", F, i, v, pre, 0)
                        for op in self.ops(F):
                            yield ("op", F, op, i, v, pre, 1, 400_000)
                for n in (0, 1, 127, 128, 255, 256, 65535, 65536, 2**32, 2**64 - 2, 2**64 - 1):
                    for op in self.ops(F):
                        yield ("op", F, op, i, 0, "fresh", n, 400_000)
                    if n < 2**64 - 1:
                        yield ("txnonce", F, i, n)
            for i in ("run", "ret32", "bad", "store", "sd", "ef", "empty") + (("rev",) if F >= BYZANTIUM else ()):
                yield ("sweep", F, i, th)
                for op in self.ops(F):
                    yield ("opsweep", F, op, i, th)
            for n in (49151, 49152, 49153, 24576, 24577, 32, 33, 0):
                for op in self.ops(F) + ["TX"]:
                    for fill in (0, 1):
                        yield ("initsize", F, op, n, fill)
            for n in (24575, 24576, 24577):
                for g in range(0, 5):
                    yield ("deposit", F, n, g)
            for seq in itertools.product(("c", "k", "t", "x"), repeat=3 if not th else 4):
                for op in self.ops(F):
                    yield ("re", F, op, "".join(seq), 0)
                    yield ("re", F, op, "".join(seq), 1)
            for op in self.ops(F):
                for i in ("run", "ctx", "bad", "sd") + (("rev",) if F >= BYZANTIUM else ()):
                    if F >= HOMESTEAD:
                        yield ("deleg", F, op, i)
                    yield ("twice", F, op, i)
                    yield ("undo", F, op, i)
            if F >= CONSTANTINOPLE:
                for salt in (0, 1, 255, 2**128, 2**256 - 1):
                    yield ("salt", F, salt)

    def deep(self, d):
        return d[0] in ("op", "re", "deleg", "twice", "undo", "salt")

    def build(self, d):
        return getattr(self, "b_" + d[0])(*d[1:])

    def pre(self, F, na, pre):
        acc, sto = {}, {}
        if pre == "balance":
            acc[na] = (0, 9, b"")
        elif pre == "nonce":
            acc[na] = (1, 0, b"")
        elif pre == "code":
            acc[na] = (0, 0, b"\x00")
        elif pre == "codebal":
            acc[na] = (1, 4, b"\x60\x00")
        elif pre == "storage":
            acc[na] = (0, 1, b"")
            sto[na] = {1: 7, 9: 9}
        elif pre == "noncesto":
            acc[na] = (2, 0, b"")
            sto[na] = {1: 7}
        elif pre == "empty" and F < PARIS:
            acc[na] = (0, 0, b"")
        return acc, sto

    SIDE = {A(60): (0, 2, b"")}

    def b_tx(self, F, i, v, pre, kind):
        na = addr_create(S1, 0)
        acc, sto = self.pre(F, na, pre)
        acc.update(self.SIDE)
        ini = inits(F)[i]
        return case(F, world(acc), [tx(F, b"", ini, value=v, gas=6_000_000, kind=kind),
                                    tx(F, na, value=0, nonce=1, gas=100_000)], sto)

    def b_op(self, F, op, i, v, pre, nonce, g):
        ini = inits(F)[i]
        na = addr_create(A(1), nonce) if op == "CREATE" else addr_create2(A(1), 3, ini)
        acc, sto = self.pre(F, na, pre)
        acc.update(self.SIDE)
        acc[A(1)] = (nonce, 50, creator(F, op, ini, v))
        return case(F, world(acc), [tx(F, A(1), gas=g), tx(F, na, nonce=1, gas=100_000)], sto)

    def b_txnonce(self, F, i, n):
        acc = world()
        acc[S1] = (n, 10**20, b"")
        return case(F, acc, [tx(F, b"", inits(F)[i], nonce=n, value=1)])

    def b_sweep(self, F, i, th):
        ini = inits(F)[i]
        t0 = tx(F, b"", ini, gas=3_000_000)
        _, _, info = diff.run_case(case(F, world(), [t0]))
        r = info[0]
        ig = evm.intrinsic(F, diff.make_tx(F, t0)[0])[0]
        hi = r["gas_before_refund"] if r["ok"] else ig + 30000
        step = 1 if th else max(1, (hi - ig) // 40)
        pts = sorted(set(range(ig - 1, hi + 3, step)) | {hi - 1, hi, hi + 1, hi - 200, hi - 199, ig, ig + 1, hi - 6400, hi - 6399} | set(range(max(ig, hi - 260), hi, 20)))
        for g in pts:
            if g > 0:
                yield case(F, world(), [tx(F, b"", ini, gas=g, value=1)])

    def b_opsweep(self, F, op, i, th):
        ini = inits(F)[i]
        acc = world({A(1): (1, 50, creator(F, op, ini, 1))})
        _, _, info = diff.run_case(case(F, acc, [tx(F, A(1), gas=500000)]))
        hi = info[0]["gas_before_refund"]
        for g in range(21000, hi + 800, 1 if th else max(1, (hi - 21000) // 80)):
            yield case(F, acc, [tx(F, A(1), gas=g)])

    def b_initsize(self, F, op, n, fill):
        if op == "TX":
            ini = bytes([0x5B]) * n if fill else bytes(n)
            return case(F, world(), [tx(F, b"", ini, gas=16_000_000), tx(F, b"", b"", nonce=1, gas=100_000)])
        s = [5] if op == "CREATE2" else []
        f = asm(mstore_code(b"\x5b" * 31, 0)) if fill else b""
        code = asm(f, *s, n, 0, 0, op, "0 MSTORE GAS 32 MSTORE 64 0 LOG0")
        return case(F, world({A(1): (1, 50, code)}), [tx(F, A(1), gas=16_000_000)])

    def b_deposit(self, F, n, g):
        ini = asm(n, 0, "RETURN")
        base = 21000 + 32000 * (F >= HOMESTEAD) + sum(4 if b == 0 else 16 if F >= ISTANBUL else 68 for b in ini)
        base += 2 if F >= SHANGHAI else 0
        w = (n + 31) // 32
        need = base + 6 + 3 * w + w * w // 512 + 200 * n
        return case(F, world(), [tx(F, b"", ini, gas=need + (-201, -200, -1, 0, 1)[g])])

    def b_re(self, F, op, seq, one):
        """c: create child, k: kill child by call, t: touch child (call with value), x: child stores.
        one=0: each step its own transaction; 1: all in one transaction."""
        run = asm("CALLDATASIZE ISZERO", b"\x60\x0a\x57", addr_int(A(61)), "SELFDESTRUCT JUMPDEST 0 SLOAD 1 ADD 0 SSTORE STOP")
        # jump target computed: build precisely
        head = asm("CALLDATASIZE ISZERO")
        sdp = asm(addr_int(A(61)), "SELFDESTRUCT")
        dest = len(head) + 3 + len(sdp)
        run = head + b"\x60" + bytes([dest]) + b"\x57" + sdp + asm("JUMPDEST 0 SLOAD 1 ADD 0 SSTORE STOP")
        ini = initcode(run)
        s = [3] if op == "CREATE2" else []
        c2 = op == "CREATE2"
        na = addr_create2(A(1), 3, ini) if c2 else addr_create(A(1), 1)
        mk = asm(mstore_code(ini, 0), *s, len(ini), 0, 1, op, "0x300 MSTORE 32 0x300 LOG0")
        kill = asm(0, 0, 1, 0, 0, addr_int(na), 60000, "CALL 0x300 MSTORE 32 0x300 LOG0")
        touch = asm(0, 0, 0, 0, 0, addr_int(na), 60000, "CALL 0x300 MSTORE 32 0x300 LOG0")
        send = asm(0, 0, 0, 0, 2, addr_int(na), 60000, "CALL 0x300 MSTORE", addr_int(na), "EXTCODESIZE 0x320 MSTORE 64 0x300 LOG0")
        parts = {"c": mk, "k": kill, "t": send, "x": touch}
        if one:
            acc = world({A(1): (1, 50, asm(*[parts[x] for x in seq]))})
            return case(F, acc, [tx(F, A(1), gas=2_000_000), tx(F, na, nonce=1, gas=100_000)])
        # dispatch on calldata size: the creator delegates to helper pieces by jump
        code = b""
        order = "cktx"
        disp_len = sum(len(asm(i + 1, "CALLDATASIZE EQ")) + 4 for i in range(4))
        pos = disp_len + 1
        disp, blocks = b"", b"\x00"
        for i, x in enumerate(order):
            disp += asm(i + 1, "CALLDATASIZE EQ") + b"\x61" + pos.to_bytes(2, "big") + b"\x57"
            b = b"\x5b" + parts[x] + b"\x00"
            blocks += b
            pos += len(b)
        acc = world({A(1): (1, 50, disp + blocks)})
        return case(F, acc, [tx(F, A(1), b"\x01" * (order.index(x) + 1), nonce=j, gas=1_000_000) for j, x in enumerate(seq)])

    def b_deleg(self, F, op, i):
        ini = inits(F)[i]
        code = asm(0, 0, 0, 0, addr_int(A(2)), "GAS 10000 SWAP1 SUB", "DELEGATECALL 0 MSTORE 32 0 LOG0")
        acc = world({A(1): (4, 50, code), A(2): (9, 60, creator(F, op, ini, 1))})
        return case(F, acc, [tx(F, A(1), value=2)])

    def b_twice(self, F, op, i):
        """Create twice in one frame (CREATE2: collision with itself), after the first possibly failed."""
        ini = inits(F)[i]
        s = [3] if op == "CREATE2" else []
        off = 0x400
        one = asm(*s, len(ini), off, 1, op)
        g = asm("GAS")
        code = asm(mstore_code(ini, off), one, "0 MSTORE GAS 32 MSTORE", one, "64 MSTORE GAS 96 MSTORE 0 MLOAD BALANCE 128 MSTORE GAS 160 MSTORE 192 0 LOG0")
        return case(F, world({A(1): (1, 50, code)}), [tx(F, A(1)), tx(F, A(1), nonce=1)])

    def b_undo(self, F, op, i):
        """Creation inside a frame that then fails; the outer frame repeats it."""
        ini = inits(F)[i]
        acc = {A(2): (1, 50, creator(F, op, ini, 1, tail=b"\xfe")), A(3): (1, 50, creator(F, op, ini, 1))}
        code = asm(0, 0, 0, 0, 0, addr_int(A(2)), 200000, "CALL", 0, 0, 0, 0, 0, addr_int(A(3)), 200000, "CALL 32 MSTORE 0 MSTORE 64 0 LOG0")
        acc[A(1)] = (1, 0, code)
        return case(F, world(acc), [tx(F, A(1))])

    def b_salt(self, F, salt):
        ini = inits(F)["run"]
        return case(F, world({A(1): (1, 50, creator(F, "CREATE2", ini, 1, salt))}), [tx(F, A(1))])


if __name__ == "__main__":
    raise SystemExit(main(C()))
