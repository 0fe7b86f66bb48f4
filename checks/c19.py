"""C19: system calls, withdrawals and requests, exactly once and in order."""
import itertools
from explore import Check, Result, main
import asm as _asm
from asm import push
from drv import real
from drv.blocks import Pair, genesis
from scen import A, ETH, S1, S2, NOBODY, K1, K2
from c17 import mk, H0
from ref import chain
from ref.chain import BEACON, CREQ, DEPOSIT, DEPTOPIC, HISTORY, SYS, WREQ
from ref.forks import *  # noqa



def asm(*it):
    """Assemble; byte strings of address or word length are pushed."""
    return _asm.asm(*[push(x) if isinstance(x, bytes) and len(x) in (20, 32) else x for x in it])


J = A(1)       # journal: appends caller, call data size, call data word to its storage
JCODE = asm(0, "SLOAD", "DUP1", 1, "ADD", 0, "SSTORE", 3, "MUL", 1, "ADD", "CALLER", "DUP2", "SSTORE", 1, "ADD", "CALLDATASIZE", "DUP2", "SSTORE",
            1, "ADD", 0, "CALLDATALOAD", "SWAP1", "SSTORE")
WATCH = bytes([0x3A]) * 20
CALLJ = asm(0, "CALLDATALOAD", 0, "MSTORE", 0, 0, "CALLDATASIZE", 0, 0, J, "GAS", "CALL", "POP")


def jcall(tag):
    return asm(tag, 0, "MSTORE", 0, 0, 32, 0, 0, J, "GAS", "CALL", "POP")


# real EIP-4788 / EIP-2935 programs
C4788 = bytes.fromhex("3373fffffffffffffffffffffffffffffffffffffffe14604d57602036146024575f5ffd5b5f35801560495762001fff810690815414603c575f5ffd5b62001fff01545f5260205ff35b5f5ffd5b62001fff42064281555f359062001fff015500")
C2935 = bytes.fromhex("3373fffffffffffffffffffffffffffffffffffffffe14604657602036036042575f35600143038111604257611fff81430311604257611fff9006545f5260205ff35b5f5ffd5b5f35611fff60014303065500")


def codes():
    ret = lambda n: asm(0x11223344 << 200, 0, "MSTORE", 0x55 << 240, 32, "MSTORE", n, 0, "RETURN")
    d = {"absent": None, "nocode": b"", "stop": b"\x00", "c4788": C4788, "c2935": C2935, "journal": CALLJ,
         "env": asm("CALLER", 1, "SSTORE", "ORIGIN", 2, "SSTORE", "GASPRICE", 3, "SSTORE", "CALLVALUE", 4, "SSTORE", "CALLDATASIZE", 5, "SSTORE", 0, "CALLDATALOAD", 6, "SSTORE",
                    "GAS", 7, "SSTORE", "ADDRESS", 8, "SSTORE", "NUMBER", 9, "SSTORE", "BASEFEE", 10, "SSTORE", "COINBASE", 11, "SSTORE", 1, "NUMBER", "SUB", "BLOCKHASH", 12, "SSTORE",
                    WATCH, "BALANCE", 13, "SSTORE", 0, "BLOBHASH", 14, "SSTORE", "GASLIMIT", 15, "SSTORE", 32, "CALLDATALOAD", 16, "SSTORE"),
         "count": asm(0, "SLOAD", 1, "ADD", 0, "SSTORE", 0, "TLOAD", 1, "SSTORE", 7, 0, "TSTORE"),
         "ret0": ret(0), "ret1": ret(1), "ret76": ret(76), "ret33": ret(33), "ret1000": ret(1000),
         "retcount": asm(0, "SLOAD", 1, "ADD", "DUP1", 0, "SSTORE", 0, "MSTORE", 0, "SLOAD", 31, "SUB", "DUP1", 32, "SUB", "SWAP1", "RETURN"),
         "retbal": asm(WATCH, "BALANCE", 0, "MSTORE", 32, 0, "RETURN"), "retdata": asm("CALLDATASIZE", 0, "MSTORE", 32, 0, "RETURN"),
         "revert": asm(9, 0, "SSTORE", 5, 0, "REVERT"), "invalid": asm(9, 0, "SSTORE", "INVALID"), "loop": asm("JUMPDEST", 100_000, 0, "LOG0", 0, "JUMP"), "under": asm("POP"),
         "retrev": asm(jcall(99), 1, 0, "MSTORE", 32, 0, "REVERT"), "log": asm(7, 0, "MSTORE", DEPTOPIC, 32, 0, "LOG1"),
         "deplog": None, "gas": asm("GAS", 0, "SSTORE", 100_000, 0, "KECCAK", "POP", "GAS", 1, "SSTORE"),
         "burn": asm("JUMPDEST", 100_000, 0, "LOG0", 1_000_000, "GAS", "GT", 0, "JUMPI", "GAS", 0, "MSTORE", 32, 0, "RETURN"), "big": asm(0x11, 0, "MSTORE", 200_000, 0, "RETURN"),
         "create": asm(0x60016000F3 << 216, 0, "MSTORE", 5, 0, 0, "CREATE", 0, "SSTORE"), "sd": asm(WATCH, "SELFDESTRUCT"),
         "pay": asm(0, 0, 0, 0, 1, WATCH, 50_000, "CALL", 0, "SSTORE"), "callpre": asm(3, 0, "MSTORE", 32, 0, 32, 0, 4, "GAS", "STATICCALL", "POP", 32, 0, "RETURN"),
         "deleg": b"\xef\x01\x00" + A(9), "deleg0": b"\xef\x01\x00" + A(8), "delegpre": b"\xef\x01\x00" + bytes(19) + b"\x04", "ef": b"\xef"}
    del d["deplog"]
    return d


CODES = codes()
NINE = asm("ADDRESS", 0, "SSTORE", 1, 0, "MSTORE", 5, 27, "RETURN")


def deposit(i=0, **kw):
    f = lambda n, b: bytes([(b + j * 7) % 256 for j in range(n)])
    pk, wc, am, sg, ix = f(48, i + 1), f(32, i + 2), f(8, i + 3), f(96, i + 4), f(8, i + 5)
    w = lambda n: n.to_bytes(32, "big")
    return b"".join([w(160), w(256), w(320), w(384), w(512), w(48), pk, bytes(16), w(32), wc, w(8), am, bytes(24), w(96), sg, w(8), ix, bytes(24)])


# emits its call data (minus one byte k) as a log with k topics
DEPCODE = asm(1, "CALLDATASIZE", "SUB", "DUP1", 1, 0, "CALLDATACOPY", 0, "CALLDATALOAD", 0, "BYTE")
_n = len(DEPCODE)


def depcode():
    """first call data byte: 0 -> LOG1 DEPTOPIC, 1 -> LOG0, 2 -> LOG1 other, 3 -> LOG2 DEPTOPIC,x, 4 -> LOG2 x,DEPTOPIC, 5 -> LOG1 then INVALID, 6 -> twice."""
    def arm(k, body, nxt):
        # stack: size, selector
        pre = asm("DUP1", k, "EQ", "ISZERO") + b"\x61" + nxt.to_bytes(2, "big") + asm("JUMPI", "POP")
        return pre + body + asm("STOP", "JUMPDEST")
    T = DEPTOPIC
    bodies = [asm(T, "SWAP1", 0, "LOG1"), asm(0, "LOG0"), asm(T[::-1], "SWAP1", 0, "LOG1"), asm(5, T, "DUP3", 0, "LOG2"), asm(T, 5, "DUP3", 0, "LOG2"),
              asm(T, "SWAP1", 0, "LOG1", "INVALID"), asm("DUP1", T, "SWAP1", 0, "LOG1", T, "SWAP1", 0, "LOG1")]
    out = DEPCODE
    for k, b in enumerate(bodies):
        nxt = 0
        for _ in range(3):
            a = arm(k, b, nxt)
            nxt = len(out) + len(a) - 1
        out += a
    return out


DEP = depcode()
FWD = asm("CALLDATASIZE", 0, 0, "CALLDATACOPY", 0, 0, "CALLDATASIZE", 0, 0, DEPOSIT, "GAS", "CALL", "POP")
TWO = asm("CALLDATASIZE", 0, 0, "CALLDATACOPY") + asm(0, 0, "CALLDATASIZE", 0, 0, DEPOSIT, "GAS", "CALL", "POP") * 2


class C(Check):
    pid = "C19"
    rule = ("every fork from Shanghai: each system contract x every program of a set (absent, no code, real programs, environment recorders, counters, every "
            "return length, revert, failure, exhaustion, logs, creation, delegation), pairs of programs; orders observed through a shared journal contract and "
            "balance readers; deposit logs with every header word and length changed, wrong topics and address, several logs per transaction, nested, failed; "
            "withdrawal lists of length <= 3 over addresses x amounts; two blocks in a row; wrong request hashes; parent beacon root and parent hash values.  "
            "State: distinct (header, verdict)")
    bounds = {"quick": "pairs of programs on each adjacent pair of system contracts, withdrawal lists to length 2", "thorough": "all pairs, withdrawal lists to length 3"}
    assumptions = ["a system contract that creates an account which destroys itself in the same system call is not explored (undefined by the protocol)"]

    def systems(self, F):
        return [BEACON] + ([HISTORY, WREQ, CREQ] if F >= PRAGUE else [])

    def cases(self, tier):
        th = tier == "thorough"
        for F in (CANCUN, PRAGUE, OSAKA):
            names = sorted(CODES)
            for s in range(len(self.systems(F))):
                for c in names:
                    yield ("sys", F, ((s, c),))
            pairs = [(2, 3), (0, 1)] if F >= PRAGUE else []
            if th and F >= PRAGUE:
                pairs += [(0, 2), (1, 2), (1, 3), (0, 3)]
            for s, t in pairs:
                for c, e in itertools.product(names, repeat=2):
                    yield ("sys", F, ((s, c), (t, e)))
            if F >= PRAGUE:
                for cs in itertools.product(("journal", "env", "absent", "revert"), repeat=4):
                    yield ("sys", F, tuple(enumerate(cs)))
                yield ("dep1", F)
                for w in range(18):
                    yield ("depw", F, w)
                for n in (0, 1, 31, 32, 575, 577, 608, 544, 1152):
                    yield ("deplen", F, n)
                for seq in itertools.product(range(7), repeat=3 if th else 2):
                    yield ("depseq", F, seq)
                yield ("reqhash", F)
            for root in (bytes(32), b"\xff" * 32, bytes(31) + b"\x01"):
                for c in ("c4788", "env", "journal", "c2935"):
                    yield ("root", F, root, c)
            yield ("ring", F)
        for F in (SHANGHAI, CANCUN, PRAGUE, OSAKA):
            al = [(a, m) for a in range(10) for m in range(5)]
            for x in al:
                yield ("wd", F, (x,))
            for x in itertools.product(al, repeat=2):
                yield ("wd", F, x)
            if th:
                al2 = [(a, m) for a in range(10) for m in (0, 1, 4)]
                for x in itertools.product(al2, repeat=3):
                    yield ("wd", F, x)
            yield ("wdorder", F)

    def run(self, d):
        P = getattr(self, "r_" + d[0])(*d[1:])
        return Result(P.digs, P.n, P.n)

    def acc(self, F, over=(), extra=None):
        acc = {S1: (0, 10**6 * ETH, b""), S2: (0, 10**6 * ETH, b""), J: (1, 0, JCODE), A(9): (1, 0, NINE), A(2): (1, 0, asm(jcall(0x7)))}
        if F >= PRAGUE:
            for a in (WREQ, CREQ):
                acc[a] = (1, 5, b"\x00")
            acc[DEPOSIT] = (1, 0, DEP)
            acc[A(3)] = (1, 0, FWD)
            acc[A(4)] = (1, 0, TWO)
        for a, c in over:
            if c is None:
                acc.pop(a, None)
            else:
                acc[a] = (1, 5, c)
        acc.update(extra or {})
        return acc

    def pair(self, F, acc, **kw):
        kw.setdefault("number", 300)
        bl = [genesis(F, **kw)]
        from drv.blocks import child
        for i in range(3):
            bl.append(child(F, bl[-1]))
        return Pair(F, acc, {}, [(b, [], [], []) for b in bl])

    def bad_hash(self, P, b):
        if "requests_hash" in b[0]:
            P.add((dict(b[0], requests_hash=bytes(32)), *b[1:]), expect=False)

    def r_sys(self, F, over):
        S = self.systems(F)
        P = self.pair(F, self.acc(F, [(S[s], CODES[c]) for s, c in over]))
        nn = {}
        for i in range(2):
            ts, nn2 = mk(F, [dict(to=A(2), gas=400_000), dict(to=S[over[0][0]], key=K2, gas=400_000)] if i else [dict(to=A(2), gas=400_000)], nn)
            b = P.build(P.txs(ts), wds=[(1, 2, WATCH, 10 + i)])
            P.add(b)
            if P.last is None:
                nn = nn2
            else:
                # the same block with the hash of no requests, and of each plausible list
                import hashlib
                if F >= PRAGUE:
                    P.add((dict(b[0], requests_hash=hashlib.sha256(b"").digest()), *b[1:]), expect=False)
        return P

    def r_root(self, F, root, c):
        over = [(BEACON, CODES[c])] + ([(HISTORY, CODES[c])] if F >= PRAGUE else [])
        P = self.pair(F, self.acc(F, over))
        for i in range(3):
            b = P.build(beacon_root=root if i % 2 == 0 else bytes([i]) * 32)
            # state computed with another root must be refused
            if c != "c2935":
                P.add((dict(b[0], beacon_root=bytes([0x77]) * 32), *b[1:]), expect=False)
            P.add(b, expect=True)
        return P

    def r_ring(self, F):
        """Real contracts over many blocks, read back by transactions."""
        rd = asm("CALLDATASIZE", 0, 0, "CALLDATACOPY", 32, 64, "CALLDATASIZE", 0, 0, BEACON, "GAS", "CALL", "NUMBER", "SSTORE", 64, "MLOAD", "TIMESTAMP", "SSTORE")
        rh = asm(64, 0, 0, "CALLDATACOPY", 32, 64, 32, 0, 0, HISTORY, "GAS", "CALL", "NUMBER", "SSTORE", 64, "MLOAD", "TIMESTAMP", "SSTORE")
        P = self.pair(F, self.acc(F, [(BEACON, C4788)] + ([(HISTORY, C2935)] if F >= PRAGUE else []), {A(5): (1, 0, rd), A(6): (1, 0, rh)}), number=8185, timestamp=8191 * 1000 - 100)
        nn = {}
        for i in range(20):
            h = P.m.blocks[-1][0]
            specs = []
            for back in (0, 1, 2, 5):
                t = P.m.blocks[-1 - back][0] if back < len(P.m.blocks) else h
                specs.append(dict(to=A(5), data=t["timestamp"].to_bytes(32, "big"), gas=300_000))
                if F >= PRAGUE:
                    specs.append(dict(to=A(6), data=t["number"].to_bytes(32, "big"), gas=300_000))
            ts, nn = mk(F, specs, nn)
            P.add(P.build(P.txs(ts), timestamp=h["timestamp"] + 12 + i), expect=True)
        return P

    # ------------------------------------------------------------ deposits
    def dep(self, F, specs, over=()):
        P = self.pair(F, self.acc(F, over))
        ts, _ = mk(F, [dict(gas=400_000, **s) for s in specs])
        b = P.build(P.txs(ts))
        self.bad_hash(P, b)
        P.add(b)
        P.add(P.build(), expect=None)
        return P

    def r_dep1(self, F):
        for over in ((), ((WREQ, CODES["ret76"]),), ((CREQ, CODES["ret76"]),), ((WREQ, CODES["ret1"]), (CREQ, CODES["ret33"]))):
            for to in (DEPOSIT, A(3), A(4)):
                P = self.dep(F, [dict(to=to, data=b"\x00" + deposit())], over)
        import hashlib
        # alternative assemblies of the hash are refused
        P = self.pair(F, self.acc(F, ((WREQ, CODES["ret76"]), (CREQ, CODES["ret33"]))))
        ts, _ = mk(F, [dict(to=DEPOSIT, data=b"\x00" + deposit(3), gas=400_000)])
        b = P.build(P.txs(ts))
        out, _ = P.m.execute(*b)
        rs = out["requests"]
        assert len(rs) == 3
        S = lambda l: hashlib.sha256(b"".join(hashlib.sha256(x).digest() for x in l)).digest()
        for perm in itertools.permutations(rs):
            if list(perm) != rs:
                P.add((dict(b[0], requests_hash=S(perm)), *b[1:]), expect=False)
        for alt in ([rs[0][1:], rs[1][1:], rs[2][1:]], rs[:2], rs[1:], rs + [b"\x03"], [b"\x00" + r[1:] for r in rs], [r + b"\x00" for r in rs]):
            P.add((dict(b[0], requests_hash=S(alt)), *b[1:]), expect=False)
        P.add((dict(b[0], requests_hash=hashlib.sha256(b"".join(rs)).digest()), *b[1:]), expect=False)
        P.add(b, expect=True)
        return P

    def r_depw(self, F, w):
        """Each 32-byte word of the log set to several values."""
        base = deposit()
        P = None
        digs, n = [], 0
        for v in (0, 1, 7, 9, 31, 33, 47, 48, 49, 95, 97, 128, 160, 161, 192, 256, 320, 384, 512, 576, 2**255, 2**256 - 1, 2**64 + 160):
            d = base[:32 * w] + v.to_bytes(32, "big") + base[32 * w + 32:]
            P = self.dep(F, [dict(to=NOBODY), dict(to=DEPOSIT, data=b"\x00" + d)])
            digs += P.digs
            n += P.n
        P.digs, P.n = digs, n
        return P

    def r_deplen(self, F, n):
        d = (deposit() * 3)[:n]
        for sel in (0, 1, 2, 3, 4):
            P = self.dep(F, [dict(to=DEPOSIT, data=bytes([sel]) + d)])
        return P

    def r_depseq(self, F, seq):
        for to in (DEPOSIT, A(3)):
            P = self.dep(F, [dict(to=to, data=bytes([s]) + (deposit(i) if s not in (1, 2, 4) else b"zz")) for i, s in enumerate(seq)])
        return P

    def r_reqhash(self, F):
        import hashlib
        P = self.pair(F, self.acc(F))
        b = P.build()
        for x in (b"", bytes(32), hashlib.sha256(b"\x00").digest(), hashlib.sha256(hashlib.sha256(b"").digest()).digest(),
                  hashlib.sha256(b"".join(hashlib.sha256(bytes([i])).digest() for i in range(3))).digest(), chain.NO_OMMERS):
            P.add((dict(b[0], requests_hash=x.ljust(32, b"\0")), *b[1:]), expect=False)
        P.add(b, expect=True)
        return P

    # ---------------------------------------------------------- withdrawals
    def r_wd(self, F, xs):
        addr = [NOBODY, S1, A(2), SYS, bytes([0xC0]) + bytes(18) + b"\x02", BEACON, bytes(19) + b"\x01", bytes(20), WREQ, WATCH]
        amt = [0, 1, 32 * 10**9, 2**64 - 1, 7]
        rb = asm(WATCH, "BALANCE", 0, "MSTORE", 32, 0, "RETURN")
        P = self.pair(F, self.acc(F, [(WREQ, rb)] if F >= PRAGUE else []))
        ws = [(i + 5, 9, addr[a], amt[m]) for i, (a, m) in enumerate(xs)]
        ts, nn = mk(F, [dict(to=NOBODY, value=1)])
        P.add(P.build(P.txs(ts), wds=ws), expect=True)
        P.add(P.build(wds=ws), expect=True)
        return P

    def r_wdorder(self, F):
        """Transactions see balances before the block's withdrawals; the next block sees them."""
        seer = asm(WATCH, "BALANCE", "NUMBER", "SSTORE")
        P = self.pair(F, self.acc(F, (), {A(6): (1, 0, seer)}))
        nn = {}
        poor = real.addr_of(K1 + 40)
        for i in range(4):
            ts, nn = mk(F, [dict(to=A(6))], nn)
            P.add(P.build(P.txs(ts), wds=[(i, 1, WATCH, 5), (i + 1, 1, poor, 10**9)] if i != 2 else []), expect=True)
        # spending a withdrawal in the same block is refused, in the next accepted
        key = K1 + 41
        w = [(9, 1, real.addr_of(key), 10**9)]
        ts, _ = mk(F, [dict(to=NOBODY, key=key, value=1)])
        P.add(P.build(P.txs(ts), wds=w), expect=False)
        P.add(P.build(wds=w), expect=True)
        P.add(P.build(P.txs(ts)), expect=True)
        return P


if __name__ == "__main__":
    raise SystemExit(main(C()))
