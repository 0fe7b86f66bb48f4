"""C20: EIP-7702 delegated accounts."""
import itertools
from functools import lru_cache
import asm as _asm
from asm import push
from checkbase import DiffCheck, main, real, diff, evm, prim
from explore import Result
from scen import A, COINBASE, ETH, K1, K2, NOBODY, S1, S2, block, case, tx, world
from ref import curves
from ref.forks import *  # noqa

N = curves.SECP.n
KA, KB = 21, 22
AA, AB = real.addr_of(KA), real.addr_of(KB)
X, Y, PROBE, EMPTYC = A(1), A(2), A(3), A(4)
U64M = 2**64 - 1


def asm(*it):
    return _asm.asm(*[push(x) if isinstance(x, bytes) and len(x) in (20, 32) else x for x in it])


CX = asm("ADDRESS", 1, "SSTORE", "CALLVALUE", 2, "SSTORE", 0, "SLOAD", 1, "ADD", 0, "SSTORE", "CODESIZE", 3, "SSTORE", "ADDRESS", "EXTCODESIZE", 4, "SSTORE",
         "CALLER", 0, "MSTORE", "GAS", 32, "MSTORE", 64, 0, "RETURN")
CY = asm(7, 0, "MSTORE", 32, 0, "LOG0", 0x99, 32, "MSTORE", 5, 10, "REVERT")
CRE = asm(0, 0, 0, "CREATE", 5, "SSTORE", 0x60016000F3 << 216, 0, "MSTORE", 3, 5, 0, 0, "CREATE2", 6, "SSTORE")
SDC = asm(NOBODY, "SELFDESTRUCT")


def look(a, base, slot):
    """Everything a contract can see of address a, logged."""
    return asm(a, "EXTCODESIZE", base, "MSTORE", a, "EXTCODEHASH", base + 32, "MSTORE", 40, 0, base + 64, a, "EXTCODECOPY", a, "BALANCE", base + 128, "MSTORE",
               "GAS", base + 160, "MSTORE", 64, base + 192, 0, 0, 0, a, 90_000, "CALL", base + 256, "MSTORE", "GAS", base + 288, "MSTORE", 320, base, "LOG0")


@lru_cache(None)
def recover(a):
    """Authority of (chain, addr, nonce, y, r, s) by the definition, or None."""
    c, ad, n, y, r, s = a
    if y not in (0, 1) or not 0 < r < N or not 0 < s <= N // 2:
        return None
    h = prim.keccak(b"\x05" + prim.rlp([c, ad, n]))
    Q = curves.ecdsa_recover(int.from_bytes(h, "big"), y, r, s)
    return None if Q is None else prim.keccak(Q[0].to_bytes(32, "big") + Q[1].to_bytes(32, "big"))[12:]


@lru_cache(None)
def signed(key, c, a, n, sig="ok"):
    (c, a, n, y, r, s) = real.sign_auth(key, c, a, n)
    if sig == "high":
        y, s = 1 - y, N - s
    elif sig == "y":
        y = 1 - y
    elif sig == "y2":
        y = 2
    elif sig == "y27":
        y += 27
    elif sig == "r0":
        r = 0
    elif sig == "s0":
        s = 0
    elif sig == "rn":
        r = N
    elif sig == "r5":
        r = 5      # 5 is not the x coordinate of a point
    elif sig == "smax":
        s = N // 2
    elif sig == "smax1":
        s = N // 2 + 1
    elif sig == "sn":
        s = 2**256 - 1
    return (c, a, n, y, r, s)


SIGS = ["ok", "high", "y", "y2", "y27", "r0", "s0", "rn", "r5", "smax", "smax1", "sn"]
CHAINS = [1, 0, 2, 2**64 + 1, 2**256 - 1]
STATES = ["absent", "eoa", "nonce5", "deleg", "delegself", "contract", "ill22", "ill24", "ef", "maxnonce", "storage"]


def put(st, addr):
    """Account of an authority in state st -> (entry, storage)."""
    return {"absent": (None, {}), "eoa": ((0, 7, b""), {}), "nonce5": ((5, 0, b""), {}), "deleg": ((1, 9, b"\xef\x01\x00" + X), {0: 5}),
            "delegself": ((1, 9, b"\xef\x01\x00" + addr), {}), "contract": ((1, 9, CX), {}), "ill22": ((0, 1, b"\xef\x01\x00" + X[:19]), {}),
            "ill24": ((0, 1, b"\xef\x01\x00" + X + b"\0"), {}), "ef": ((0, 1, b"\xef\x01\x01" + X), {}), "maxnonce": ((U64M, 1, b""), {}),
            "storage": ((0, 3, b""), {1: 2})}[st]


def graph():
    """Delegation graph of pre-state accounts: name -> (address, delegate or code)."""
    g = {}
    for i, n in enumerate(["dX", "dY", "dd", "dself", "dpre", "dabs", "deoa", "dcre", "dsd", "dcyc1", "dcyc2", "ill22", "ill24", "dsha", "dcoin", "dprobe"]):
        g[n] = bytes([0xD7]) + bytes(18) + bytes([i + 1])
    return g


G = graph()
DG = {"dX": X, "dY": Y, "dd": G["dX"], "dself": G["dself"], "dpre": bytes(19) + b"\x04", "dabs": NOBODY, "deoa": S2, "dcre": A(5), "dsd": A(6), "dcyc1": G["dcyc2"],
      "dcyc2": G["dcyc1"], "dsha": bytes(19) + b"\x02", "dcoin": COINBASE, "dprobe": PROBE}


def gworld():
    acc = world({X: (1, 3, CX), Y: (1, 3, CY), A(5): (1, 0, CRE), A(6): (1, 11, SDC)})
    sto = {}
    for n, a in G.items():
        if n in DG:
            acc[a] = (3, 50, b"\xef\x01\x00" + DG[n])
        elif n == "ill22":
            acc[a] = (3, 50, b"\xef\x01\x00" + X[:19])
        else:
            acc[a] = (3, 50, b"\xef\x01\x00" + X + b"\x00")
    return acc, sto


class C(DiffCheck):
    pid = "C20"
    rule = ("Prague and Osaka: one authorization x all combinations of chain id, target, nonce relation, signature form and authority account; all sequences of "
            "authorizations to the depth over two authorities (and the sender) x execution outcome x transaction target; every reading and calling instruction "
            "on every node of a delegation graph (chains, cycles, self, precompiles, absent, ill-formed designators) x warmth x value x gas limits on both sides of "
            "success; delegated senders, creations, destructions and further blocks' transactions.  State: distinct canonical post-state with gas")
    bounds = {"quick": "sequences to length 2; gas limits within 3 of the need", "thorough": "sequences to length 3; gas limits within 120 of the need"}

    def cases(self, tier):
        th = tier == "thorough"
        for F in (PRAGUE, OSAKA):
            for ch, ta, nd in itertools.product(CHAINS, range(7), (0, 1, -1, "max", "max-1")):
                for s in STATES:
                    yield ("one", F, ch, ta, nd, "ok", s)
            for sig in SIGS:
                for s in STATES:
                    for ch in (0, 1):
                        for ta in range(7) if th else (0, 1):
                            yield ("one", F, ch, ta, 0, sig, s)
            al = self.alphabet()
            for n in (1, 2) + ((3,) if th else ()):
                for x in itertools.product(range(len(al)), repeat=n):
                    for to in ("X", "Y", "A", "B", "oog", "self"):
                        if n < 3 or to in ("X", "A"):
                            yield ("seq", F, x, to)
            for x in itertools.permutations(range(len(al)), 3):
                if x[0] < 8:
                    yield ("seq", F, x, "A")
            for n in G:
                for op in ("EXTCODESIZE", "EXTCODEHASH", "EXTCODECOPY", "BALANCE", "CALL", "CALLCODE", "DELEGATECALL", "STATICCALL", "SELFDESTRUCT", "TX", "TXV", "FROM"):
                    for warm in range(4):
                        yield ("op", F, n, op, warm, th)
            for n in G:
                for g in (0, 1, 99, 100, 2300, 2599, 2600, 5000, 30000):
                    yield ("callgas", F, n, g)
            for k in range(30):
                yield ("count", F, k)
            for v in range(12):
                yield ("flow", F, v)

    def alphabet(self):
        """(key, target, nonce)"""
        return [(KA, X, 0), (KA, X, 1), (KA, Y, 0), (KA, bytes(20), 0), (KA, bytes(20), 1), (KB, X, 0), (KB, AA, 0), (KA, AB, 0), (KA, AA, 1), (K1, X, 1), (K1, Y, 0), (K1, X, 2),
                (KB, bytes(19) + b"\x04", 0), (KA, Y, 2), (KB, Y, 1)]

    def t4(self, F, to, auths, **kw):
        return tx(F, to, kind=4, raw_auths=tuple(auths), auth_who=tuple(recover(a) for a in auths), **kw)

    def b_one(self, F, ch, ta, nd, sig, s):
        entry, sto = put(s, AA)
        n = entry[0] if entry else 0
        nonce = {"max": U64M, "max-1": U64M - 1}[nd] if isinstance(nd, str) else max(0, min(U64M, n + nd))
        target = [X, bytes(20), AA, NOBODY, bytes(19) + b"\x01", Y, S2][ta]
        a = signed(KA, ch, target, nonce, sig)
        who = recover(a)
        acc = world({X: (1, 3, CX), Y: (1, 3, CY), PROBE: (1, 500, look(AA, 0, 0) + look(who or AB, 512, 0))})
        if entry:
            acc[AA] = entry
        return case(F, acc, [self.t4(F, PROBE, [a], gas=900_000), tx(F, AA, nonce=1, value=1, gas=200_000)], {AA: sto} if sto else {})

    def b_seq(self, F, x, to):
        al = self.alphabet()
        au = [signed(k, 1, t, n) for k, t, n in (al[i] for i in x)]
        acc = world({X: (1, 3, CX), Y: (1, 3, CY), PROBE: (1, 500, look(AA, 0, 0) + look(AB, 512, 0) + look(S1, 1024, 0))})
        acc[AA] = (0, 10, b"")
        target = {"X": X, "Y": Y, "A": AA, "B": AB, "oog": X, "self": S1}[to]
        gas = 21000 + 25000 * len(au) + 2000 if to == "oog" else 700_000
        txs = [self.t4(F, target, au, gas=gas, value=1 if to in ("A", "Y") else 0)]
        self_n = 1 + sum(1 for i in x if False)
        # a second transaction looks at everything (sender 2: the first sender's nonce may have moved)
        txs.append(tx(F, PROBE, key=K2, gas=900_000))
        txs.append(tx(F, AA, key=K2, nonce=1, gas=300_000, value=2))
        return case(F, acc, txs)

    def b_op(self, F, n, op, warm, th):
        acc, sto = gworld()
        a = G[n]
        acl = ()
        if warm & 1:
            acl += ((a, ()),)
        if warm & 2 and n in DG:
            acl += ((DG[n], ()),)
        kw = dict(kind=2, access=acl)
        pre = asm("GAS")
        post = asm("GAS", "SWAP1", "SUB", 0, "SSTORE")
        if op in ("EXTCODESIZE", "EXTCODEHASH", "BALANCE"):
            body = asm(a, op, 1, "SSTORE")
        elif op == "EXTCODECOPY":
            body = asm(50, 0, 0, a, op, 0, "MLOAD", 1, "SSTORE", 32, "MLOAD", 2, "SSTORE")
        elif op in ("CALL", "CALLCODE"):
            body = asm(64, 0, 3, 0, 1, a, 200_000, op, 1, "SSTORE", 0, "MLOAD", 2, "SSTORE", "RETURNDATASIZE", 3, "SSTORE")
        elif op in ("DELEGATECALL", "STATICCALL"):
            body = asm(64, 0, 3, 0, a, 200_000, op, 1, "SSTORE", 0, "MLOAD", 2, "SSTORE", "RETURNDATASIZE", 3, "SSTORE")
        elif op == "SELFDESTRUCT":
            body = asm(a, op)
            post = b""
        else:
            body = None
        if body is not None:
            acc[PROBE] = (1, 500, pre + body + post)
            t = tx(F, PROBE, gas=900_000, **kw)
        elif op == "FROM":
            # the delegated account sends a transaction itself
            key = 55
            who = real.addr_of(key)
            acc[who] = (4, 10 * ETH, acc[a][2])
            t = tx(F, X, gas=900_000, key=key, nonce=4, **kw)
        else:
            t = tx(F, a, gas=900_000, value=5 if op == "TXV" else 0, data=b"\x01\x02", **kw)
        base = case(F, acc, [t], sto)
        out = [base]
        # the same at gas limits around the need
        st = evm.State(acc, sto)
        m, sig = diff.make_tx(F, t)
        try:
            used = evm.run_tx(F, st, evm.Block(**base["bl"]), m)["gas_before_refund"]
            for d in (range(-120, 3) if th else (-3, -2, -1, 0, 1)):
                out.append(case(F, acc, [dict(t, gas=used + d)], sto))
        except evm.Reject:
            pass
        return out

    def b_callgas(self, F, n, g):
        acc, sto = gworld()
        out = []
        for kind in ("CALL", "STATICCALL", "DELEGATECALL", "CALLCODE"):
            for v in ((0, 1) if kind in ("CALL", "CALLCODE") else (None,)):
                code = asm("GAS", 64, 0, 3, 0, *([v] if v is not None else []), G[n], g, kind, 1, "SSTORE", "GAS", "SWAP1", "SUB", 0, "SSTORE", "RETURNDATASIZE", 2, "SSTORE")
                acc[PROBE] = (1, 500, code * 2)
                out.append(case(F, dict(acc), [tx(F, PROBE, gas=700_000, kind=2)], sto))
        return out

    def b_count(self, F, k):
        """k authorizations: intrinsic cost, refund and cap."""
        acc = world({X: (1, 3, CX), PROBE: (1, 0, asm(0, 0, "SSTORE", 0, 1, "SSTORE"))})
        for i in range(k):
            if i % 2:
                acc[real.addr_of(100 + i)] = (0, 1, b"")
        au = [signed(100 + i, i % 3 % 2, X if i % 4 else bytes(20), 0, "y2" if i % 5 == 4 else "ok") for i in range(k)]
        need = 21000 + 25000 * k
        out = []
        for gas in (need - 1, need, need + 1, need + 2300, need + 100_000):
            for to in (PROBE, NOBODY):
                out.append(case(F, acc, [self.t4(F, to, au, gas=gas)], {PROBE: {0: 1, 1: 2}}))
        return out

    def b_flow(self, F, v):
        acc, sto = gworld()
        acc[AA] = (0, 20 * ETH, b"")
        acc[PROBE] = (1, 500, look(AA, 0, 0))
        T = []
        nn = {K1: 0, K2: 0}

        def go(to, key=K2, **kw):
            T.append(tx(F, to, key=key, nonce=nn.setdefault(key, 0), gas=kw.pop("gas", 600_000), **kw))
            nn[key] += 1

        def au(*a, key=K2, to=PROBE, **kw):
            T.append(self.t4(F, to, a, key=key, nonce=nn.setdefault(key, 0), gas=900_000, **kw))
            nn[key] += 1
        if v == 0:      # set, replace, clear, set again
            for i, t in enumerate((X, Y, bytes(20), X, AA, bytes(20))):
                au(signed(KA, 1, t, i))
                go(AA, value=1)
        elif v == 1:    # delegated account sends, then is re-delegated by itself inside its own transaction
            au(signed(KA, 1, X, 0))
            go(NOBODY, key=KA, value=5)
            nn[KA] = 1
            T[-1]["nonce"] = 1
            T.append(self.t4(F, AA, [signed(KA, 1, Y, 3)], key=KA, nonce=2, gas=900_000))
            T.append(tx(F, AA, key=KA, nonce=4, gas=300_000))
        elif v == 2:    # creation by a delegated account moves its nonce; stale authorizations fail
            au(signed(KA, 1, A(5), 0))
            go(AA)
            for n in (1, 2, 3):
                au(signed(KA, 1, X, n))
        elif v == 3:    # destruction of a delegated account
            au(signed(KA, 1, A(6), 0))
            go(AA)
            go(AA, value=3)
            au(signed(KA, 1, X, 1))
        elif v == 4:    # destruct in the same transaction that sets it
            au(signed(KA, 1, A(6), 0), to=AA)
            go(PROBE)
        elif v == 5:    # repeated use of one authorization in later transactions
            a = signed(KA, 0, X, 0)
            au(a)
            au(a)
            au(a, a)
        elif v == 6:    # failing transactions keep delegations
            au(signed(KA, 1, X, 0), to=Y)
            go(PROBE)
            au(signed(KB, 1, Y, 0), to=A(6))
            go(AB)
        elif v == 7:    # invalid transactions keep nothing
            T.append(self.t4(F, PROBE, [signed(KA, 1, X, 0)], key=K2, nonce=7, gas=900_000))
            T.append(self.t4(F, PROBE, [signed(KA, 1, X, 0)], key=K2, nonce=0, gas=45_999))
            T.append(self.t4(F, b"", [signed(KA, 1, X, 0)], key=K2, nonce=0, gas=900_000))
            T.append(tx(F, PROBE, kind=4, key=K2, nonce=0, gas=900_000, raw_auths=(), auth_who=()))
            go(PROBE)
        elif v == 8:    # sender authorizes itself: nonce is raised first
            T.append(self.t4(F, S1, [signed(K1, 1, X, 1), signed(K1, 1, Y, 2), signed(K1, 1, X, 0)], key=K1, nonce=0, gas=900_000))
            for n in (1, 2, 3):
                T.append(tx(F, S1, key=K1, nonce=n, gas=300_000))
            T.append(tx(F, S1, key=K1, nonce=3, gas=300_000))
        elif v == 9:    # deploying designators is impossible
            for code in (b"\xef\x01\x00" + X, b"\xef", b"\xef\x01\x00"):
                T.append(tx(F, b"", key=K2, nonce=nn[K2], gas=600_000, data=_asm.initcode(code)))
                nn[K2] += 1
        elif v == 10:   # coinbase as authority, access lists with authorities
            au(signed(KA, 1, COINBASE, 0), access=((AA, (0, 1)), (X, (0,))))
            go(AA)
        elif v == 11:   # authority is delegated to itself and to the sender
            au(signed(KA, 1, AA, 0), to=AA)
            au(signed(KB, 1, S2, 0), to=AB)
            au(signed(KB, 1, AA, 1), to=AB)
        return case(F, acc, T, sto)

    def build(self, d):
        return getattr(self, "b_" + d[0])(*d[1:])


if __name__ == "__main__":
    raise SystemExit(main(C()))
