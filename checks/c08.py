"""C08: cold/warm access accounting."""
import itertools
from checkbase import *

M = A(1)       # main contract
X, Y = A(40), A(41)   # touched contracts
SUBM = {"I": None, "K": "keep", "R": "rev", "H": "halt"}


def touch(op, t):
    a = addr_int(t)
    if op in ("BALANCE", "EXTCODESIZE", "EXTCODEHASH"):
        return asm(a, op, "POP")
    if op == "EXTCODECOPY":
        return asm(1, 0, "0x700", a, op)
    if op in ("CALL", "CALLCODE"):
        return asm(0, 0, 0, 0, 0, a, 5000, op, "POP")
    if op == "CALLV":
        return asm(0, 0, 0, 0, 1, a, 5000, "CALL", "POP")
    if op in ("DELEGATECALL", "STATICCALL"):
        return asm(0, 0, 0, 0, a, 5000, op, "POP")
    raise KeyError(op)


def slot(op, k):
    if op == "SLOAD":
        return asm(k, "SLOAD POP")
    v = {"SSTORE0": 0, "SSTORE1": 1, "SSTORE2": 2}[op]
    return asm(v, k, "SSTORE")


AOPS = ["BALANCE", "EXTCODESIZE", "EXTCODEHASH", "EXTCODECOPY", "CALL", "CALLCODE", "DELEGATECALL", "STATICCALL", "CALLV"]
SOPS = ["SLOAD", "SSTORE0", "SSTORE1", "SSTORE2"]
FORKS = [F for F in ALL if F >= BERLIN]


class C(DiffCheck):
    pid = "C08"
    rule = ("pre-warming: every touching instruction x every special target x every small access list x transaction type; all pairs "
            "(and reduced-alphabet triples) of touches where each is inline, in a kept, reverted or halted sub-call; slots under "
            "delegate calls; created and self-destructed addresses; touches by init code that succeeds or fails in five ways; two transactions in a row; Berlin to Osaka.  The smaller families again two calls further down.  A state is a "
            "distinct model post-state incl. logged gas readings")
    bounds = {"quick": "as in rule", "thorough": "triples over the full alphabet"}

    def cases(self, tier):
        th = tier == "thorough"
        for F in FORKS:
            for tn in self.targets(F):
                for al in range(8):
                    for kind in range(1, evm.max_kind(F) + 1):
                        if kind in (1, evm.max_kind(F)) or al in (0, 1):
                            yield ("pre", F, tn, al, kind)
            for al in range(10):
                yield ("presl", F, al)
            ev = [(o, t) for o in AOPS for t in ("X", "Y")] + [(o, k) for o in SOPS for k in (1, 2)]
            for e1, e2 in itertools.product(ev, repeat=2):
                if (e1[0] in SOPS) != (e2[0] in SOPS) and not th:
                    continue
                for m1, m2 in itertools.product("IKR" if not th else "IKRH", repeat=2):
                    if e1[1] != e2[1] and (m1, m2) not in (("I", "I"), ("K", "I"), ("R", "I")):
                        continue
                    yield ("seq", F, ((e1, m1), (e2, m2)))
            small = [("BALANCE", "X"), ("CALL", "X"), ("SLOAD", 1), ("SSTORE1", 1), ("SSTORE0", 1)] if not th else ev
            for es in itertools.product(small, repeat=3):
                for ms in itertools.product("IKRH" if th else "IKR", repeat=3):
                    if len({e[0] in SOPS for e in es}) == 1 and ms != ("I", "I", "I"):
                        yield ("seq", F, tuple(zip(es, ms)))
            for m in "IKRH":
                for m2 in "IKRH":
                    yield ("two", F, m, m2)
                    yield ("nest", F, m, m2)
            for op in ("CREATE", "CREATE2"):
                for ini in ("ok", "bad", "rev", "coll", "poor", "nonce"):
                    yield ("create", F, op, ini)
                for ini in ("0 0 RETURN", "0 0 REVERT", "INVALID", "ef", "big"):
                    yield ("init", F, op, ini)
            for ben in ("X", "none", "M", "coinbase", "pre", "sender"):
                for bal in (0, 1):
                    for al in (0, 1):
                        for m in "KRH":
                            yield ("sd", F, ben, bal, al, m)
            yield ("createtx", F)
            yield ("deleg", F)

    def deep(self, d):
        return d[0] in ("two", "nest", "create", "init", "sd", "deleg") or d[0] == "seq" and len(d[2]) < 3

    def build(self, d):
        return getattr(self, "b_" + d[0])(*d[1:])

    def targets(self, F):
        t = {"X": X, "Y": Y, "none": NOBODY, "M": M, "sender": S1, "other": S2, "coinbase": COINBASE, "zero": bytes(20), "drv": A(2)}
        for i in list(range(1, 0x14)) + [0x100, 0x101]:
            t[f"p{i:x}"] = i.to_bytes(20, "big")
        return t

    def lists(self, t, F):
        sl = lambda *k: tuple(k)
        return [(), ((t, ()),), ((t, (1,)),), ((Y, ()), (t, (0, 1, 2**256 - 1))), ((t, ()), (t, ())), ((M, (1, 2)),),
                ((COINBASE, ()), (S1, (3,))), ((NOBODY, (5, 5)), (t, (5,)))][:]

    def acc(self, extra=None):
        a = {X: (1, 3, asm("0 SLOAD POP STOP")), Y: (1, 4, asm("STOP"))}
        a.update(extra or {})
        return world(a)

    def b_pre(self, F, tn, al, kind):
        t = self.targets(F)[tn]
        acl = self.lists(t, F)[al]
        kw = {}
        if kind == 3:
            kw = dict(blobs=(b"\x01" + b"\x22" * 31,), max_blob_fee=10**6)
        if kind == 4:
            kw = dict(raw_auths=(real.sign_auth(K3, 1, X, 0),), auth_who=(S3,))
        c, k = [], 0
        for op in AOPS:
            # each op in its own reverting helper so that every op sees the pristine warm set
            c += [asm(k, 0, "MSTORE", 32, 0x600 + 32 * k, 32, 0, 0, addr_int(A(100 + k)), 60000, "CALL POP")]
            k += 1
        code = asm(*c, 32 * k, 0x600, "LOG0", touch("BALANCE", t), "GAS 0 MSTORE", touch("CALL", t), "GAS 32 MSTORE 64 0 LOG0")
        ex = {M: (1, 50, code)}
        for i, op in enumerate(AOPS):
            ex[A(100 + i)] = (1, 5, asm("GAS", touch(op, t), "GAS SWAP1 SUB 0 MSTORE 32 0 REVERT"))
        return case(F, self.acc(ex), [tx(F, M, kind=kind, access=acl, **kw)])

    def b_presl(self, F, al):
        acl = [(), ((M, ()),), ((M, (1,)),), ((M, (1, 2)),), ((X, (1,)),), ((M, (1, 1)),), ((M, (1,)), (M, (2,))), ((M, (2**256 - 1,)),),
               ((X, (1,)), (M, (3,))), ((M, tuple(range(20))),)][al]
        c, k = [], 0
        for s in (1, 2, 3, 2**256 - 1):
            for o in SOPS:
                pass
            c += ["GAS", slot("SLOAD", s), "GAS SWAP1 SUB", 32 * k, "MSTORE GAS", slot("SSTORE1", s), "GAS SWAP1 SUB", 32 * k + 32, "MSTORE"]
            k += 2
        code = asm(*c, 32 * k, 0, "LOG0")
        c2 = []
        return [case(F, self.acc({M: (1, 50, code)}), [tx(F, M, kind=1, access=acl), tx(F, M, kind=1, nonce=1)], {M: {1: 1}}),
                case(F, self.acc({M: (1, 50, asm(0, 0, 0, 0, addr_int(A(9)), 200000, "DELEGATECALL")), A(9): (1, 0, code)}),
                     [tx(F, M, kind=1, access=acl)], {M: {1: 1}})]

    def b_seq(self, F, es):
        c, ex = [], {}
        for i, ((op, t), m) in enumerate(es):
            body = slot(op, t) if op in SOPS else touch(op, {"X": X, "Y": Y}[t])
            meas = asm("GAS", body, "GAS SWAP1 SUB 0 MSTORE")
            if m == "I":
                c += [meas, "0 MLOAD", 0x200 + 32 * i, "MSTORE"]
            else:
                end = {"K": "32 0 RETURN", "R": "32 0 REVERT", "H": "INVALID"}[m]
                ex[A(100 + i)] = (1, 5, meas + asm(end))
                c += [32, 0x200 + 32 * i, 0, 0, addr_int(A(100 + i)), 60000, "DELEGATECALL POP GAS", 0x400 + 32 * i, "MSTORE"]
        ex[M] = (1, 50, asm(*c, 0x300, 0x200, "LOG0"))
        return case(F, self.acc(ex), [tx(F, M, kind=1)], {M: {1: 1}})

    def b_two(self, F, m, m2):
        """Two transactions: the second starts cold whatever the first did."""
        end = {"I": "STOP", "K": "STOP", "R": "0 0 REVERT", "H": "INVALID"}
        body = asm("GAS", touch("BALANCE", X), "GAS SWAP1 SUB 0 MSTORE GAS", slot("SLOAD", 1), "GAS SWAP1 SUB 32 MSTORE 64 0 LOG0")
        ex = {M: (1, 5, asm(body, "CALLDATASIZE ISZERO", b"\x60\x00", "POP POP", end[m])), A(2): (1, 5, asm(body, end[m2]))}
        return case(F, self.acc(ex), [tx(F, M, kind=1, access=((X, (1,)),)), tx(F, A(2), nonce=1, kind=1), tx(F, M, nonce=2, kind=0)], {M: {1: 1}})

    def b_nest(self, F, m, m2):
        """Touch two levels down; inner kept/undone, outer kept/undone; then touch in the top frame."""
        end = {"I": "STOP", "K": "STOP", "R": "0 0 REVERT", "H": "INVALID"}
        ex = {A(3): (1, 5, asm(touch("BALANCE", X), touch("CALL", Y), slot("SLOAD", 7), end[m])),
              A(2): (1, 5, asm(0, 0, 0, 0, addr_int(A(3)), 60000, "DELEGATECALL POP", touch("BALANCE", NOBODY), slot("SLOAD", 8), end[m2]))}
        c = [0, 0, 0, 0, addr_int(A(2)), 200000, "DELEGATECALL POP"]
        for i, b in enumerate([touch("BALANCE", X), touch("BALANCE", Y), touch("BALANCE", NOBODY), slot("SLOAD", 7), slot("SLOAD", 8), touch("BALANCE", A(2)), touch("BALANCE", A(3))]):
            c += ["GAS", b, "GAS SWAP1 SUB", 32 * i, "MSTORE"]
        ex[M] = (1, 5, asm(*c, 224, 0, "LOG0"))
        return case(F, self.acc(ex), [tx(F, M, kind=1)])

    def b_create(self, F, op, ini):
        code = {"ok": asm(1, 0, "RETURN"), "bad": b"\xfe", "rev": asm(0, 0, "REVERT"), "coll": b"", "poor": b"", "nonce": b""}[ini]
        s = [3] if op == "CREATE2" else []
        nonce = 2**64 - 1 if ini == "nonce" else 1
        na = prim.keccak(prim.rlp([M, nonce]))[12:] if op == "CREATE" else prim.keccak(b"\xff" + M + (3).to_bytes(32, "big") + prim.keccak(code))[12:]
        prog = asm(mstore_code(code, 0) if code else b"", *s, len(code), 0, 51 if ini == "poor" else 1, op, "0 MSTORE GAS", touch("BALANCE", na),
                   "GAS SWAP1 SUB 32 MSTORE 64 0 LOG0")
        ex = {M: (nonce, 50, prog)}
        if ini == "coll":
            ex[na] = (1, 0, b"")
        out = [case(F, self.acc(ex), [tx(F, M, kind=1), tx(F, M, kind=1, nonce=1)])]
        # the same inside an undone frame
        ex2 = dict(ex)
        ex2[M] = (nonce, 50, asm(0, 0, 0, 0, addr_int(A(5)), 200000, "DELEGATECALL POP GAS", touch("BALANCE", na), "GAS SWAP1 SUB 0 MSTORE 32 0 LOG0"))
        ex2[A(5)] = (1, 0, prog + asm("0 0 REVERT"))
        out.append(case(F, self.acc(ex2), [tx(F, M, kind=1)]))
        return out

    def b_init(self, F, op, end):
        """What init code touches (also through a call back into another contract) stays warm exactly if the creation succeeds; then the same again."""
        e = {"ef": mstore_code(b"\xef") + asm(1, 0, "RETURN"), "big": asm(2**17, 0, "RETURN")}.get(end) or asm(end)
        s = [3] if op == "CREATE2" else []
        for parts in itertools.product((0, 1), repeat=4):
            ini = asm(*[b for b, on in zip((touch("BALANCE", Y), touch("CALL", X), slot("SLOAD", 1), touch("BALANCE", NOBODY)), parts) if on]) + e
            c, k = [], 0
            for _ in range(2):
                c += [mstore_code(ini, 0x400), *s, len(ini), 0x400, 0, op, 32 * k, "MSTORE"]
                k += 1
                for b in (touch("BALANCE", Y), touch("BALANCE", X), touch("CALL", X), slot("SLOAD", 1), touch("BALANCE", NOBODY)) if k > 1 else (touch("CALL", X),):
                    c += ["GAS", b, "GAS SWAP1 SUB", 32 * k, "MSTORE"]
                    k += 1
            yield case(F, self.acc({M: (1, 50, asm(*c, 32 * k, 0, "LOG0"))}), [tx(F, M, kind=1)])

    def b_sd(self, F, ben, bal, al, m):
        t = {"X": X, "none": NOBODY, "M": M, "coinbase": COINBASE, "pre": (5).to_bytes(20, "big"), "sender": S1}[ben]
        ex = {A(2): (1, bal, asm(addr_int(t), "SELFDESTRUCT"))}
        if m != "K":
            ex[A(3)] = (1, 0, asm(0, 0, 0, 0, 0, addr_int(A(2)), 60000, "CALL POP", "0 0 REVERT" if m == "R" else "INVALID"))
        to = A(2) if m == "K" else A(3)
        prog = asm(0, 0, 0, 0, 0, addr_int(to), 120000, "CALL 0 MSTORE GAS 32 MSTORE GAS", touch("BALANCE", t), "GAS SWAP1 SUB 64 MSTORE 96 0 LOG0")
        ex[M] = (1, 50, prog)
        return case(F, self.acc(ex), [tx(F, M, kind=1, access=((t, ()),) if al else ())])

    def b_createtx(self, F):
        na = prim.keccak(prim.rlp([S1, 0]))[12:]
        c = []
        for i, b in enumerate([touch("BALANCE", na), touch("BALANCE", COINBASE), touch("BALANCE", S1), touch("BALANCE", X), slot("SLOAD", 1), slot("SSTORE1", 1)]):
            c += ["GAS", b, "GAS SWAP1 SUB", 32 * i, "MSTORE"]
        for acl in ((), ((na, (1,)),), ((X, ()),)):
            yield case(F, self.acc(), [tx(F, b"", asm(*c, 192, 0, "LOG0"), kind=1, access=acl)])

    def b_deleg(self, F):
        if F < PRAGUE:
            return []
        out = []
        D, T = S3, X
        for target in (D, T, M):
            for acl in ((), ((D, ()),), ((T, ()),), ((D, ()), (T, ()))):
                c = []
                for i, b in enumerate([touch(o, D) for o in AOPS] + [touch("BALANCE", T), touch("CALL", D), touch("BALANCE", D)]):
                    c += ["GAS", b, "GAS SWAP1 SUB", 32 * i, "MSTORE"]
                for perm in range(len(AOPS)):
                    cc = c[3 * 0:]
                    first = ["GAS", touch(AOPS[perm], D), "GAS SWAP1 SUB 0x600 MSTORE"]
                    code = asm(*first, *cc, 0x620, 0, "LOG0")
                    ex = {M: (1, 50, code), D: (1, 5, evm.DELEG + T)}
                    out.append(case(F, self.acc(ex), [tx(F, M if target != D else D, kind=1, access=acl)]))
                    if target == D:
                        break
        return out


if __name__ == "__main__":
    raise SystemExit(main(C()))
