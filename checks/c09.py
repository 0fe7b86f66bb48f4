"""C09: SELFDESTRUCT, end-of-transaction deletion, empty-account clearing."""
import itertools
from checkbase import *

M, B, B2 = A(1), A(20), A(21)
E1, E2 = A(30), A(31)         # pre-existing empty accounts (before Paris)
R3 = (3).to_bytes(20, "big")
P2 = (2).to_bytes(20, "big")


def callto(t, v=0, gas=60000, kind="CALL", data=0):
    val = [v] if kind in ("CALL", "CALLCODE") else []
    return asm(0, 0, data, 0, *val, addr_int(t), gas, kind, "POP")


def ending(F, m):
    return {"K": "STOP", "R": "0 0 REVERT" if F >= BYZANTIUM else "INVALID", "H": "INVALID"}[m]


BENS = {"none": NOBODY, "self": None, "M": M, "eoa": S2, "sender": S1, "coinbase": COINBASE, "B2": B2, "empty": E1, "r3": R3, "pre": P2}


class C(DiffCheck):
    pid = "C09"
    rule = ("self-destructs: beneficiary kind x balance x frame outcome x call kind; all event sequences of length <= 3 (4 thorough) over "
            "{kill by two contracts, pay, poke, create, kill in a failing frame, ...} in one transaction and split over two; all touch "
            "kinds of pre-existing empty accounts incl. the RIPEMD exception under kept/undone frames and failing transactions; zero-fee "
            "coinbase; the fee recipient being each contract involved, with and without a fee; pairs of destructions at depths 1-3, undone at every level; deletion order with logs and storage; all forks.  The smaller families again two calls further down.  A state is a distinct model post-state")
    bounds = {"quick": "sequences of length 3", "thorough": "sequences of length 4"}

    def cases(self, tier):
        th = tier == "thorough"
        for F in ALL:
            for ben in BENS:
                for bal in (0, 7):
                    for m in "KRH":
                        for kind in ["CALL", "CALLCODE"] + ["DELEGATECALL"] * (F >= HOMESTEAD) + ["STATICCALL"] * (F >= BYZANTIUM):
                            for v in (0, 2) if kind[:5] == "CALL" or kind == "CALLCODE" else (0,):
                                yield ("one", F, ben, bal, m, kind, v)
            ev = self.events(F)
            for n in (1, 2, 3) if not th else (1, 2, 3, 4):
                for es in itertools.product(ev, repeat=n):
                    if n == 4 and F not in (FRONTIER, SPURIOUS, BYZANTIUM, LONDON, PARIS, CANCUN, OSAKA):
                        continue
                    yield ("seq", F, es)
            for t in self.touches(F):
                for m in "KRH":
                    for m2 in "KRH":
                        yield ("touch", F, t, m, m2)
            for g in (0, 500, 700, 720, 730, 800, 5000):
                for m in "KRH":
                    for pre in ("empty", "absent", "bal"):
                        yield ("ripemd", F, g, m, pre)
            for cb in ("empty", "absent", "bal", "killed", "code"):
                for p in (0, 1):
                    yield ("coin", F, cb, p)
            for bal in (0, 1):
                yield ("order", F, bal)
            yield ("txto", F)
            yield ("create", F)
            yield ("fresh", F)
            for a in self.kills():
                yield ("nested", F, a)
            for what in ("create", "fresh", "order", "txto", "coin"):
                yield ("alias", F, what)
            for e in ev:
                yield ("alias", F, ("seq", e))
            yield ("gas", F)

    def deep(self, d):
        return d[0] in ("one", "create", "fresh", "touch", "order", "nested")

    def build(self, d):
        return getattr(self, "b_" + d[0])(*d[1:])

    def b_one(self, F, ben, bal, m, kind, v):
        t = BENS[ben]
        sd = asm("ADDRESS" if t is None else addr_int(t), "SELFDESTRUCT")
        ex = {B: (1, bal, sd), A(2): (1, 5, asm(callto(B, v, 90000, kind), "GAS 0 MSTORE 32 0 LOG0", ending(F, m))), B2: (1, 3, b"\x00")}
        if F < PARIS:
            ex[E1] = (0, 0, b"")
        prog = asm(callto(A(2), 0, 200000), "GAS 0 MSTORE", addr_int(B), "BALANCE 32 MSTORE", addr_int(B), "EXTCODESIZE 64 MSTORE",
                   addr_int(A(2)), "BALANCE 96 MSTORE 128 0 LOG0")
        ex[M] = (1, 50, prog)
        sto = {B: {1: 1}, A(2): {1: 2}}
        return case(F, world(ex), [tx(F, M), tx(F, B, nonce=1, value=1)], sto)

    def events(self, F):
        e = ["killB", "killB_self", "payB", "pokeB", "killfail", "killB2"]
        if F >= CONSTANTINOPLE:
            e += ["mk", "killC", "payC"]
        else:
            e += ["mk1", "payE"]
        return e

    @staticmethod
    def killer(b1):
        # calldatasize: 0 -> count in storage; 1 -> selfdestruct to b1; 2 -> selfdestruct to self
        h = asm("CALLDATASIZE DUP1 1 EQ")
        t2 = asm("DUP1 2 EQ")
        base = len(h) + 3 + len(t2) + 3
        cnt = asm("0 SLOAD 1 ADD 0 SSTORE STOP")
        s1 = asm("JUMPDEST", addr_int(b1), "SELFDESTRUCT")
        s2 = asm("JUMPDEST ADDRESS SELFDESTRUCT")
        a, b = base + len(cnt), base + len(cnt) + len(s1)
        return h + b"\x60" + bytes([a]) + b"\x57" + t2 + b"\x60" + bytes([b]) + b"\x57" + cnt + s1 + s2

    def cadr(self):
        return prim.keccak(b"\xff" + M + (5).to_bytes(32, "big") + prim.keccak(initcode(self.killer(B))))[12:]

    def b_seq(self, F, es):
        """B and B2 die when called with data; beneficiary chosen by data length."""
        killer = self.killer
        kB = killer(B2)
        kC = killer(B)
        ini = initcode(kC)
        cadr = self.cadr()
        code = {
            "killB": callto(B, 0, 90000, data=1), "killB_self": callto(B, 0, 90000, data=2), "payB": callto(B, 3, 90000),
            "pokeB": callto(B, 0, 90000), "killB2": callto(B2, 1, 90000, data=1), "killfail": callto(A(4), 0, 150000),
            "mk": asm(mstore_code(ini, 0x100), 5, len(ini), 0x100, 2, "CREATE2 POP"), "killC": callto(cadr, 0, 90000, data=1),
            "payC": callto(cadr, 1, 90000), "mk1": asm(mstore_code(initcode(kC), 0x100), len(ini), 0x100, 2, "CREATE POP"),
            "payE": callto(E1, 0, 90000)}
        obs = asm("GAS 0 MSTORE", addr_int(B), "BALANCE 32 MSTORE", addr_int(B2), "BALANCE 64 MSTORE", addr_int(cadr), "EXTCODESIZE 96 MSTORE 128 0 LOG0")
        ex = {B: (1, 7, kB), B2: (1, 3, killer(E2)), A(4): (1, 0, asm(callto(B, 0, 90000, data=1), "INVALID"))}
        if F < PARIS:
            ex[E1] = (0, 0, b"")
        sto = {B: {0: 4, 9: 9}, B2: {0: 1}}
        # one transaction
        exa = dict(ex)
        exa[M] = (1, 50, asm(*[asm(code[e], obs) for e in es]))
        yield case(F, world(exa), [tx(F, M, gas=2_000_000)], sto)
        # one transaction per event
        if len(es) > 1:
            blocks, disp = [], []
            es_u = sorted(set(es))
            dl = sum(len(asm("CALLDATASIZE", i + 1, "EQ")) + 4 for i in range(len(es_u))) + 1
            pos, d, b = dl, b"", b"\x00"
            for i, e in enumerate(es_u):
                d += asm("CALLDATASIZE", i + 1, "EQ") + b"\x61" + pos.to_bytes(2, "big") + b"\x57"
                x = b"\x5b" + code[e] + obs + b"\x00"
                b += x
                pos += len(x)
            exb = dict(ex)
            exb[M] = (1, 50, d + b)
            yield case(F, world(exb), [tx(F, M, b"\x01" * (es_u.index(e) + 1), nonce=j, gas=2_000_000) for j, e in enumerate(es)], sto)

    def touches(self, F):
        t = ["call0", "call1", "callcode0", "sdben", "bal", "esize", "sdben_bal", "create_empty", "callpre", "call_r3", "failcall"]
        if F >= HOMESTEAD:
            t.append("delegate")
        if F >= BYZANTIUM:
            t.append("static")
        if F >= CONSTANTINOPLE:
            t.append("ehash")
        return t

    def b_touch(self, F, t, m, m2):
        E = E1
        body = {"call0": callto(E), "call1": callto(E, 1), "callcode0": callto(E, 0, kind="CALLCODE"), "delegate": callto(E, 0, kind="DELEGATECALL"),
                "static": callto(E, 0, kind="STATICCALL"), "sdben": callto(B, 0), "sdben_bal": callto(B2, 0), "bal": asm(addr_int(E), "BALANCE POP"),
                "esize": asm(addr_int(E), "EXTCODESIZE POP"), "ehash": asm(addr_int(E), "EXTCODEHASH POP"), "create_empty": asm("0 0 0 CREATE POP"),
                "callpre": callto(P2), "call_r3": callto(R3), "failcall": callto(E, 10**9)}[t]
        ex = {B: (1, 0, asm(addr_int(E), "SELFDESTRUCT")), B2: (1, 2, asm(addr_int(E), "SELFDESTRUCT")),
              A(3): (1, 9, asm(body, ending(F, m))), M: (1, 50, asm(callto(A(3), 0, 200000), "GAS 0 MSTORE 32 0 LOG0", ending(F, m2)))}
        out = []
        for pre in (0, 1):
            e2 = dict(ex)
            if pre and F < PARIS:
                for z in (E1, E2, P2, R3):
                    e2[z] = (0, 0, b"")
            out.append(case(F, world(e2), [tx(F, M, gas=500_000), tx(F, E1, nonce=1), tx(F, E2, nonce=2, value=1)]))
        return out

    def b_ripemd(self, F, g, m, pre):
        """Zero-value call to the RIPEMD precompile that runs out of gas, in kept and undone frames."""
        out = []
        for tgt in (R3, P2, (4).to_bytes(20, "big")):
            for kind in ("CALL", "CALLCODE") + (("STATICCALL",) if F >= BYZANTIUM else ()):
                ex = {A(3): (1, 9, asm(callto(tgt, 0, g, kind), ending(F, m))), M: (1, 50, asm(callto(A(3), 0, 200000), 1, 1, "SSTORE", ending(F, m)))}
                if pre == "empty" and F < PARIS:
                    ex[tgt] = (0, 0, b"")
                elif pre == "bal":
                    ex[tgt] = (0, 1, b"")
                out.append(case(F, world(ex), [tx(F, M, gas=400_000), tx(F, A(3), gas=200_000, nonce=1)]))
                ex2 = dict(ex)
                ex2[M] = (1, 50, asm(callto(A(3), 0, 200000), "STOP"))
                out.append(case(F, world(ex2), [tx(F, M, gas=400_000)]))
                out.append(case(F, world(ex), [tx(F, tgt, gas=21000 + g)]))
        return out

    def b_coin(self, F, cb, p):
        base = 0 if p == 0 else 7
        bl = block(F, base_fee=10 if F >= LONDON else 0)
        gp = (10 if F >= LONDON else 0) if p == 0 else 12
        ex = {M: (1, 50, asm(callto(COINBASE), "STOP"))}
        if cb == "empty" and F < PARIS:
            ex[COINBASE] = (0, 0, b"")
        elif cb == "bal":
            ex[COINBASE] = (0, 5, b"")
        elif cb in ("killed", "code"):
            ex[COINBASE] = (1, 6, asm(addr_int(S2), "SELFDESTRUCT") if cb == "killed" else b"\x00")
        out = []
        for to in (M, S2, COINBASE, NOBODY):
            for key in (K1,):
                t = tx(F, to, gas=200_000)
                t["gas_price"] = gp
                out.append(case(F, world(ex), [t, dict(t, nonce=1)], bl=bl))
        # destroyed in the transaction creating it: the fee must not be lost or revived wrongly
        return out

    def kills(self):
        """(contract, frames above it, the frame that fails or None)"""
        return [(t, d, f) for t in (0, 1) for d in (0, 1, 2) for f in (None,) + tuple(range(d + 1))]

    def b_nested(self, F, a):
        """Two (and the first again) of the destructions at every depth, undone at every level or not: deletions, balances, refunds."""
        bad = asm("0 0 REVERT") if F >= BYZANTIUM else asm("INVALID")
        for b in self.kills():
            ex, code = {B: (1, 7, asm(addr_int(B2), "SELFDESTRUCT")), B2: (1, 3, asm(addr_int(S2), "SELFDESTRUCT"))}, b""
            for j, (t, d, f) in enumerate((a, b, (a[0], 0, None))):
                x = (B, B2)[t]
                for lv in range(d):
                    y = A(100 + 10 * j + lv)
                    ex[y] = (1, 1, asm(callto(x, 1 if j == 1 and lv == 0 else 0, 60000 + 60000 * lv)) + (bad if f == lv else b""))
                    x = y
                if f == d:      # the frame right under the transaction's
                    y = A(100 + 10 * j + 9)
                    ex[y] = (1, 1, asm(callto(x, 0, 250_000)) + bad)
                    x = y
                code += asm(callto(x, 0, 400_000), "GAS", 32 * j, "MSTORE")
            ex[M] = (1, 50, code + asm(addr_int(B), "BALANCE 96 MSTORE", addr_int(B2), "BALANCE 128 MSTORE 160 0 LOG0", 1, 1, "SSTORE"))
            yield case(F, world(ex), [tx(F, M, gas=2_000_000), tx(F, B, value=1, nonce=1)], {B: {1: 1}})

    def b_alias(self, F, what):
        """The same with the fee recipient being one of the contracts involved, and with or without a fee to receive."""
        new = lambda a, n: prim.keccak(prim.rlp([a, n]))[12:]
        if what == "create":
            cs = [(c, x) for x in (None, S1, B) for c in self.b_create(F, x)]
        elif what == "fresh":
            cs = [(c, x) for c in self.b_fresh(F) for x in (new(M, 1), M, S1)]
        elif what == "order":
            cs = [(c, x) for bal in (0, 1) for c in self.b_order(F, bal) for x in (B, B2, M)]
        elif what == "txto":
            cs = [(c, x) for c in self.b_txto(F) for x in (B, S1, E1, R3, NOBODY, P2)]
        elif what == "coin":
            cs = [(c, x) for c in self.b_coin(F, "killed", 1) for x in (M, S1, S2)]
        else:
            cs = [(c, x) for es in [(what[1],)] + [(what[1], e) for e in self.events(F)] for c in self.b_seq(F, es) for x in (B, B2, E2, self.cadr())]
        for c, x in cs:
            for p in (10, c["bl"]["base_fee"]):
                if what == "create" and x is None:
                    yield {**c, "txs": [{**t, "gas_price": p} for t in c["txs"]]}
                else:
                    yield {**c, "bl": {**c["bl"], "coinbase": x}, "txs": [{**t, "gas_price": p} for t in c["txs"]]}

    def b_order(self, F, bal):
        """Two contracts destroying into each other and both again; logs and later payments."""
        out = []
        for order in itertools.permutations((B, B2, B)):
            c = [callto(x, 1, 90000) for x in order]
            c += [callto(B, 2), callto(B2, 2)]
            ex = {B: (1, bal, asm("0 0 LOG0", addr_int(B2), "SELFDESTRUCT")), B2: (1, bal, asm("0 0 LOG0", addr_int(B), "SELFDESTRUCT")),
                  M: (1, 50, asm(*c, addr_int(B), "BALANCE 0 MSTORE", addr_int(B2), "BALANCE 32 MSTORE 64 0 LOG0"))}
            out.append(case(F, world(ex), [tx(F, M), tx(F, M, nonce=1)], {B: {1: 1}, B2: {2: 2}}))
        return out

    def b_txto(self, F):
        """The transaction target itself self-destructs or is empty; sender as beneficiary; value kept or burnt."""
        out = []
        for ben in BENS.values():
            for v in (0, 3):
                ex = {B: (1, 2, asm("ADDRESS" if ben is None else addr_int(ben), "SELFDESTRUCT"))}
                out.append(case(F, world(ex), [tx(F, B, value=v), tx(F, B, value=v, nonce=1)], {B: {1: 1}}))
        for t in (E1, R3, NOBODY, P2):
            for v in (0, 1):
                for g in (21000, 100000):
                    ex = {t: (0, 0, b"")} if F < PARIS else {}
                    out.append(case(F, world(ex), [tx(F, t, value=v, gas=g)]))
                    out.append(case(F, world(), [tx(F, t, value=v, gas=g)]))
        return out

    def b_create(self, F, who=0):
        """Contracts created and destroyed in the same transaction, by init code or later."""
        out = []
        ops = ["CREATE"] + ["CREATE2"] * (F >= CONSTANTINOPLE)
        for op in ops:
            s = [5] if op == "CREATE2" else []
            for ben in BENS.values():
                b = asm("ADDRESS" if ben is None else addr_int(ben), "SELFDESTRUCT")
                for ini, call in ((b, 0), (initcode(b), 1), (initcode(b), 2)):
                    c = asm(mstore_code(ini, 0), *s, len(ini), 0, 4, op)
                    if call:
                        c = asm(c, *["0 0 0 0 1 DUP6 60000 CALL POP"] * call)
                    c = asm(c, "DUP1 BALANCE 0x300 MSTORE DUP1 EXTCODESIZE 0x320 MSTORE GAS 0x340 MSTORE 0x60 0x300 LOG0")
                    for m in ("K", "R"):
                        ex = {M: (1, 50, asm(c, "STOP")), A(3): (1, 9, asm(0, 0, 0, 0, 0, addr_int(M), 300000, "CALL POP", ending(F, m)))}
                        bl = None
                        if who is None:     # the fee recipient is the new contract
                            bl = block(F, coinbase=prim.keccak(b"\xff" + M + (5).to_bytes(32, "big") + prim.keccak(ini))[12:] if s else prim.keccak(prim.rlp([M, 1]))[12:])
                        out.append(case(F, world(ex), [tx(F, M if m == "K" else A(3)), tx(F, M, nonce=1)], bl=bl))
        for ben in BENS.values():
            b = asm("ADDRESS" if ben is None else addr_int(ben), "SELFDESTRUCT")
            for n in (0, 1) if who is None else (None,):
                out.append(case(F, world(), [tx(F, b"", b, value=5), tx(F, b"", initcode(b), value=5, nonce=1)],
                                bl=None if n is None else block(F, coinbase=prim.keccak(prim.rlp([S1, n]))[12:])))
        return out

    def b_fresh(self, F):
        """Creation over an address holding only ether, then destruction in the same transaction."""
        out = []
        na = prim.keccak(prim.rlp([M, 1]))[12:]
        for bal in (0, 9):
            for ben in (S2, None, NOBODY):
                b = asm("ADDRESS" if ben is None else addr_int(ben), "SELFDESTRUCT")
                ini = asm(5, 1, "SSTORE", b)
                ex = {M: (1, 50, asm(mstore_code(ini, 0), len(ini), 0, 4, "CREATE", addr_int(na), "BALANCE 0 MSTORE 32 0 LOG0"))}
                if bal:
                    ex[na] = (0, bal, b"")
                out.append(case(F, world(ex), [tx(F, M), tx(F, na, nonce=1, value=1)]))
        return out

    def b_gas(self, F):
        """Exact cost threshold of the instruction for each beneficiary kind."""
        out = []
        for ben in ("none", "self", "eoa", "empty", "M", "coinbase"):
            for bal in (0, 7):
                t = BENS[ben]
                ex = {B: (1, bal, asm("ADDRESS" if t is None else addr_int(t), "SELFDESTRUCT"))}
                if F < PARIS:
                    ex[E1] = (0, 0, b"")
                for base in (0, 5000, 7600, 30000, 32600, 2600, 27600, 25000):
                    for dlt in range(0, 5):
                        ex2 = dict(ex)
                        ex2[M] = (1, 50, asm(callto(B, 0, base + dlt), "GAS 0 MSTORE 32 0 LOG0"))
                        out.append(case(F, world(ex2), [tx(F, M, gas=300_000)]))
        return out


if __name__ == "__main__":
    raise SystemExit(main(C()))
