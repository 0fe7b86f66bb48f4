"""C13: fees are charged exactly; ether is conserved apart from the defined burns."""
import itertools
from checkbase import *
from drv.diff import Mismatch

M, B = A(1), A(2)


def call(kind, to, value, gas, n=0):
    v = [value] if kind in ("CALL", "CALLCODE") else []
    t = addr_int(to) if isinstance(to, bytes) else to
    return asm(0, 0, 0, 0, *v, t, gas, kind)


class C(DiffCheck):
    pid = "C13"
    rule = ("for every fork and transaction type: every outcome (plain transfer, success, revert, each halt, creation kept / failed, 0..n cleared "
            "slots below / at / above the refund cap, value moves through up to three frames incl. failing ones, self-destruct to every kind of "
            "beneficiary) x every price regime (below, at, above base fee + tip, zero tip, zero price) x value x aliasing of sender, target, "
            "beneficiary and coinbase x coinbase absent/empty/funded; plus a sweep of every gas limit through a refunding program.  Checked against "
            "the model and against the conservation equation.  A state is a distinct post-state")
    bounds = {"quick": "product above with two values", "thorough": "three values, all programs under all roles and two-transaction sequences"}

    def programs(self, F):
        rv = F >= BYZANTIUM
        p = {
            "none": b"", "stop": asm("STOP"), "work": asm(1, 1, "SSTORE 0 2 SSTORE"), "bad": b"\xfe", "under": asm("POP"), "oog": asm("JUMPDEST 0 JUMP"),
            "send": asm(call("CALL", A(60), 3, 5000)), "send2": asm(call("CALL", A(60), 3, 5000), call("CALL", NOBODY, 2, 5000)),
            "sendc": asm(call("CALL", addr_int(COINBASE), 3, 5000)), "sends": asm(0, 0, 0, 0, 3, "ORIGIN 5000 CALL"),
            "sendself": asm(0, 0, 0, 0, 3, "ADDRESS 5000 CALL"), "sendpre": asm(call("CALL", 4, 3, 5000)),
            "sendbad": asm(call("CALL", A(61), 3, 50000)), "toomuch": asm(call("CALL", A(60), 10**20, 5000)),
            "nest": asm(call("CALL", A(62), 7, 200000)), "code": asm(call("CALLCODE", A(62), 7, 200000)),
            "sendfail": asm(call("CALL", A(60), 3, 5000), "INVALID"),
            "create": asm(mstore_code(initcode(b"\x00")), len(initcode(b"\x00")), 0, 4, "CREATE"),
            "createbad": asm(mstore_code(b"\xfe"), 1, 0, 4, "CREATE"),
            "createsd": asm(mstore_code(asm(addr_int(A(60)), "SELFDESTRUCT")), 33, 0, 4, "CREATE"),
        }
        for i, b in enumerate([addr_int(A(60)), addr_int(NOBODY), "ADDRESS", "ORIGIN", "COINBASE", 4]):
            p["sd%d" % i] = asm(b, "SELFDESTRUCT")
        p["sdcall"] = asm(call("CALL", A(63), 5, 60000), call("CALL", A(63), 6, 60000))
        p["sdself"] = asm(call("CALL", A(64), 5, 60000), call("CALL", A(64), 6, 60000))
        for n in (1, 2, 3, 5, 9):
            p["clear%d" % n] = asm(*[asm(0, k, "SSTORE") for k in range(1, n + 1)])
        p["cleargas"] = asm(0, 1, "SSTORE", 0, 2, "SSTORE", *["GAS POP"] * 200, 5, 1, "SSTORE")
        p["clearbad"] = asm(0, 1, "SSTORE", 0, 2, "SSTORE INVALID")
        p["sdclear"] = asm(0, 1, "SSTORE", 0, 2, "SSTORE", addr_int(A(60)), "SELFDESTRUCT")
        if rv:
            p["rev"] = asm(0, 0, "REVERT")
            p["sendrev"] = asm(call("CALL", A(60), 3, 5000), 0, 0, "REVERT")
            p["clearrev"] = asm(0, 1, "SSTORE 0 0 REVERT")
            p["nestrev"] = asm(call("CALL", A(65), 7, 90000))
        return p

    def regimes(self, F, k):
        base = 100 if F >= LONDON else 0
        if k >= 2:
            r = [(base, 0), (base, 7), (base + 3, 7), (base + 7, 7), (base + 8, 7), (base + 50, 0), (10**9, 5)]
        else:
            r = [(base, 0), (base + 1, 0), (base + 1000, 0)]
        return base, r

    ROLES = ["plain", "cb=sender", "cb=to", "to=sender", "all", "cbempty", "cbfund", "cbcode", "cb=60", "cb=pre"]

    def cases(self, tier):
        th = tier == "thorough"
        for F in ALL:
            ps = list(self.programs(F))
            for k in range(evm.max_kind(F) + 1):
                nreg = len(self.regimes(F, k)[1])
                for p in ps:
                    for i in range(nreg):
                        yield ("p", F, k, p, i, "plain", th)
                    for r in self.ROLES[1:]:
                        for i in (range(nreg) if th else (2,)):
                            yield ("p", F, k, p, i, r, th)
                    if th:
                        for q in ps:
                            yield ("two", F, k, p, q)
                for i in range(nreg):
                    for r in self.ROLES:
                        yield ("create", F, k, i, r)
                yield ("floor", F, k)
            for p in ("clear1", "clear2", "clear5", "work", "send2", "sdclear"):
                yield ("sweep", F, p, th)

    def build(self, d):
        return getattr(self, "b_" + d[0])(*d[1:])

    def w(self, F, code, role="plain"):
        acc = {S1: (0, 10**18, b""), M: (1, 1000, code), A(60): (0, 1, b""), A(61): (1, 0, asm(call("CALL", A(60), 2, 5000), "INVALID")),
               A(62): (1, 0, asm(call("CALL", A(61), 3, 60000), call("CALL", A(60), 2, 5000))),
               A(63): (1, 9, asm(addr_int(A(60)), "SELFDESTRUCT")), A(64): (1, 9, asm("ADDRESS SELFDESTRUCT")),
               A(65): (1, 0, asm(call("CALL", A(60), 3, 5000), 0, 0, "REVERT"))}
        cb = COINBASE
        if role == "cb=sender" or role == "all":
            cb = S1
        elif role == "cb=to":
            cb = M
        elif role == "cbempty":
            acc[cb] = (0, 0, b"")
        elif role == "cbfund":
            acc[cb] = (0, 5, b"")
        elif role == "cbcode":
            acc[cb] = (1, 5, asm("INVALID"))
        elif role == "cb=60":
            cb = A(60)
        elif role == "cb=pre":
            cb = bytes(19) + b"\x04"
        sto = {M: {i: i for i in range(1, 10)}}
        return acc, sto, cb

    def mk(self, F, k, i, to, gas, value=0, data=b"", nonce=0):
        base, rs = self.regimes(F, k)
        mf, mp = rs[i]
        t = dict(key=K1, to=to, data=data, value=value, gas=gas, nonce=nonce, kind=k)
        t.update(dict(max_fee=mf, max_prio=mp) if k >= 2 else dict(gas_price=mf))
        if k == 3:
            t.update(blobs=(b"\x01" + bytes(31),) * 2, max_blob_fee=50)
        if k == 4:
            t.update(raw_auths=(real.sign_auth(K3, 1, A(60), 0),), auth_who=(S3,))
        return t, base

    def b_p(self, F, k, p, i, role, th):
        code = self.programs(F)[p]
        acc, sto, cb = self.w(F, code, role)
        gas = 60_000 if p == "oog" else 400_000
        for v in ((0, 11, 1000) if th else (11,) if role != "plain" else (0, 11)):
            to = S1 if role in ("to=sender", "all") else M
            t, base = self.mk(F, k, i, to, gas, v)
            yield case(F, acc, [t], sto, block(F, coinbase=cb, base_fee=base, excess_blob_gas=30 * 10**6))

    def b_two(self, F, k, p, q):
        ps = self.programs(F)
        acc, sto, cb = self.w(F, ps[p])
        acc[B] = (1, 1000, ps[q])
        sto[B] = dict(sto[M])
        t, base = self.mk(F, k, 1, M, 400_000, 3)
        u, base = self.mk(F, k, 2, B, 400_000, 4, nonce=1)
        x, base = self.mk(F, k, 2, M, 400_000, 5, nonce=2)
        yield case(F, acc, [t, u, x], sto, block(F, coinbase=cb, base_fee=base, excess_blob_gas=10**6))

    def b_create(self, F, k, i, role):
        if k >= 3:
            return
        for code in (b"", initcode(b"\x00\x01"), b"\xfe", asm(addr_int(A(60)), "SELFDESTRUCT"), asm("ADDRESS SELFDESTRUCT"),
                     asm(0, 0, "REVERT") if F >= BYZANTIUM else b"\xfe", asm(0, 1, "SSTORE"), initcode(b"\xef\x00"), asm(30000, 0, "RETURN")):
            acc, sto, cb = self.w(F, b"", role)
            for gas in (200_000, 54_000):
                t, base = self.mk(F, k, i, b"", gas, 5, code)
                yield case(F, acc, [t], sto, block(F, coinbase=cb, base_fee=base))

    def b_floor(self, F, k):
        # calldata-heavy: floor above / below execution cost, with refunds that would go below the floor
        for p in ("none", "work", "clear1", "clear5", "bad"):
            code = self.programs(F)[p]
            acc, sto, cb = self.w(F, code)
            for n in (0, 1, 40, 400, 1000, 4000):
                for byte in (b"\0", b"\1"):
                    t, base = self.mk(F, k, 1, M, 400_000, 1, byte * n)
                    yield case(F, acc, [t], sto, block(F, coinbase=cb, base_fee=base))

    def b_sweep(self, F, p, th):
        code = self.programs(F)[p]
        acc, sto, cb = self.w(F, code)
        for g in range(21_000, 75_000, 101 if th else 601):
            t, base = self.mk(F, 0, 2, M, g, 1)
            yield case(F, acc, [t], sto, block(F, coinbase=cb, base_fee=base))

    def invariant(self, desc, c, info):
        """Conservation, on cases whose programs do not destroy accounts."""
        if desc[0] == "p" and not desc[3].startswith(("sd", "createsd")) or desc[0] in ("sweep", "floor") and desc[1] and desc[2] != "sdclear":
            before = sum(v[1] for v in c["acc"].values())
            st = self.post
            after = sum(v[1] for v in st.values())
            burnt = sum(r["burnt"] for r in info if isinstance(r, dict))
            if before - burnt != after:
                raise Mismatch(f"ether not conserved: before {before} burnt {burnt} after {after}")
            for t, r in zip(c["txs"], info):
                if isinstance(r, dict) and t["value"] == 0 and desc[-2 if desc[0] == "p" else 0] == "plain" and desc[3] not in ("sends", "sendc"):
                    base = c["bl"]["base_fee"]
                    eff = t.get("gas_price", base + min(t.get("max_prio", 0), t.get("max_fee", 0) - base))
                    blob = 131072 * len(t.get("blobs", ())) * evm.blob_price(c["F"], c["bl"]["excess_blob_gas"]) if t["kind"] == 3 else 0
                    if c["acc"][S1][1] - st[S1][1] != r["gas_used"] * eff + blob:
                        raise Mismatch("sender did not pay exactly used gas at the effective price")
                    if st.get(c["bl"]["coinbase"], (0, 0, b""))[1] != r["gas_used"] * (eff - base):
                        raise Mismatch("beneficiary did not receive exactly the priority part")

    def run(self, desc):
        orig = diff.compare_state

        def keep(fk, st, rs, i):
            orig(fk, st, rs, i)
            self.post = fk.dump(rs)[0]
        diff.compare_state = keep
        try:
            return DiffCheck.run(self, desc)
        finally:
            diff.compare_state = orig


if __name__ == "__main__":
    raise SystemExit(main(C()))
