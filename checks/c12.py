"""C12: exactly the valid transactions are accepted; a rejected one changes nothing."""
import itertools
from checkbase import *

U64M = 2**64 - 1
REV = bytes(20)
CODES = {"code": b"\x00", "deleg": b"\xef\x01\x00" + A(9), "deleg19": b"\xef\x01\x00" + A(9)[:19], "deleg21": b"\xef\x01\x00" + A(9) + b"\0",
         "ef": b"\xef", "ef0101": b"\xef\x01\x01" + A(9)}


class C(DiffCheck):
    pid = "C12"
    rule = ("for every fork and transaction type, every pair of deviations from a valid baseline, each deviation being the value just below, at "
            "and just above one validity rule (intrinsic and floor gas, gas cap, remaining block gas, nonce, nonce limit, balance for the maximum "
            "cost, fee caps against base fee and each other, init code size, sender code incl. every near-delegation, chain id, signature, blob "
            "count / remaining blob gas / version / fee, authorization and creation rules); each case after an accepted and before another "
            "transaction, single deviations also alone and after a rejected one.  A state is a distinct (post-state, verdict)")
    bounds = {"quick": "all pairs of deviations", "thorough": "all triples of deviations over distinct rules"}

    def factors(self, F, k):
        g = [("gas", x) for x in ("ig-1", "ig", "ig+1", "fl-1", "fl", "rest", "rest+1", "zero")]
        if F >= SHANGHAI:
            g += [("gas", x) for x in ("cap", "cap+1")]
        n = [("nonce", x) for x in ("-1", "+1", "max-1", "max", "max+", "big")]
        b = [("bal", x) for x in ("-1", "0", "+1", "none", "noval", "cap-")]
        v = [("val", x) for x in (1, 2**256 - 1)]
        f = []
        if F >= LONDON:
            f = [("fee", x) for x in ("base-1", "base", "base+1", "zero")]
        if k >= 2:
            f += [("fee", x) for x in ("prio=max", "prio>max", "prio0", "wide")]
        f += [("fee", "huge")]
        c = [("code", x) for x in CODES]
        d = [("data", x) for x in ("zeros", "ones", "mix")]
        if k not in (3, 4):
            d += [("create", x) for x in ("empty", "small", "lim", "lim+1", "lim+32")]
        else:
            d += [("create", "empty")]
        s = [("sig", x) for x in ("r0", "s0", "bad")]
        e = []
        if k:
            e += [("chain", 2), ("chain", 0), ("acl", 1), ("acl", 2)]
        if k == 3:
            e += [("blobs", x) for x in (0, 2, 5, 6, 7, 8, 9, 10)] + [("ver", x) for x in (0, 2, "last")] + \
                 [("bfee", x) for x in ("-1", "0", "huge")] + [("excess", x) for x in (0, 10**7)]
        if k == 4:
            e += [("auths", x) for x in (0, 2)]
        return g + n + b + v + f + c + d + s + e

    def cases(self, tier):
        r = 3 if tier == "thorough" else 2
        for F in ALL:
            for k in range(evm.max_kind(F) + 1):
                fs = self.factors(F, k)
                yield ("v", F, k, ())
                for m in range(1, r + 1):
                    for c in itertools.combinations(fs, m):
                        if len({x[0] for x in c}) == m:
                            yield ("v", F, k, c)
                yield ("order", F, k)
            if F >= CANCUN:
                for a, b in itertools.product(range(1, 8), repeat=2):
                    yield ("blobrest", F, a, b)
            for gl in (0, 1, 20999, 21000, 21001, 41999, 42000, 42001, 53000):
                yield ("limit", F, gl)

    def build(self, d):
        return getattr(self, "b_" + d[0])(*d[1:])

    def one(self, F, k, dev, used=0):
        """-> (tx dict, sender account, block)"""
        dv = dict(dev)
        base = 1000 if F >= LONDON else 0
        bl = block(F, base_fee=base, gas_limit=30_000_000)
        if "excess" in dv or k == 3:
            bl["excess_blob_gas"] = dv.get("excess", 10**6 * 30)
        key = K2
        t = dict(key=key, to=A(3), data=b"", value=0, kind=k, nonce=5)
        if k >= 2:
            t.update(max_fee=2000, max_prio=500)
        else:
            t.update(gas_price=2000)
        x = dv.get("fee")
        if x in ("base-1", "base", "base+1", "zero"):
            p = {"base-1": base - 1, "base": base, "base+1": base + 1, "zero": 0}[x]
            if k >= 2:
                t.update(max_fee=p, max_prio=min(p, 1))
            else:
                t.update(gas_price=p)
        elif x == "prio=max":
            t.update(max_prio=2000)
        elif x == "prio>max":
            t.update(max_prio=2001)
        elif x == "prio0":
            t.update(max_prio=0)
        elif x == "wide":
            t.update(max_fee=10**15, max_prio=3)
        elif x == "huge":
            t.update(**({"max_fee": 2**256 - 1, "max_prio": 1} if k >= 2 else {"gas_price": 2**256 - 1}))
        if dv.get("data") == "zeros":
            t["data"] = bytes(64)
        elif dv.get("data") == "ones":
            t["data"] = b"\x01" * 64
        elif dv.get("data") == "mix":
            t["data"] = b"\x01\x00" * 33
        cr = dv.get("create")
        if cr:
            t["to"] = b""
            t["data"] = {"empty": b"", "small": initcode(b"\x00") + t["data"], "lim": bytes(49152), "lim+1": bytes(49153), "lim+32": bytes(49184)}[cr]
        t["value"] = dv.get("val", 0)
        if k:
            t["chain_id"] = dv.get("chain", 1)
            if "acl" in dv:
                t["access"] = ((A(3), (1, 2)),) if dv["acl"] == 1 else ((A(3), ()), (A(4), (0,)), (A(4), (0,)))
        if k == 3:
            n = dv.get("blobs", 1)
            vs = [b"\x01" + bytes([i]) * 31 for i in range(n)]
            if vs and "ver" in dv:
                if dv["ver"] == "last":
                    vs[-1] = b"\x00" + vs[-1][1:]
                else:
                    vs[0] = bytes([dv["ver"]]) + vs[0][1:]
            bp = evm.blob_price(F, bl["excess_blob_gas"])
            t.update(blobs=tuple(vs), max_blob_fee={"-1": bp - 1, "0": bp, "huge": 2**255, None: bp + 5}[dv.get("bfee")])
        if k == 4:
            au = real.sign_auth(K3, 1, A(8), 0)
            t.update(raw_auths=(au,) * dv.get("auths", 1), auth_who=(S3,) * dv.get("auths", 1))
        # gas
        probe, _ = self._probe(F, t)
        ig, fl = evm.intrinsic(F, probe)
        need = max(ig, fl)
        rest = bl["gas_limit"] - used
        t["gas"] = {None: need + 30000, "ig-1": ig - 1, "ig": ig, "ig+1": ig + 1, "fl-1": max(fl, 1) - 1, "fl": fl, "rest": rest,
                    "rest+1": rest + 1, "zero": 0, "cap": 16777216, "cap+1": 16777217}[dv.get("gas")]
        # nonce
        x = dv.get("nonce")
        sn = 5
        if x == "-1":
            t["nonce"] = 4
        elif x == "+1":
            t["nonce"] = 6
        elif x == "max-1":
            sn = t["nonce"] = U64M - 1
        elif x == "max":
            sn = t["nonce"] = U64M
        elif x == "max+":
            sn, t["nonce"] = U64M, U64M - 1
        elif x == "big" and k != 4:
            t["nonce"] = 2**64 + 5
        # balance
        fee = t.get("max_fee", t.get("gas_price", 0))
        blob = 131072 * len(t.get("blobs", ())) * t.get("max_blob_fee", 0)
        cost = t["gas"] * fee + blob + t["value"]
        x = dv.get("bal")
        eff = fee if k < 2 else min(fee, base + t["max_prio"])
        bal = {None: cost + 10**18, "-1": cost - 1, "0": cost, "+1": cost + 1, "none": 0, "noval": cost - t["value"],
               "cap-": t["gas"] * eff + t["value"] + blob}[x]
        bal = max(0, min(bal, 2**256 - 1))
        code = CODES[dv["code"]] if "code" in dv else b""
        x = dv.get("sig")
        if x:
            tx_, sig = diff.make_tx(F, dict(t))
            t.pop("key")
            t["sender"] = None
            v, r, s = sig
            t["sig"] = {"r0": (v, 0, s), "s0": (v, r, 0), "bad": (v, 2**256 - 1, s)}[x]
        return t, (sn, bal, code), bl

    def _probe(self, F, t):
        u = dict(t)
        for q in ("key", "sig", "sender", "protected", "auth_who"):
            u.pop(q, None)
        ra = u.pop("raw_auths", ())
        u["auths"] = ra
        return evm.Tx(None, **u), None

    def b_v(self, F, k, dev):
        ok = dict(key=K1, to=A(3), data=b"", value=1, gas=60_000, kind=0, nonce=0, gas_price=2000)
        ok2 = dict(ok, nonce=1)
        w = {A(3): (1, 0, asm("CALLER SLOAD 1 ADD CALLER SSTORE")), A(9): (1, 0, b"\x00"), A(8): (1, 0, b"\x00")}
        if len(dev) < 2:
            t, acct, bl = self.one(F, k, dev)
            yield case(F, {S1: (0, ETH, b""), S2: acct, **w}, [t], bl=bl)
        # exact remaining gas after the first transaction, which uses all it is given
        t, acct, bl = self.one(F, k, dev, used=21000)
        first = dict(ok, to=A(7), gas=21000)
        yield case(F, {S1: (0, ETH, b""), S2: acct, **w}, [first, t, ok2], bl=bl)
        if len(dev) < 2:
            t, acct, bl = self.one(F, k, dev)
            bad = dict(ok, nonce=3)
            yield case(F, {S1: (0, ETH, b""), S2: acct, **w}, [bad, t, ok, t], bl=bl)

    def b_order(self, F, k):
        # the same transaction twice, a gap filled later, same nonce by two senders
        t, acct, bl = self.one(F, k, ())
        t1 = dict(t, nonce=6)
        w = {A(3): (1, 0, b"\x00"), A(8): (1, 0, b"\x00")}
        for txs in ([t, t], [t1, t, t1], [t, t1, t, t1]):
            yield case(F, {S2: (acct[0], acct[1] * 3, b""), **w}, txs, bl=bl)
            yield case(F, {S2: acct, **w}, txs, bl=bl)

    def b_blobrest(self, F, a, b):
        bl = block(F)
        mk = lambda n, nonce: dict(key=K1, to=A(3), kind=3, nonce=nonce, gas=21000, max_fee=100, max_prio=1, max_blob_fee=10,
                                   blobs=tuple(b"\x01" + bytes(31) for _ in range(n)))
        yield case(F, {S1: (0, ETH, b"")}, [mk(a, 0), mk(b, 1), mk(b, 0), mk(1, 1), mk(1, 2)], bl=bl)

    def b_limit(self, F, gl):
        bl = block(F, gas_limit=gl)
        ts = [dict(key=K1, to=A(3), gas=g, nonce=n, kind=0, gas_price=10) for g, n in ((21000, 0), (21000, 1), (21001, 0), (20999, 0), (gl, 2))]
        for p in ([ts[0], ts[1]], [ts[2], ts[0], ts[4]], [ts[3], ts[0]], [dict(ts[0], gas=gl), ts[1]]):
            yield case(F, {S1: (0, ETH, b"")}, list(p), bl=bl)


if __name__ == "__main__":
    raise SystemExit(main(C()))
