"""C31: the synchronisation tool imports exactly the provider's chain, through crashes and resumptions."""
import itertools
import os
import shutil
import tempfile
import types

from checkbase import *
from drv import syncdrv as Y
from drv.diff import Mismatch, digest
from ref import chain
from ref.chain import hhash

K = [0, 1]
LOGGER = A(0x31)          # counts calls, stores the caller's value
HASHER = A(0x32)          # stores hashes of ancestors
WCODE = {chain.WREQ: (1, 0, b"\x00"), chain.CREQ: (1, 0, b"\x00")}
HASHES_AT = (1, 2, 3, 200, 254, 255, 256, 257)


def accounts():
    store = asm(*[[n, "NUMBER SUB BLOCKHASH", 100 + n, "SSTORE"] for n in HASHES_AT])
    return {S1: (0, 10**24, b""), S2: (0, 10**24, b""), LOGGER: (1, 0, asm("0 SLOAD 1 ADD DUP1 0 SSTORE NUMBER SWAP1 SSTORE CALLVALUE 1 SSTORE")), HASHER: (1, 0, store),
            **WCODE, A(0x33): (1, 0, asm("0 SLOAD 1 ADD 0 SSTORE", addr_int(S1), "SELFDESTRUCT"))}


STO = {LOGGER: {7: 9}}


def to(F, n, at=LOGGER, kind=0, key=K1, value=3, gas=150_000, **kw):
    t = dict(key=key, to=at, data=b"\x01\x00\x02", value=value, gas=gas, nonce=n, kind=kind, **kw)
    if kind >= 2:
        t.update(max_fee=10**10, max_prio=2)
    else:
        t.update(gas_price=10**10)
    return t


def types_of(F):
    """One transaction of every type of the fork, a creation, a plain payment and a call, by two senders."""
    n = itertools.count()
    ts = [to(F, next(n)), to(F, next(n), at=b"", value=1, gas=200_000), to(F, next(n), at=NOBODY, gas=21_500)]
    acc = ((LOGGER, (0, 1, 2**200)), (NOBODY, ()))
    for k in range(1, evm.max_kind(F) + 1):
        kw = dict(access=acc)
        if k == 3:
            kw.update(blobs=(b"\x01" + bytes(31), b"\x01" + b"\xff" * 31), max_blob_fee=100)
        if k == 4:
            kw.update(raw_auths=(real.sign_auth(K3, 0, LOGGER, 0), real.sign_auth(K3, 1337803, A(0x33), 1)), auth_who=(S3, S3))
        ts.append(to(F, next(n), kind=k, **kw))
        if k in (1, 2):
            ts.append(to(F, next(n), kind=k, at=b"", access=()))
    ts.append(to(F, 0, key=K2, at=HASHER, value=0, gas=400_000))
    return ts


# fork schedules: [(fork, by number 0 / by time 1, value)]
def sched(*fs, base=None):
    return [(f, int(f >= SHANGHAI), v) for f, v in fs]


def t_at(n):
    """Timestamp of block n (blocks are 12 s apart)."""
    return Y.T0 + 12 * n


SCHEDULES = {
    "pow": [(FRONTIER, 0, 0), (HOMESTEAD, 0, 2), (TANGERINE, 0, 3), (SPURIOUS, 0, 5), (BYZANTIUM, 0, 7)],
    "const": [(FRONTIER, 0, 0), (CONSTANTINOPLE, 0, 2), (ISTANBUL, 0, 4), (BERLIN, 0, 6)],
    "london": [(FRONTIER, 0, 0), (BERLIN, 0, 2), (LONDON, 0, 4)],
    "merge": [(FRONTIER, 0, 0), (LONDON, 0, 0), (PARIS, 0, 3), (SHANGHAI, 1, t_at(5))],
    "allzero": [(FRONTIER, 0, 0), (HOMESTEAD, 0, 0), (TANGERINE, 0, 0), (LONDON, 0, 0), (PARIS, 0, 0), (SHANGHAI, 1, t_at(2))],
    "shanghai": [(PARIS, 0, 0), (SHANGHAI, 1, t_at(1)), (CANCUN, 1, t_at(3))],
    "prague": [(SHANGHAI, 0, 0), (CANCUN, 1, t_at(2)), (PRAGUE, 1, t_at(4)), (OSAKA, 1, t_at(6))],
}
SCHEDULES["merge"] = [(LONDON, 0, 0), (PARIS, 0, 3), (SHANGHAI, 1, t_at(5))]
SCHEDULES["allzero"] = [(FRONTIER, 0, 0), (BERLIN, 0, 0), (PARIS, 0, 0), (SHANGHAI, 1, t_at(2))]
SCHEDULES["prague2"] = [(CANCUN, 0, 0), (PRAGUE, 1, t_at(4))]
RESUME = ("pow", "const", "london", "merge", "allzero", "shanghai", "prague2")
NB = {"prague2": 6, "pow": 8, "const": 7, "london": 7, "merge": 7, "allzero": 4, "shanghai": 5, "prague": 7}
SCHEDULES["allzero"] = [(PARIS, 0, 0), (SHANGHAI, 1, t_at(2))]
WDS = [(0, 5, A(0x41), 10**9), (1, 2**63, NOBODY, 7), (2, 1, LOGGER, 0)]
_P = {}


def provider(name, content):
    """content: 'empty', 'calls' (one call and one payment per block), 'types' (every transaction type), 'ommers'."""
    if (name, content) in _P:
        return _P[name, content]
    P = Y.Provider(SCHEDULES[name], accounts(), STO)
    n1 = n2 = 0
    for i in range(1, NB[name] + 1):
        def body(F):
            if content == "empty":
                return []
            if content in ("calls", "ommers") or i % 2:
                return [to(F, P.m.st.get(S1)[0], value=i, gas=110_000), to(F, P.m.st.get(S2)[0], key=K2, at=HASHER if i % 3 == 0 else NOBODY, value=0, gas=400_000 if i % 3 == 0 else 22_000)]
            ts = types_of(F)
            return [dict(t, nonce=t["nonce"] + P.m.st.get(S1 if t["key"] == K1 else S2)[0]) for t in ts]
        F = P.at(i, t_at(i))
        om = ()
        if content == "ommers" and F < PARIS and i > 2:
            om = [P.ommer(d) for d in (1, 2) if P.m.blocks[-d][0]["number"] > 0 and P.m.blocks[-d][0]["F"] == F and len(P.m.blocks) > d]
            seen = {hhash(o) for b in P.m.blocks for o in b[2]}
            om = [o for o in om if hhash(o) not in seen]
        P.add(body, ommers=om, wds=WDS[: i % 4] if F >= SHANGHAI else ())
    _P[name, content] = P
    return P


ENDP = ("geth", "eth")
HEXF = Y.hx


class C(DiffCheck):
    pid = "C31"
    rule = ("fork tracking over all small schedules and block sequences; the real tool in a child process against an in-process provider: fork schedule x "
            "block contents x endpoint x state implementation x batch size x every order of the replies x head position; a persisted run killed before and after every "
            "database event and then resumed, at every commit frequency; every stop block then resumed, copied initial state, reset; resumption beyond 256 blocks; every "
            "single-block corruption or provider fault; every interleaving of the downloader and importer threads at their queue operations and requests, with "
            "queue time-outs.  A state is a distinct (scenario, outcome)")
    bounds = {"quick": "chains of at most 8 blocks (one of 262), batches of 1..4, all 24 orders of 4 replies, every pattern of 5 blocks the provider does not know yet, one kill, at most one queue time-out",
              "thorough": "more schedules per family, two kills, two time-outs"}
    assumptions = ["the database file keeps what its engine committed (kills are process kills, not power cuts)", "proof of work is accepted (decided by C24)",
                   "at most one time-activated fork within 256 blocks below the resumption point"]

    def setup(self):
        # third-party and fork-independent modules only: the tool patches forks before they are imported
        import ethereum_spec_tools.sync  # noqa
        import ethereum_spec_tools.forks  # noqa
        import rust_pyspec_glue, coincurve, py_ecc.bn128, py_ecc.optimized_bn128, py_ecc.optimized_bls12_381, py_ecc.bls.hash_to_curve  # noqa

    def cases(self, tier):
        th = tier == "thorough"
        for i in range(5):
            for j in range(4):
                yield ("track", i, j, th)
        for name in SCHEDULES:
            for content in ("empty", "calls", "types") + ("ommers",) * (SCHEDULES[name][0][0] < PARIS):
                for e in ENDP:
                    for un in (0, 1):
                        yield ("serve", name, content, e, un, 0, "asc", 0, 0)
        for name in SCHEDULES:
            for e in ENDP:
                for q in (2, 4, 6, 16):
                    for o in ("desc", "rot", "odd"):
                        yield ("serve", name, "ommers" if SCHEDULES[name][0][0] < PARIS else "types", e, 1, q, o, 0, 0)
        for e in ENDP:
            for name in ("london", "prague") if not th else SCHEDULES:
                for o in itertools.permutations(range(4)):
                    yield ("serve", name, "ommers" if name == "london" else "calls", e, 1, 8, o, 0, 0)
        for name in ("london", "shanghai") if not th else SCHEDULES:
            for h0 in range(1, NB[name]):
                for g in (1, 2):
                    for o in ("asc", "desc", "rot"):
                        yield ("serve", name, "calls", "eth", 1, 8, o, h0, g)
        for name in SCHEDULES:
            for h0 in range(1, NB[name] + 1):
                for q in (2, 6, 64):
                    yield ("end", name, h0, q)
        for name in ("london", "merge", "prague2") if not th else RESUME:
            for e in ENDP:
                for gpc in (0, 100_000, 10**9) if th or name == "merge" else (0,):
                    for s in range(1, NB[name]):
                        yield ("stop", name, e, gpc, s)
        for name, gpc in [("shanghai", 0), ("london", 100_000)] if not th else [(n, g) for n in RESUME for g in (0, 100_000, 10**9)]:
            for k in range(24 if not th else 60):
                yield ("kill", name, gpc, k, 24 if not th else 60, th)
        for first in (253, 254, 255, 256, 257, 258, 260):
            for e in ENDP[: 1 + th]:
                yield ("window", first, e)
        for name in ("london", "prague") if not th else SCHEDULES:
            for e in ENDP:
                for n in range(1, NB[name] + 1):
                    yield ("bad", name, e, n)
        for name in ("london", "prague") if not th else SCHEDULES:
            for late in range(1, 32):
                yield ("late", name, late)
        for q in (1, 2, 3):
            for e in ENDP:
                for fault in (0, 1):
                    for nb in (2, 3):
                        yield ("threads", q, e, fault, nb, 1 if not th else 2)
        yield ("opts",)

    def build(self, d):
        raise NotImplementedError

    def run(self, d):
        self.digs, self.n, self.k = [], 0, 0
        getattr(self, d[0])(*d[1:])
        return Result(self.digs, self.n, self.k)

    def note(self, *x):
        self.digs.append(digest(x))
        self.k += 1

    # ------------------------------------------------------------ fork tracking
    def track(self, i, j, th):
        from ethereum_spec_tools.forks import Hardfork
        from ethereum_spec_tools.sync import ForkTracking
        from ethereum.fork_criteria import ByBlockNumber, ByTimestamp
        from ethereum_types.numeric import U256, Uint
        V = (0, 1, 2, 3, 5)
        for nnum in range(1, 4 + th):
            for nums in itertools.combinations(V, nnum):
                if nums[0] != 0:
                    continue
                for ntime in range(0, 3 + th):
                    for times in itertools.combinations((3, 10, 11, 20, 22)[:4 + th], ntime):
                        crit = [(0, v) for v in nums] + [(1, v) for v in times]
                        forks = [Hardfork(types.SimpleNamespace(FORK_CRITERIA=ByTimestamp(U256(v)) if k else ByBlockNumber(Uint(v)), __name__=f"x.f{n}")) for n, (k, v) in enumerate(crit)]

                        def at(num, tm):
                            r = 0
                            for n, (k, v) in enumerate(crit):
                                if (tm if k else num) < v:
                                    break
                                r = n
                            return r
                        # i: starting block, j: time step pattern
                        step = ([1], [5], [1, 10], [10, 1, 1])[j]
                        tm = (0, 2, 9, 10, 21)[i]
                        for start in range(0, 6):
                            t = ForkTracking(forks, Uint(start), U256(tm))
                            self.n += 1
                            if t.active_fork_index != at(start, tm) or int(t.block_number) != start:
                                raise Mismatch(f"tracking {crit} at block {start} time {tm}: fork {t.active_fork_index}, expected {at(start, tm)}")
                            cur, now = at(start, tm), tm
                            for b in range(start + 1, start + 7):
                                now += step[b % len(step)]
                                ch = t.advance_block(U256(now))
                                want = max(cur, at(b, now))
                                self.n += 1
                                if t.active_fork_index != want or int(t.block_number) != b or ch is not (want != cur):
                                    raise Mismatch(f"tracking {crit} advancing to block {b} time {now}: fork {t.active_fork_index} changed {ch}, expected {want} {want != cur}")
                                nxt = t.next_fork
                                if (nxt is None) != (want == len(crit) - 1) or t.active_fork is not forks[want]:
                                    raise Mismatch("active or next fork wrong")
                                cur = want
                        self.note(tuple(crit), i, j)

    # ------------------------------------------------------------ running the tool
    def scn(self, P, e="geth", un=0, q=0, stop=None, order="asc", head=0, grow=0, fault=None, persist=None, gpc=None, extra=(), **kw):
        args = ["--geth"] * (e == "geth") + ["--unoptimized"] * un
        if stop is not None:
            args += ["--stop-at", str(stop)]
        if persist:
            args += ["--persist", persist]
        if gpc is not None:
            args += ["--gas-per-commit", str(gpc)]
        bl = [None if b is None else {k: b[k] for k in ("raw", "json", "ommers")} for b in P.blocks]
        return dict(config=P.config, schedule=P.schedule, args=args + list(extra), q=q, server=dict(blocks=bl, order=order, head=head, grow=grow, fault=fault), **kw)

    def go(self, scn):
        r = Y.run(scn)
        self.n += 1
        return r

    def expect(self, P, r, n, what, whole=True):
        """The run ended normally with the provider's first n blocks imported."""
        if r.get("killed"):
            raise Mismatch(f"{what}: the tool did not finish (status {r['killed']})")
        if r["exc"]:
            raise Mismatch(f"{what}: the tool failed on a valid chain: {r['exc']}")
        want = [hhash(P.genesis)] + [b["hash"] for b in P.blocks[1:n + 1]]
        got = r["hashes"]
        if whole and got != want[-255:] or not got or got != want[-len(got):] or (len(got) < min(n, 255)):
            raise Mismatch(f"{what}: chain of {len(got)} blocks differs from the provider's first {n}")
        if r["root"] != P.roots[n]:
            raise Mismatch(f"{what}: state root differs after block {n}")
        F = P.genesis["F"] if n == 0 else P.blocks[n]["F"]
        if (r["number"], r["fork"], r["chain_id"]) != (n, NAMES[F], P.chain_id):
            raise Mismatch(f"{what}: at {(r['number'], r['fork'], r['chain_id'])}, expected {(n, NAMES[F], P.chain_id)}")
        self.note(what, r["root"], n)

    def serve(self, name, content, e, un, q, order, h0, g):
        P = provider(name, content)
        r = self.go(self.scn(P, e, un, q, stop=NB[name], order=tuple(order) if isinstance(order, list) else order, head=h0, grow=g))
        self.expect(P, r, NB[name], f"{name}/{content} {e} unoptimized={un} batch={q // 2 or 256} replies {order} head {h0}+{g}")

    def end(self, name, h0, q):
        """Without a stop block the run ends at the provider's head."""
        P = provider(name, "calls")
        r = self.go(self.scn(P, "geth", 1, q, head=h0))
        self.expect(P, r, h0, f"{name} until the head {h0}, batch {q // 2}")

    # ------------------------------------------------------------ persistence
    def disk(self, path):
        return Y.run({"persisted": path})

    def on_disk(self, P, path, what, exact=None):
        """What the database holds is exactly the state after some block; returns its number (None: nothing committed)."""
        d = self.disk(path)
        if d["number"] is None:
            if d["time"] is not None or d["chain_id"] is not None:
                raise Mismatch(f"{what}: metadata without a block number: {d}")
            if d["root"] not in (prim.EMPTY_ROOT, P.roots[0]):
                raise Mismatch(f"{what}: no block recorded but the database holds state {d['root'].hex()}")
            n = None
        else:
            n = int(d["number"])
            if not 1 <= n < len(P.blocks) or int(d["time"]) != P.blocks[n]["time"] or int(d["chain_id"] or -1) != P.chain_id:
                raise Mismatch(f"{what}: metadata {d}")
            if d["root"] != P.roots[n]:
                raise Mismatch(f"{what}: the database says block {n} but holds a different state")
        if exact is not None and n != exact:
            raise Mismatch(f"{what}: the database is at block {n}, expected {exact}")
        self.note(what, n)
        return n

    def stop(self, name, e, gpc, s):
        P = provider(name, "calls" if e == "geth" else "types")
        with tempfile.TemporaryDirectory(prefix="c31-") as T:
            db = os.path.join(T, "db")
            os.mkdir(db)
            r = self.go(self.scn(P, e, persist=db, gpc=gpc, stop=s))
            what = f"{name} {e} commit every {gpc} gas, stop at {s}"
            self.expect(P, r, s, what)
            self.on_disk(P, db, what, s)
            r = self.go(self.scn(P, e, persist=db, gpc=gpc, stop=NB[name], q=6))
            self.expect(P, r, NB[name], what + ", resumed", whole=False)
            self.on_disk(P, db, what + ", resumed", NB[name])
            if s == 2:
                # another database started from a copy of this one, and this one reset
                db2 = os.path.join(T, "db2")
                r = self.go(self.scn(P, e, persist=db, gpc=gpc, stop=s + 1, extra=["--reset"]))
                self.expect(P, r, s + 1, what + ", then reset")
                self.on_disk(P, db, what + ", then reset", s + 1)
                r = self.go(self.scn(P, e, persist=db2, stop=NB[name], extra=["--initial-state", db]))
                self.expect(P, r, NB[name], what + ", from a copied database", whole=False)
                self.on_disk(P, db2, what + ", copy", NB[name])
                self.on_disk(P, db, what + ", source of the copy", s + 1)

    def kill(self, name, gpc, k, parts, th):
        P = provider(name, "calls")
        N = NB[name]
        with tempfile.TemporaryDirectory(prefix="c31-") as T:
            def fresh(tag):
                d = os.path.join(T, tag)
                os.mkdir(d)
                return d
            r = self.go(self.scn(P, persist=fresh("ref"), gpc=gpc, stop=N))
            self.expect(P, r, N, f"{name} uninterrupted, commit every {gpc}")
            ev = r["events"]
            # kill points: before the event; after it when it commits or begins; writes of one run of equal events are explored at its first only (quick)
            pts = [(i + 1, w) for i, x in enumerate(ev) for w in ((0, 1) if x == "commit_mutable" else (0,)) if th or x != "set_account" and x != "set_storage" or i == 0 or ev[i - 1] != x]
            for i, w in pts[k::parts]:
                db = fresh(f"k{i}{w}")
                what = f"{name} commit every {gpc}, killed {'after' if w else 'before'} database event {i} ({ev[i - 1]})"
                r = self.go(self.scn(P, persist=db, gpc=gpc, stop=N, kill=(i, w)))
                if r.get("killed") != 99:
                    raise Mismatch(f"{what}: event not reached: {r.get('exc') or r.get('killed')}")
                n = self.on_disk(P, db, what)
                if th and n:
                    j = 1 + (i * 7) % 40
                    self.go(self.scn(P, persist=db, gpc=gpc, stop=N, kill=(j, 0)))
                    m = self.on_disk(P, db, what + f", resumed and killed at event {j}")
                    if m < n:
                        raise Mismatch(f"{what}: resuming lost blocks")
                r = self.go(self.scn(P, persist=db, gpc=gpc, stop=N))
                if n is not None and n == N:
                    continue
                self.expect(P, r, N, what + f", resumed at {n}", whole=False)
                self.on_disk(P, db, what + ", resumed", N)
                shutil.rmtree(db)

    def window(self, first, e):
        """Stop around the 256-block window, resume, and let a contract read ancestors' hashes."""
        P = _P.get("window")
        if P is None:
            P = Y.Provider([(SHANGHAI, 0, 0)], accounts(), STO)
            for i in range(1, 263):
                P.add((lambda F: [to(F, P.m.st.get(S1)[0], at=HASHER, value=0, gas=400_000)]) if i >= 254 else [])
            _P["window"] = P
        with tempfile.TemporaryDirectory(prefix="c31-") as T:
            r = self.go(self.scn(P, e, persist=T, stop=first))
            self.expect(P, r, first, f"window: stop at {first}")
            for nxt in (first + 1, 262):
                r = self.go(self.scn(P, e, persist=T, stop=nxt))
                self.expect(P, r, nxt, f"window: stop at {first}, resumed to {nxt} {e}", whole=False)
                self.on_disk(P, T, f"window {first} {nxt}", nxt)

    # ------------------------------------------------------------ bad providers
    def bad(self, name, e, n):
        P = provider(name, "calls")
        N = NB[name]
        want = [hhash(P.genesis)] + [b["hash"] for b in P.blocks[1:n]]

        def refused(r, what, upto=n - 1):
            if r.get("killed"):
                raise Mismatch(f"{what}: the tool never finished")
            if not r["exc"]:
                raise Mismatch(f"{what}: the tool reports success at block {r['number']}")
            if "hashes" in r:
                w = want[:upto + 1]
                if r["hashes"] != w[:len(r["hashes"])]:
                    raise Mismatch(f"{what}: {len(r['hashes'])} blocks imported, more than the {len(w)} good ones or others")
            self.note(what)

        # one block altered: every commitment and derived field
        h = P.blocks[n]["header"]
        for k in ("parent_hash", "state_root", "transactions_root", "receipt_root", "gas_used", "gas_limit", "number", "timestamp", "bloom", "ommers_hash", "base_fee", "withdrawals_root",
                  "blob_gas_used", "excess_blob_gas", "requests_hash", "difficulty"):
            if k not in h:
                continue
            g = dict(h)
            g[k] = bytes(31) + b"\x01" if isinstance(h[k], bytes) and len(h[k]) == 32 else b"\x01" * 256 if k == "bloom" else h[k] + (10**8 if k == "gas_limit" else 1) if k not in ("timestamp",) else h[k] - 12
            Q = self.altered(P, n, g)
            for un in (1,) if k != "state_root" else (0, 1):
                r = self.go(self.scn(Q, e, un, 4, stop=N))
                refused(r, f"{name} {e}: block {n} with a wrong {k}")
        # a block missing, repeated, replaced, mislabelled, or an error reply
        for f in [("swap", n - 1)] * (n > 1) + [("swap", n + 1)] * (n < N) + [("drop",), ("id", n + 1), ("id", n + 400), ("error", -32603), ("error", -32601)]:
            r = self.go(self.scn(P, e, 1, 4, stop=N, fault={n: f}, nosum=f[0] in ("id",)))
            what = f"{name} {e}: reply for block {n}: {f}"
            if f[0] == "swap":
                refused(r, what)
            else:
                if r.get("killed"):
                    raise Mismatch(f"{what}: the tool never finished")
                if not r["exc"]:
                    raise Mismatch(f"{what}: the tool reports success")
                if "hashes" in r and r["hashes"] != [hhash(P.genesis)] * 1 + [b["hash"] for b in P.blocks[1:len(r["hashes"])]]:
                    raise Mismatch(f"{what}: imported blocks are not the provider's")
                self.note(what)
        # the connection breaks at the n-th request
        r = self.go(self.scn(P, e, 1, 2, stop=N, fault={"at": n}))
        what = f"{name} {e}: request {n} fails"
        if r.get("killed"):
            raise Mismatch(f"{what}: the tool never finished")
        if not r["exc"]:
            raise Mismatch(f"{what}: the tool reports success")
        self.note(what)

    def late(self, name, mask):
        """The provider does not know some of the blocks yet, in any pattern, and then does."""
        P = provider(name, "calls")
        for k in (1, 2):
            f = {1 + i: ("late", k if i % 2 else 1) for i in range(5) if mask >> i & 1}
            r = self.go(self.scn(P, "eth", 1, 10, stop=NB[name], fault=f))
            self.expect(P, r, NB[name], f"{name}: blocks {sorted(f)} answered with nothing at first ({k})")

    def altered(self, P, n, g):
        import copy
        Q = copy.copy(P)
        Q.blocks = list(P.blocks)
        b = dict(P.blocks[n])
        j = dict(b["json"])
        j.update(Y.jheader(g))
        if b["raw"]:
            items = [chain.header_rlp(g)]
            # same body under the altered header
            from ref import codec
            raw = codec.rlp_decode(bytes.fromhex(b["raw"][2:]))
            raw[0] = codec.rlp_decode(items[0])
            b["raw"] = "0x" + prim.rlp(raw).hex()
        b["json"] = j
        Q.blocks[n] = b
        return Q

    # ------------------------------------------------------------ threads
    def threads(self, q, e, fault, nb, timeouts):
        P = provider("shanghai", "calls")
        f = {nb: ("error", -32603)} if fault else None
        s = self.scn(P, e, 1, q, stop=nb, fault=f)
        s.update(timeouts=timeouts, cap=30000)
        if fault:
            s["args"] = [a for a in s["args"]]
        r = Y.run(s, fn=Y.scheduled_child, timeout=800)
        if r.get("killed"):
            raise Mismatch(f"threads q={q} {e}: schedule exploration did not finish ({r['killed']})")
        if not r["complete"]:
            raise AssertionError("harness: schedules not exhausted")
        self.n += r["n"]
        for o, sch in r["outcomes"]:
            what = f"threads: queue {q}, {e}, {nb} blocks, fault {fault}, schedule {sch}"
            if o["exc"] == "DEADLOCK":
                raise Mismatch(f"{what}: both threads wait for ever")
            if fault:
                if not o["exc"]:
                    raise Mismatch(f"{what}: success although block {nb} was never delivered")
            else:
                self.expect(P, o, nb, what)
            self.note(what, o["exc"])
        self.digs.append(digest(("schedules", q, e, fault, nb, r["n"])))

    def opts(self):
        """Refused option combinations leave nothing behind."""
        P = provider("shanghai", "empty")
        with tempfile.TemporaryDirectory(prefix="c31-") as T:
            for ex in (["--unoptimized", "--persist", T], ["--unoptimized", "--initial-state", T], ["--unoptimized", "--reset"], ["--initial-state", T], ["--reset"]):
                r = self.go(dict(self.scn(P, "geth", stop=1), args=["--geth", "--stop-at", "1"] + ex))
                if r.get("killed") or not r["exc"] or "SystemExit" not in r["exc"]:
                    raise Mismatch(f"options {ex}: {r.get('exc')}")
                if os.listdir(T):
                    raise Mismatch(f"options {ex} touched the directory")
                self.note("opts", tuple(x for x in ex if x != T))


if __name__ == "__main__":
    raise SystemExit(main(C()))
