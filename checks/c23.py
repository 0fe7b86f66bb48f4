"""C23: the optimized state database is indistinguishable from the plain one."""
import importlib.util
import os
import sys
import shutil
import tempfile

from explore import Check, Result, Violation, main
from drv import real
from ethereum_optimized import monkey_patch
from drv import diff, journal
from drv.diff import Mismatch
from drv.journal import AD, KEY, Impl, Model, alphabet, observe
from ref import prim
from ref.forks import *  # noqa
from ethereum_types.numeric import U256, Uint
from ethereum_types.bytes import Bytes

STARTS = {"none": [], "some": [("set", AD[0], "code"), ("sset", AD[0], KEY[0], 9), ("set", AD[1], "bal")],
          "db": [("set", AD[0], "code"), ("sset", AD[0], KEY[0], 9), ("sset", AD[0], KEY[1], 4), ("set", AD[1], "bal"), ("root",)],
          "intx": [("set", AD[0], "code"), ("sset", AD[0], KEY[0], 9), ("begin",), ("sset", AD[0], KEY[0], 5), ("begin",)],
          "dying": [("set", AD[0], "code"), ("sset", AD[0], KEY[0], 9), ("root",), ("begin",), ("sset", AD[0], KEY[0], 5), ("destroy", AD[0]), ("begin",), ("set", AD[0], "bal"), ("sset", AD[0], KEY[0], 3)]}
SOME = (SPURIOUS, ISTANBUL, PARIS, PRAGUE)
_plain = {}


def plain(F):
    """A pristine second copy of the fork's state module (the first one is patched)."""
    if F not in _plain:
        name = NAMES[F]
        spec = importlib.util.spec_from_file_location(f"ethereum.{name}.state__plain", os.path.join(real.SRC, "ethereum", name, "state.py"))
        m = importlib.util.module_from_spec(spec)
        sys.modules[spec.name] = m
        spec.loader.exec_module(m)
        _plain[F] = m
    return _plain[F]


class DbModel(Model):
    """Adds database transactions: the contents at the last commit."""

    def __init__(self, F):
        super().__init__(F)
        self.base = ({}, {}, {})
        self.meta = {}
        self.wrote, self.zeroed, self.flushed, self.rooted = set(), set(), set(), False

    def enabled(self, op):
        if op[0] == "dbrollback" and self.rooted:
            return False      # the in-memory engine (third party) cannot undo past a root computation; the disk part covers it
        if op[0] in ("dbcommit", "dbrollback", "meta"):
            return not self.snaps
        if op[0] == "clear" and op[1] in self.wrote:
            return False      # removing an account but not its storage: destroy_account is the interface for that
        if op[0] == "nonce" and self.acc.get(op[1], (0, 0, b""))[0] == 2**64 - 1:
            return False      # nonces are below 2**64 (EIP-2681); the database stores 64 bits
        return super().enabled(op)

    def apply(self, op):
        if op[0] == "dbcommit":
            self.base = (dict(self.acc), {a: dict(s) for a, s in self.sto.items()}, dict(self.meta))
        elif op[0] == "dbrollback":
            self.acc, self.sto, self.meta = dict(self.base[0]), {a: dict(s) for a, s in self.base[1].items()}, dict(self.base[2])
        elif op[0] == "meta":
            self.meta[op[1]] = op[2]
        else:
            if op[0] == "sset":
                self.wrote.add(op[1])
                if not op[3]:
                    self.zeroed.add(op[1])
            super().apply(op)
        now = {a for a, s in self.sto.items() if s}
        if op[0] in ("dbcommit", "dbrollback", "root", "sroot"):
            self.flushed = now
        elif op[0] == "commit" and not self.snaps or op[0] == "begin" and len(self.snaps) == 1:
            self.flushed |= now
        self.rooted = op[0] in ("root", "sroot") or self.rooted and op[0] != "dbcommit"

    def excused(self, a):
        """The recorded finding: every slot the database holds was zeroed, and not flushed yet."""
        return a in self.flushed and a in self.zeroed

    def canon(self):
        return super().canon() + (tuple(sorted(self.base[0].items())), tuple(sorted((a, tuple(sorted(s.items()))) for a, s in self.base[1].items())), tuple(sorted(self.meta.items())))


class Api:
    def __init__(self, mod, m):
        self.mod, self.m = mod, m

    def __getattr__(self, n):
        return getattr(self.mod, n)

    def account_has_storage(self, s, a):
        r = self.mod.account_has_storage(s, a)
        if r and bytes(a) not in self.m.sto and self.m.excused(bytes(a)):
            return False
        return r


class OptImpl(Impl):
    def __init__(self, F, mod, m, state=None):
        super().__init__(F, Api(mod, m), state)

    def apply(self, op):
        if op[0] == "dbcommit":
            self.api.commit_db_transaction(self.s)
            self.api.begin_db_transaction(self.s)
        elif op[0] == "dbrollback":
            self.api.rollback_db_transaction(self.s)
            self.api.begin_db_transaction(self.s)
        elif op[0] == "meta":
            self.api.set_metadata(self.s, op[1], op[2])
        else:
            super().apply(op)


class PlainImpl(Impl):
    def __init__(self, F, api):
        super().__init__(F, api)
        self.t = api.TransientStorage() if F >= CANCUN else None


def ops_of(F, which):
    if which == "db":
        a, b, _ = AD
        k, l = KEY
        ops = [("dbcommit",), ("dbrollback",), ("root",), ("begin",), ("commit",), ("rollback",), ("set", a, "full"), ("set", b, "code"), ("clear", b), ("destroy", a), ("sset", a, k, 1), ("sset", a, k, 0), ("sset", a, l, 2),
               ("meta", b"k", b"1"), ("meta", b"k", b"22")]
        return ops
    return alphabet(F, which)


class C(Check):
    pid = "C23"
    rule = ("the real monkey_patch is applied to every fork; all operation sequences up to the depth over the shared state interface (snapshots, roots in between, storage "
            "destruction, creation marks, transient writes) plus the database transactions (commit, rollback, metadata) are executed on the patched module, on a pristine copy of "
            "the plain module and on copy-on-begin maps, and every read and root compared after each sequence and through its unwinding; then whole transactions (self-destruct, "
            "creation, storage and revert scenarios) run through the patched forks against the reference model; databases on disk are closed and reopened")
    bounds = {"quick": "depth 3 full/roots, 4 mini/db, 5 tiny on four forks; one less on the others", "thorough": "depth 4 full/roots, 5 mini/db, 7 tiny, every fork"}

    def setup(self):
        for F in ALL:
            plain(F)
        monkey_patch(None)
        assert real.fork(0).state.State is not plain(0).State
        diff.compare_state = self.compare_state
        import c05
        import c08
        import c09
        self.others = {"c09": c09.C(), "c08": c08.C(), "c05": c05.C()}

    def cases(self, tier):
        th = tier == "thorough"
        for F in ALL:
            big = th or F in SOME
            plan = [("some", "full", 2 + big), ("db", "roots", 2 + big), ("some", "mini", 3 + big), ("intx", "mini", 3), ("dying", "mini", 3), ("db", "mini", 3), ("some", "tiny", 4 + big), ("intx", "tiny", 3 + big), ("dying", "tiny", 3 + big),
                    ("none", "db", 3), ("db", "db", 2 + big), ("dying", "full", 2)]
            if th:
                plan = [(s, w, d + (1 if w in ("full", "roots", "mini", "db") else 2)) for s, w, d in plan]
            for st, which, depth in plan:
                n = len(ops_of(F, which))
                for i in range(n):
                    for j in range(n):
                        yield ("walk", F, st, which, depth, i, j)
            for i in range(8):
                yield ("disk", F, i)
            yield ("zeroed", F)
        for name, mod in (("c09", None), ("c08", None), ("c05", None)):
            for c in self.other(name, th):
                yield ("tx", name, c)

    def other(self, name, th):
        m = __import__(name)
        o = m.C()
        for c in o.cases("quick"):
            F = c[1] if isinstance(c[0], str) else c[0]
            if not th and F not in (SPURIOUS, ISTANBUL, PARIS, PRAGUE):
                continue
            if not th and name == "c09" and c[0] == "seq" and len(c[2]) > 2:
                continue
            if name == "c05" and not th and c[0] not in KEEP05:
                continue
            yield c

    def run(self, d):
        self.seen, self.n, self.k = set(), 0, 0
        if d[0] == "tx":
            return self.tx(d[1], d[2])
        getattr(self, d[0])(*d[1:])
        return Result(self.seen, self.n, self.k)

    # ------------------------------------------------------------ operation sequences
    def walk(self, F, st, which, depth, i, j):
        ops = ops_of(F, which)
        m = self.model(F, STARTS[st] + [ops[i]])
        if m is None:
            return
        if j == 0:
            self.check(F, STARTS[st] + [ops[i]])
        self.rec(F, STARTS[st] + [ops[i]], [ops[j]], ops, depth - 2)

    def model(self, F, seq):
        m = DbModel(F)
        for o in seq:
            if not m.enabled(o):
                return None
            m.apply(o)
        return m

    def rec(self, F, base, extra, ops, left):
        for o in extra:
            if not self.model(F, base).enabled(o):
                continue
            self.check(F, base + [o])
            if left:
                self.rec(F, base + [o], ops, ops, left - 1)

    def build(self, F, seq):
        m = DbModel(F)
        i = OptImpl(F, real.fork(F).state, m)
        p = None if any(o[0] in ("dbcommit", "dbrollback", "meta") for o in seq) else PlainImpl(F, plain(F))
        for o in seq:
            m.apply(o)
            for x in (i, p):
                if x is not None:
                    try:
                        x.apply(o)
                    except Exception as e:
                        raise Mismatch(f"{NAMES[F]} {'plain' if x is p else 'optimized'}: {o} in {seq} raised {type(e).__name__}: {e}")
        return m, i, p

    def check(self, F, seq):
        self.n += len(seq)
        m, i, p = self.build(F, seq)
        self.k += 1
        self.seen.add(hash((F, m.canon())))
        # reads must not depend on a root having been computed: first without, then with
        self.cmp(F, m, i, p, seq)
        if m.snaps:
            depth = len(m.snaps)
            for how in ("rollback", "commit"):
                if how == "commit":
                    if seq[-1][0] in ("begin", "commit", "rollback", "mark"):
                        break
                    m, i, p = self.build(F, seq)
                for d in range(depth):
                    for x in (m, i) + ((p,) if p else ()):
                        x.apply((how,))
                    self.cmp(F, m, i, p, seq + [(how,)] * (d + 1))

    def cmp(self, F, m, i, p, seq):
        for x, n in ((i, "optimized"), (p, "plain")):
            if x is None:
                continue
            e = observe(m, x, AD[:2], KEY, root=False) or observe(m, x, AD[:2], KEY, root=n == "optimized")
            if e:
                raise Mismatch(f"{NAMES[F]} {n} after {[(o[0],) + tuple(y[:2].hex() if isinstance(y, bytes) else y for y in o[1:]) for o in seq]}: {e}")
        for k, v in m.meta.items():
            g = i.api.get_metadata(i.s, k)
            if g != v:
                raise Mismatch(f"{NAMES[F]} metadata {k} after {seq}: {g} expected {v}")

    def zeroed(self, F):
        """The history of the recorded finding, judged without the excuse."""
        a, k = AD[0], KEY[0]
        m, i, p = self.build(F, [("set", a, "code"), ("sset", a, k, 9), ("root",), ("sset", a, k, 0)])
        self.n += 4
        o, q = (bool(x.account_has_storage(y.s, y.A(a))) for x, y in ((i.api.mod, i), (p.api, p)))
        if o != q:
            if (o, q) == (True, False):
                raise Violation(f"{NAMES[F]}: account_has_storage is {o} on the optimized database, {q} on the plain one, after the only stored slot was zeroed",
                                sig="account_has_storage after zeroing the last stored slot")
            raise Mismatch(f"{NAMES[F]}: account_has_storage optimized {o} plain {q}")
        self.k += 1

    # ------------------------------------------------------------ databases on disk
    def disk(self, F, variant):
        d = tempfile.mkdtemp(prefix="c23")
        try:
            S = real.fork(F).state
            a, b, _ = AD
            k, l = KEY
            pre = [("set", a, "full"), ("sset", a, k, 7), ("set", b, "code"), ("sset", b, l, 1)]
            tails = [[], [("destroy", b)], [("sset", a, k, 0)], [("begin",), ("sset", a, l, 5), ("commit",)], [("begin",), ("sset", a, l, 5), ("rollback",)],
                     [("root",), ("destroy", a), ("set", a, "bal")], [("meta", b"z", b"9")], [("dbcommit",), ("sset", a, k, 8), ("root",), ("dbrollback",)]]
            seq = pre + tails[variant]
            path = os.path.join(d, "db")
            m = DbModel(F)
            S.State.default_path = path if variant % 2 else None
            try:
                i = OptImpl(F, S, m, S.State() if variant % 2 else S.State(path))
                for o in seq:
                    m.apply(o)
                    i.apply(o)
                    self.n += 1
                self.cmp(F, m, i, None, seq)
                i.api.commit_db_transaction(i.s)
                i.api.begin_db_transaction(i.s)
                i.apply(("sset", a, l, 99))     # not committed: gone after the close
                i.api.close_state(i.s)
                with S.State(path) as s2:
                    i2 = OptImpl(F, S, m, s2)
                    self.cmp(F, m, i2, None, seq + ["reopened"])
                self.k += 2
                self.seen.add(hash((F, "disk", m.canon())))
            finally:
                S.State.default_path = None
        finally:
            shutil.rmtree(d)

    # ------------------------------------------------------------ transactions
    def tx(self, name, c):
        o = self.others[name]
        cs = o.build(c)
        if isinstance(cs, dict):
            cs = [cs]
        digs, n, k = [], 0, 0
        for case in cs:
            if any(v == (0, 0, b"") for v in case["acc"].values()) and case["F"] >= PARIS:
                continue
            self.universe = set(case["acc"])
            self.slots = {(a, s) for a, kv in case.get("sto", {}).items() for s in kv}
            self.ntx = len(case["txs"])
            d, s, _ = diff.run_case(case)
            digs += d
            n += s
            k += 1
        return Result(digs, n, k)

    def compare_state(self, fk, st, rs, i):
        S, A = fk.state, fk.types.Address
        self.universe |= set(st.acc)
        self.slots |= {(a, s) for a, kv in st.sto.items() for s in kv}
        for a in self.universe:
            x = S.get_account_optional(rs, A(a))
            g = None if x is None else (int(x.nonce), int(x.balance), bytes(x.code))
            if g != st.acc.get(a):
                raise Mismatch(f"{fk.name} tx {i} optimized account {a.hex()}: {g} expected {st.acc.get(a)}")
            if bool(S.account_has_storage(rs, A(a))) != bool(st.sto.get(a)):
                raise Mismatch(f"{fk.name} tx {i} optimized account_has_storage {a.hex()}: expected {bool(st.sto.get(a))}")
        for a, s in self.slots:
            g = int(S.get_storage(rs, A(a), real.Bytes32(s.to_bytes(32, "big"))))
            if g != st.sto.get(a, {}).get(s, 0):
                raise Mismatch(f"{fk.name} tx {i} optimized storage {a.hex()}[{s}]: {g} expected {st.sto.get(a, {}).get(s, 0)}")
        if i == self.ntx - 1:
            g = bytes(S.state_root(rs))
            if g != st.root():
                raise Mismatch(f"{fk.name} tx {i} optimized state root {g.hex()} expected {st.root().hex()}")


KEEP05 = ("static_create", "multi", "self")

if __name__ == "__main__":
    raise SystemExit(main(C()))
