"""State operations on the plain-map model and on an implementation of the state API."""
from ethereum_types.bytes import Bytes, Bytes32
from ethereum_types.numeric import U256, Uint

from ref import prim
from ref.forks import *  # noqa
from . import real

AD = [bytes([0xA1]) * 20, bytes([0xB2]) * 20, bytes(20)]
KEY = [bytes(32), bytes([7]) * 32]
ACC = {"empty": (0, 0, b""), "bal": (0, 5, b""), "code": (1, 0, b"\x60\x01"), "full": (2**64 - 1, 2**256 - 1, b"\xef\x01\x00")}


class Model:
    """Copy-on-begin maps."""

    def __init__(self, F):
        self.F = F
        self.acc, self.sto, self.tra = {}, {}, {}
        self.snaps = []
        self.created = set()

    def enabled(self, op):
        k = op[0]
        if k == "begin":
            return len(self.snaps) < 3
        if k in ("commit", "rollback"):
            return bool(self.snaps)
        if k == "sset":
            return op[1] in self.acc
        if k == "move":
            return self.acc.get(op[1], (0, 0, b""))[1] >= op[3] and (op[1] == op[2] or self.acc.get(op[2], (0, 0, b""))[1] + op[3] < 2**256)
        if k == "ether":
            return self.acc.get(op[1], (0, 0, b""))[1] + op[2] < 2**256
        if k in ("root", "sroot"):
            return not self.snaps
        if k == "clear":      # deleting an account that still has storage is destroy_account's work
            return op[1] not in self.sto
        return True

    def mod(self, a, v):
        self.acc[a] = v
        if self.F >= PARIS and v == (0, 0, b""):
            del self.acc[a]
            self.sto.pop(a, None)

    def apply(self, op):
        k = op[0]
        get = lambda a: self.acc.get(a, (0, 0, b""))
        if k == "begin":
            self.snaps.append((dict(self.acc), {a: dict(s) for a, s in self.sto.items()}, {a: dict(s) for a, s in self.tra.items()}))
        elif k == "commit":
            self.snaps.pop()
            if not self.snaps:
                self.created.clear()
        elif k == "rollback":
            self.acc, self.sto, self.tra = self.snaps.pop()
            if not self.snaps:
                self.created.clear()
        elif k == "set":
            self.acc[op[1]] = ACC[op[2]]
        elif k == "clear":
            self.acc.pop(op[1], None)
        elif k == "destroy":
            self.acc.pop(op[1], None)
            self.sto.pop(op[1], None)
        elif k == "dsto":
            self.sto.pop(op[1], None)
        elif k == "mark":
            self.created.add(op[1])
        elif k == "sset":
            s = self.sto.setdefault(op[1], {})
            if op[3]:
                s[op[2]] = op[3]
            else:
                s.pop(op[2], None)
            if not s:
                del self.sto[op[1]]
        elif k == "tset":
            s = self.tra.setdefault(op[1], {})
            if op[3]:
                s[op[2]] = op[3]
            else:
                s.pop(op[2], None)
        elif k == "bal":
            n, b, c = get(op[1])
            self.mod(op[1], (n, op[2], c))
        elif k == "nonce":
            n, b, c = get(op[1])
            self.mod(op[1], (n + 1, b, c))
        elif k == "code":
            n, b, c = get(op[1])
            self.mod(op[1], (n, b, op[2]))
        elif k == "move":
            n, b, c = get(op[1])
            self.mod(op[1], (n, b - op[3], c))
            n, b, c = get(op[2])
            self.mod(op[2], (n, b + op[3], c))
        elif k == "ether":
            n, b, c = get(op[1])
            self.mod(op[1], (n, b + op[2], c))
        elif k == "touch":
            self.acc.setdefault(op[1], (0, 0, b""))
        elif k == "sweep":
            for a in op[1]:
                if self.acc.get(a) == (0, 0, b""):
                    del self.acc[a]
                    self.sto.pop(a, None)

    def original(self, a, k):
        if a in self.created:
            return 0
        sto = self.snaps[0][1] if self.snaps else self.sto
        return sto.get(a, {}).get(k, 0)

    def root(self):
        return _root(frozenset((a, v, frozenset(self.sto.get(a, {}).items())) for a, v in self.acc.items()))

    def canon(self):
        return (tuple(sorted(self.acc.items())), tuple(sorted((a, tuple(sorted(s.items()))) for a, s in self.sto.items())),
                tuple(sorted((a, tuple(sorted(s.items()))) for a, s in self.tra.items() if s)), tuple(sorted(self.created)),
                tuple((tuple(sorted(x.items())), tuple(sorted((a, tuple(sorted(s.items()))) for a, s in y.items())), tuple(sorted((a, tuple(sorted(s.items()))) for a, s in z.items())))
                      for x, y, z in self.snaps))


_roots = {}


def _root(k):
    if k not in _roots:
        if len(_roots) > 50000:
            _roots.clear()
        _roots[k] = prim.state_root({a: v for a, v, _ in k}, {a: {int.from_bytes(x, "big"): y for x, y in s} for a, _, s in k if s})
    return _roots[k]


class Impl:
    """api: namespace with the state functions of a fork (plain module or patched)."""

    def __init__(self, F, api, state=None):
        self.F, self.api = F, api
        self.fk = real.fork(F)
        self.s = state if state is not None else api.State()
        self.t = self.fk.state.TransientStorage() if F >= CANCUN else None
        self.A = self.fk.types.Address
        self.Acc = self.fk.types.Account

    def tx(self, f):
        return f(self.s, self.t) if self.t is not None else f(self.s)

    def apply(self, op):
        k, api, s, A = op[0], self.api, self.s, self.A
        if k == "begin":
            self.tx(api.begin_transaction)
        elif k == "commit":
            self.tx(api.commit_transaction)
        elif k == "rollback":
            self.tx(api.rollback_transaction)
        elif k == "set":
            n, b, c = ACC[op[2]]
            api.set_account(s, A(op[1]), self.Acc(nonce=Uint(n), balance=U256(b), code=Bytes(c)))
        elif k == "clear":
            api.set_account(s, A(op[1]), None)
        elif k == "destroy":
            api.destroy_account(s, A(op[1]))
        elif k == "dsto":
            api.destroy_storage(s, A(op[1]))
        elif k == "mark":
            api.mark_account_created(s, A(op[1]))
        elif k == "sset":
            api.set_storage(s, A(op[1]), Bytes32(op[2]), U256(op[3]))
        elif k == "tset":
            api.set_transient_storage(self.t, A(op[1]), Bytes32(op[2]), U256(op[3]))
        elif k == "bal":
            api.set_account_balance(s, A(op[1]), U256(op[2]))
        elif k == "nonce":
            api.increment_nonce(s, A(op[1]))
        elif k == "code":
            api.set_code(s, A(op[1]), Bytes(op[2]))
        elif k == "move":
            api.move_ether(s, A(op[1]), A(op[2]), U256(op[3]))
        elif k == "ether":
            api.create_ether(s, A(op[1]), U256(op[2]))
        elif k == "touch":
            api.touch_account(s, A(op[1]))
        elif k == "sweep":
            api.destroy_touched_empty_accounts(s, {A(a) for a in op[1]})
        elif k == "root":
            api.state_root(s)
        elif k == "sroot":
            api.storage_root(s, A(op[1]))


def observe(m, i, addrs, keys, root=True):
    """First difference between model and implementation, or None."""
    F, api, s = m.F, i.api, i.s
    for a in addrs:
        ia = i.A(a)
        v = m.acc.get(a)
        x = api.get_account_optional(s, ia)
        got = None if x is None else (int(x.nonce), int(x.balance), bytes(x.code))
        if got != v:
            return f"account {a[:2].hex()}: model {v} implementation {got}"
        y = api.get_account(s, ia)
        if (int(y.nonce), int(y.balance), bytes(y.code)) != (v or (0, 0, b"")):
            return f"get_account {a[:2].hex()}: model {v} implementation {y}"
        n, b, c = v or (0, 0, b"")
        flags = [("account_exists", v is not None), ("account_has_code_or_nonce", bool(n or c)), ("account_has_storage", a in m.sto)]
        if F >= SPURIOUS:
            flags += [("account_exists_and_is_empty", v == (0, 0, b"")), ("is_account_alive", v is not None and v != (0, 0, b""))]
        for f, w in flags:
            g = getattr(api, f)(s, ia)
            if bool(g) != w:
                return f"{f}({a[:2].hex()}): model {w} implementation {g}"
        for k in keys:
            g = int(api.get_storage(s, ia, Bytes32(k)))
            if g != m.sto.get(a, {}).get(k, 0):
                return f"get_storage({a[:2].hex()}, {k[:1].hex()}): model {m.sto.get(a, {}).get(k, 0)} implementation {g}"
            if F >= ISTANBUL and m.snaps:
                g = int(api.get_storage_original(s, ia, Bytes32(k)))
                if g != m.original(a, k):
                    return f"get_storage_original({a[:2].hex()}, {k[:1].hex()}): model {m.original(a, k)} implementation {g}"
            if F >= CANCUN:
                g = int(api.get_transient_storage(i.t, ia, Bytes32(k)))
                if g != m.tra.get(a, {}).get(k, 0):
                    return f"get_transient_storage({a[:2].hex()}, {k[:1].hex()}): model {m.tra.get(a, {}).get(k, 0)} implementation {g}"
    if root and not m.snaps:
        g = bytes(api.state_root(s))
        if g != m.root():
            return f"state root: model {m.root().hex()} implementation {g.hex()} for {m.acc} {m.sto}"
        for a in addrs:
            if a in m.acc:
                g = bytes(api.storage_root(s, i.A(a)))
                w = prim.storage_root({int.from_bytes(x, "big"): y for x, y in m.sto.get(a, {}).items()}) if m.sto.get(a) else prim.EMPTY_ROOT
                if g != w:
                    return f"storage root {a[:2].hex()}: model {w.hex()} implementation {g.hex()}"
    return None


def alphabet(F, which):
    a, b, z = AD
    k, l = KEY
    frame = [("begin",), ("commit",), ("rollback",)]
    if which == "tiny":
        ops = frame + [("set", a, "full"), ("sset", a, k, 1), ("sset", a, k, 0), ("destroy", a)]
        return ops + ([("mark", a)] if F >= ISTANBUL else [])
    if which == "mini":
        ops = frame + [("set", a, "bal"), ("destroy", a), ("sset", a, k, 1), ("sset", a, k, 2), ("sset", a, k, 0), ("dsto", a), ("bal", a, 0), ("clear", a)]
        if F >= ISTANBUL:
            ops += [("mark", a)]
        if F >= CANCUN:
            ops += [("tset", a, k, 1), ("tset", a, k, 0)]
        return ops
    ops = frame + [("set", a, "empty"), ("set", a, "full"), ("set", b, "code"), ("clear", a), ("destroy", a), ("destroy", b), ("dsto", a),
                   ("sset", a, k, 1), ("sset", a, k, 0), ("sset", a, l, 2), ("sset", b, k, 3), ("bal", a, 0), ("bal", b, 5), ("nonce", a), ("code", a, b""), ("code", b, b"\x01"),
                   ("move", a, b, 0), ("move", b, a, 5), ("move", a, a, 0)]
    if F < PARIS:
        ops += [("touch", a), ("ether", b, 1), ("ether", a, 0)]
    if SPURIOUS <= F < PARIS:
        ops += [("sweep", (a,)), ("sweep", (a, b))]
    if F >= ISTANBUL:
        ops += [("mark", a), ("mark", b)]
    if F >= CANCUN:
        ops += [("tset", a, k, 1), ("tset", a, k, 0), ("tset", b, l, 2)]
    if which == "roots":
        ops = [o for o in ops if o[0] not in ("move", "tset", "code", "nonce")] + [("root",), ("sroot", a)]
    return ops
