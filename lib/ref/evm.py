"""Reference EVM and transaction processor, parametrised by fork index.

State is two dicts: accounts {addr: (nonce, balance, code)} and storage
{addr: {slot int: value int != 0}}.  Snapshots are copies.
"""
from . import precomp
from .forks import *  # noqa
from .prim import keccak, rlp, bloom, state_root, mpt_root

M256 = (1 << 256) - 1
SIGN = 1 << 255
U64MAX = (1 << 64) - 1
A3 = (3).to_bytes(20, "big")
MAX_ADDR = (1 << 160) - 1


class Halt(Exception):
    """Exceptional halt: all gas of the frame is consumed."""


class RevertX(Exception):
    pass


class Reject(Exception):
    """The transaction or block is invalid."""


class State:
    def __init__(self, accounts=None, storage=None):
        self.acc = dict(accounts or {})
        self.sto = {a: {k: v for k, v in s.items() if v}
                    for a, s in (storage or {}).items()}
        self.sto = {a: s for a, s in self.sto.items() if s}
        self.tra = {}  # (addr, key) -> value
        self.created = set()

    def snap(self):
        return dict(self.acc), {a: dict(s) for a, s in self.sto.items()}, dict(self.tra)

    def restore(self, s):
        self.acc, self.sto, self.tra = s

    def copy(self):
        s = State()
        s.acc, s.sto, s.tra = self.snap()
        return s

    def get(self, a):
        return self.acc.get(a, (0, 0, b""))

    def exists(self, a):
        return a in self.acc

    def empty(self, a):
        return self.get(a) == (0, 0, b"")

    def alive(self, a):
        return not self.empty(a)

    def setbal(self, a, v):
        n, _, c = self.get(a)
        self.acc[a] = (n, v, c)

    def incnonce(self, a):
        n, b, c = self.get(a)
        self.acc[a] = (n + 1, b, c)

    def setcode(self, a, code):
        n, b, _ = self.get(a)
        self.acc[a] = (n, b, code)

    def destroy(self, a):
        self.acc.pop(a, None)
        self.sto.pop(a, None)

    def sload(self, a, k):
        return self.sto.get(a, {}).get(k, 0)

    def sstore(self, a, k, v):
        if v:
            self.sto.setdefault(a, {})[k] = v
        elif a in self.sto:
            self.sto[a].pop(k, None)
            if not self.sto[a]:
                del self.sto[a]

    def root(self):
        return state_root(self.acc, self.sto)


class Block:
    """Everything the EVM can see of the block."""

    def __init__(self, **kw):
        self.coinbase = kw["coinbase"]
        self.number = kw.get("number", 1)
        self.time = kw.get("time", 1)
        self.gas_limit = kw.get("gas_limit", 10**9)
        self.base_fee = kw.get("base_fee", 0)
        self.difficulty = kw.get("difficulty", 131072)
        self.prev_randao = kw.get("prev_randao", bytes(32))
        self.excess_blob_gas = kw.get("excess_blob_gas", 0)
        self.chain_id = kw.get("chain_id", 1)
        self.hashes = kw.get("hashes", [])  # oldest..newest, last = parent
        self.beacon_root = kw.get("beacon_root", bytes(32))


def fake_exp(factor, num, den):
    """factor * e^(num/den), by the EIP-4844 integer Taylor series."""
    i, out, acc = 1, 0, factor * den
    while acc > 0:
        out += acc
        acc = acc * num // (den * i)
        i += 1
    return out // den


def blob_fraction(F):
    return 5007716 if F >= PRAGUE else 3338477


def blob_price(F, excess):
    return fake_exp(1, excess, blob_fraction(F))


def words(n):
    return (n + 31) // 32


def memcost(w):
    return 3 * w + w * w // 512


class Frame:
    __slots__ = ("code", "caller", "addr", "value", "data", "gas", "depth", "static",
                 "stack", "mem", "pc", "ret", "logs", "refund", "dele", "touched",
                 "aacc", "akey", "parent", "out", "jd", "err")

    def __init__(self, code, caller, addr, value, data, gas, depth, static, parent, aacc, akey):
        self.code, self.caller, self.addr, self.value = code, caller, addr, value
        self.data, self.gas, self.depth, self.static = data, gas, depth, static
        self.parent = parent
        self.aacc, self.akey = set(aacc), set(akey)
        self.stack, self.mem, self.pc, self.ret = [], bytearray(), 0, b""
        self.logs, self.refund, self.dele, self.touched = [], 0, set(), set()
        self.out, self.jd, self.err = b"", None, None


_JD = {}


def jumpdests(code):
    r = _JD.get(code)
    if r is None:
        r, i = set(), 0
        while i < len(code):
            op = code[i]
            if op == 0x5B:
                r.add(i)
            if 0x60 <= op <= 0x7F:
                i += op - 0x5F
            i += 1
        if len(_JD) > 5000:
            _JD.clear()
        _JD[code] = r
    return r


def s256(x):
    return x - (1 << 256) if x & SIGN else x


def opcodes(F):
    """Set of opcodes defined at fork F."""
    s = set(range(0x00, 0x0C)) | set(range(0x10, 0x1B)) | {0x20}
    s |= set(range(0x30, 0x3D)) | set(range(0x40, 0x46)) | set(range(0x50, 0x5C))
    s |= set(range(0x60, 0xA5)) | {0xF0, 0xF1, 0xF2, 0xF3, 0xFF}
    if F >= HOMESTEAD:
        s.add(0xF4)
    if F >= BYZANTIUM:
        s |= {0x3D, 0x3E, 0xFA, 0xFD}
    if F >= CONSTANTINOPLE:
        s |= {0x1B, 0x1C, 0x1D, 0x3F, 0xF5}
    if F >= ISTANBUL:
        s |= {0x46, 0x47}
    if F >= LONDON:
        s.add(0x48)
    if F >= SHANGHAI:
        s.add(0x5F)
    if F >= CANCUN:
        s |= {0x49, 0x4A, 0x5C, 0x5D, 0x5E}
    if F >= OSAKA:
        s.add(0x1E)
    return s


_OPS = {F: opcodes(F) for F in ALL}
_PRE = {F: precomp.table(F) for F in ALL}

_FIXED = {}
for _o in (0x01, 0x03, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1A,
           0x1B, 0x1C, 0x1D, 0x35, 0x49):
    _FIXED[_o] = 3
for _o in (0x02, 0x04, 0x05, 0x06, 0x07, 0x0B, 0x1E, 0x47):
    _FIXED[_o] = 5
for _o in (0x08, 0x09, 0x56):
    _FIXED[_o] = 8
for _o in (0x30, 0x32, 0x33, 0x34, 0x36, 0x38, 0x3A, 0x3D, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46,
           0x48, 0x4A, 0x50, 0x58, 0x59, 0x5A, 0x5F):
    _FIXED[_o] = 2
_FIXED[0x57] = 10
_FIXED[0x5B] = 1
_FIXED[0x40] = 20
_FIXED[0x5C] = _FIXED[0x5D] = 100
for _o in range(0x60, 0xA0):
    _FIXED[_o] = 3

_BIN = {
    0x01: lambda a, b: a + b,
    0x02: lambda a, b: a * b,
    0x03: lambda a, b: a - b,
    0x04: lambda a, b: a // b if b else 0,
    0x05: lambda a, b: _sdiv(s256(a), s256(b)),
    0x06: lambda a, b: a % b if b else 0,
    0x07: lambda a, b: _smod(s256(a), s256(b)),
    0x0B: lambda a, b: _signext(a, b),
    0x10: lambda a, b: a < b,
    0x11: lambda a, b: a > b,
    0x12: lambda a, b: s256(a) < s256(b),
    0x13: lambda a, b: s256(a) > s256(b),
    0x14: lambda a, b: a == b,
    0x16: lambda a, b: a & b,
    0x17: lambda a, b: a | b,
    0x18: lambda a, b: a ^ b,
    0x1A: lambda a, b: (b >> (8 * (31 - a))) & 255 if a < 32 else 0,
    0x1B: lambda a, b: b << a if a < 256 else 0,
    0x1C: lambda a, b: b >> a if a < 256 else 0,
    0x1D: lambda a, b: s256(b) >> min(a, 256),
}


def _sdiv(a, b):
    if b == 0:
        return 0
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def _smod(a, b):
    if b == 0:
        return 0
    r = abs(a) % abs(b)
    return -r if a < 0 else r


def _signext(k, x):
    if k > 30:
        return x
    bits = 8 * (k + 1)
    x &= (1 << bits) - 1
    if x >> (bits - 1):
        x -= 1 << bits
    return x


DELEG = b"\xef\x01\x00"


def is_deleg(code):
    return len(code) == 23 and code[:3] == DELEG


class Machine:
    """Executes one transaction's message tree."""

    def __init__(self, F, state, block, origin=bytes(20), gas_price=0, blobs=()):
        self.F, self.st, self.bl = F, state, block
        self.origin, self.gas_price, self.blobs = origin, gas_price, blobs
        self.orig = None  # storage at transaction start
        self.trace = None  # optional callback(frame, op)
        self.steps = 0

    # ---------------------------------------------------------- messages
    def call(self, f, code_addr, transfer, disable_pre=False):
        """Run frame f as a message call; fills f.err / f.out / f.gas."""
        st = self.st
        snap = st.snap()
        if self.F < PARIS and not st.exists(f.addr):
            st.acc[f.addr] = (0, 0, b"")
        if transfer and f.value:
            n, b, c = st.get(f.caller)
            assert b >= f.value
            self.setbal(f.caller, b - f.value)
            self.setbal(f.addr, st.get(f.addr)[1] + f.value)
        self.execute(f, code_addr, disable_pre)
        if f.err:
            st.restore(snap)

    def setbal(self, a, v):
        self.st.setbal(a, v)
        if self.F >= PARIS and self.st.empty(a):
            self.st.destroy(a)

    def execute(self, f, code_addr, disable_pre):
        try:
            p = _PRE[self.F].get(code_addr)
            if p is not None:
                if disable_pre:
                    return
                g, out = p(f.data, self.F)
                if g > f.gas or out is None:
                    raise Halt("precompile")
                f.gas -= g
                f.out = out
                return
            f.jd = jumpdests(f.code)
            self.loop(f)
        except Halt as e:
            f.gas = 0
            f.out = b""
            f.err = "halt:" + str(e)
        except RevertX:
            f.err = "revert"

    def create(self, f):
        """Run frame f as contract creation at f.addr (collision already excluded)."""
        st, F = self.st, self.F
        snap = st.snap()
        st.sto.pop(f.addr, None)
        st.created.add(f.addr)
        if F >= SPURIOUS:
            st.incnonce(f.addr)
        self.call(f, None, True)
        if f.err:
            st.restore(snap)
            return
        code = f.out
        cost = 200 * len(code)
        bad = cost > f.gas
        if F >= SPURIOUS and len(code) > 24576:
            bad = True
        if F >= LONDON and code[:1] == b"\xef":
            bad = True
        if bad:
            if F == FRONTIER:
                f.out = b""
                return  # contract stays, without code; gas is kept
            st.restore(snap)
            f.gas = 0
            f.out = b""
            f.err = "halt:deposit"
            return
        f.gas -= cost
        st.setcode(f.addr, code)

    def merge(self, f, ch):
        """Fold a finished child frame into its parent."""
        f.gas += ch.gas
        F = self.F
        if ch.err:
            if SPURIOUS <= F < PARIS:
                if A3 in ch.touched or (ch.addr == A3 and self.st.exists(A3) and self.st.empty(A3)):
                    f.touched.add(A3)
            return
        f.logs += ch.logs
        f.refund += ch.refund
        f.dele |= ch.dele
        f.touched |= ch.touched
        f.touched.add(ch.addr)
        f.aacc |= ch.aacc
        f.akey |= ch.akey

    # ---------------------------------------------------------- helpers
    def charge(self, f, n):
        if n > f.gas:
            raise Halt("gas")
        f.gas -= n

    def memneed(self, f, *ranges):
        """Gas to extend memory over the given (offset, size) ranges, new size."""
        top = len(f.mem)
        for o, s in ranges:
            if s:
                top = max(top, 32 * words(o + s))
        return memcost(top // 32) - memcost(len(f.mem) // 32), top

    def extend(self, f, top):
        if top > len(f.mem):
            f.mem += bytes(top - len(f.mem))

    def warm(self, f, a):
        """True if a was already accessed; marks it accessed."""
        if a in f.aacc:
            return True
        f.aacc.add(a)
        return False

    def acct_cost(self, f, a, old):
        if self.F >= BERLIN:
            return 100 if self.warm(f, a) else 2600
        return old

    # ---------------------------------------------------------- interpreter
    def loop(self, f):
        F, st, ops = self.F, self.st, _OPS[self.F]
        code = f.code
        n = len(code)
        S = f.stack

        def pop():
            if not S:
                raise Halt("underflow")
            return S.pop()

        def push(v):
            if len(S) >= 1024:
                raise Halt("overflow")
            S.append(v & M256)

        while f.pc < n:
            op = code[f.pc]
            if op not in ops:
                raise Halt("badop")
            self.steps += 1
            if self.trace:
                self.trace(f, op)
            fixed = _FIXED.get(op)
            if fixed is not None:
                self.charge(f, fixed)
            if op == 0x00:
                return
            if op in _BIN:
                a = pop()
                b = pop()
                push(int(_BIN[op](a, b)))
            elif op == 0x08 or op == 0x09:
                a, b, m = pop(), pop(), pop()
                push((a + b if op == 8 else a * b) % m if m else 0)
            elif op == 0x0A:
                a, e = pop(), pop()
                self.charge(f, 10 + (50 if F >= SPURIOUS else 10) * ((e.bit_length() + 7) // 8))
                push(pow(a, e, 1 << 256))
            elif op == 0x15:
                push(int(pop() == 0))
            elif op == 0x19:
                push(~pop())
            elif op == 0x1E:
                push(256 - pop().bit_length())
            elif op == 0x20:
                o, s = pop(), pop()
                c, top = self.memneed(f, (o, s))
                self.charge(f, 30 + 6 * words(s) + c)
                self.extend(f, top)
                push(int.from_bytes(keccak(f.mem[o:o + s]), "big"))
            elif op == 0x30:
                push(int.from_bytes(f.addr, "big"))
            elif op == 0x31:
                a = self.addr(pop())
                self.charge(f, self.acct_cost(f, a, 20 if F < TANGERINE else 400 if F < ISTANBUL else 700))
                push(st.get(a)[1])
            elif op == 0x32:
                push(int.from_bytes(self.origin, "big"))
            elif op == 0x33:
                push(int.from_bytes(f.caller, "big"))
            elif op == 0x34:
                push(f.value)
            elif op == 0x35:
                o = pop()
                push(int.from_bytes(precomp.pad(f.data, o, 32), "big"))
            elif op == 0x36:
                push(len(f.data))
            elif op in (0x37, 0x39):
                d, o, s = pop(), pop(), pop()
                self.copy(f, d, o, s, f.data if op == 0x37 else f.code, 3)
            elif op == 0x38:
                push(len(f.code))
            elif op == 0x3A:
                push(self.gas_price)
            elif op == 0x3B:
                a = self.addr(pop())
                self.charge(f, self.acct_cost(f, a, 20 if F < TANGERINE else 700))
                push(len(st.get(a)[2]))
            elif op == 0x3C:
                a = self.addr(pop())
                d, o, s = pop(), pop(), pop()
                base = self.acct_cost(f, a, 20 if F < TANGERINE else 700)
                self.copy(f, d, o, s, st.get(a)[2], base)
            elif op == 0x3D:
                push(len(f.ret))
            elif op == 0x3E:
                d, o, s = pop(), pop(), pop()
                if o + s > len(f.ret):
                    raise Halt("returndata")
                self.copy(f, d, o, s, f.ret, 3)
            elif op == 0x3F:
                a = self.addr(pop())
                self.charge(f, self.acct_cost(f, a, 400 if F < ISTANBUL else 700))
                push(0 if st.empty(a) else int.from_bytes(keccak(st.get(a)[2]), "big"))
            elif op == 0x40:
                k = pop()
                d = self.bl.number - k
                if 1 <= d <= 256 and d <= len(self.bl.hashes):
                    push(int.from_bytes(self.bl.hashes[-d], "big"))
                else:
                    push(0)
            elif op == 0x41:
                push(int.from_bytes(self.bl.coinbase, "big"))
            elif op == 0x42:
                push(self.bl.time)
            elif op == 0x43:
                push(self.bl.number)
            elif op == 0x44:
                push(int.from_bytes(self.bl.prev_randao, "big") if F >= PARIS else self.bl.difficulty)
            elif op == 0x45:
                push(self.bl.gas_limit)
            elif op == 0x46:
                push(self.bl.chain_id)
            elif op == 0x47:
                push(st.get(f.addr)[1])
            elif op == 0x48:
                push(self.bl.base_fee)
            elif op == 0x49:
                i = pop()
                push(int.from_bytes(self.blobs[i], "big") if i < len(self.blobs) else 0)
            elif op == 0x4A:
                push(blob_price(F, self.bl.excess_blob_gas))
            elif op == 0x50:
                pop()
            elif op == 0x51:
                o = pop()
                c, top = self.memneed(f, (o, 32))
                self.charge(f, 3 + c)
                self.extend(f, top)
                push(int.from_bytes(f.mem[o:o + 32], "big"))
            elif op == 0x52 or op == 0x53:
                o, v = pop(), pop()
                size = 32 if op == 0x52 else 1
                c, top = self.memneed(f, (o, size))
                self.charge(f, 3 + c)
                self.extend(f, top)
                f.mem[o:o + size] = (v & ((1 << (8 * size)) - 1)).to_bytes(size, "big")
            elif op == 0x54:
                k = pop()
                if F >= BERLIN:
                    w = (f.addr, k) in f.akey
                    f.akey.add((f.addr, k))
                    self.charge(f, 100 if w else 2100)
                else:
                    self.charge(f, 50 if F < TANGERINE else 200 if F < ISTANBUL else 800)
                push(st.sload(f.addr, k))
            elif op == 0x55:
                k, v = pop(), pop()
                self.sstore(f, k, v)
            elif op == 0x56:
                d = pop()
                if d not in f.jd:
                    raise Halt("jump")
                f.pc = d
                continue
            elif op == 0x57:
                d, c = pop(), pop()
                if c:
                    if d not in f.jd:
                        raise Halt("jump")
                    f.pc = d
                    continue
            elif op == 0x58:
                push(f.pc)
            elif op == 0x59:
                push(len(f.mem))
            elif op == 0x5A:
                push(f.gas)
            elif op == 0x5B:
                pass
            elif op == 0x5C:
                push(st.tra.get((f.addr, pop()), 0))
            elif op == 0x5D:
                k, v = pop(), pop()
                if f.static:
                    raise Halt("static")
                st.tra[(f.addr, k)] = v
            elif op == 0x5E:
                d, o, s = pop(), pop(), pop()
                c, top = self.memneed(f, (d, s), (o, s))
                self.charge(f, 3 + 3 * words(s) + c)
                self.extend(f, top)
                if s:
                    f.mem[d:d + s] = bytes(f.mem[o:o + s])
            elif 0x5F <= op <= 0x7F:
                k = op - 0x5F
                push(int.from_bytes(precomp.pad(code, f.pc + 1, k), "big"))
                f.pc += k
            elif 0x80 <= op <= 0x8F:
                k = op - 0x7F
                if len(S) < k:
                    raise Halt("underflow")
                push(S[-k])
            elif 0x90 <= op <= 0x9F:
                k = op - 0x8F
                if len(S) < k + 1:
                    raise Halt("underflow")
                S[-1], S[-1 - k] = S[-1 - k], S[-1]
            elif 0xA0 <= op <= 0xA4:
                k = op - 0xA0
                o, s = pop(), pop()
                t = [pop().to_bytes(32, "big") for _ in range(k)]
                c, top = self.memneed(f, (o, s))
                self.charge(f, 375 + 375 * k + 8 * s + c)
                if f.static:
                    raise Halt("static")
                self.extend(f, top)
                f.logs.append((f.addr, t, bytes(f.mem[o:o + s])))
            elif op == 0xF0 or op == 0xF5:
                self.op_create(f, op, pop, push)
            elif op in (0xF1, 0xF2, 0xF4, 0xFA):
                self.op_call(f, op, pop, push)
            elif op == 0xF3 or op == 0xFD:
                o, s = pop(), pop()
                c, top = self.memneed(f, (o, s))
                self.charge(f, c)
                self.extend(f, top)
                f.out = bytes(f.mem[o:o + s])
                if op == 0xFD:
                    raise RevertX
                return
            elif op == 0xFF:
                self.selfdestruct(f, self.addr(pop()))
                return
            else:
                raise AssertionError(hex(op))
            f.pc += 1

    @staticmethod
    def addr(x):
        return (x & MAX_ADDR).to_bytes(20, "big")

    def copy(self, f, d, o, s, src, base):
        c, top = self.memneed(f, (d, s))
        self.charge(f, base + 3 * words(s) + c)
        self.extend(f, top)
        if s:
            f.mem[d:d + s] = precomp.pad(src, o, s)

    def original(self, a, k):
        if a in self.st.created:
            return 0
        return self.orig.get(a, {}).get(k, 0)

    def sstore(self, f, k, v):
        F, st = self.F, self.st
        cur = st.sload(f.addr, k)
        if F < ISTANBUL:
            self.charge(f, 20000 if cur == 0 and v else 5000)
            if cur and not v:
                f.refund += 15000
        else:
            if f.gas <= 2300:
                raise Halt("sstore sentry")
            orig = self.original(f.addr, k)
            if F >= BERLIN:
                cold = 0 if (f.addr, k) in f.akey else 2100
                f.akey.add((f.addr, k))
                noop, setc, reset = 100, 20000, 2900
            else:
                cold, noop, setc, reset = 0, 800, 20000, 5000
            clear = 4800 if F >= LONDON else 15000
            if cur == v or orig != cur:
                cost = noop
            else:
                cost = setc if orig == 0 else reset
            self.charge(f, cost + cold)
            if cur != v:
                if orig == cur:
                    if orig and not v:
                        f.refund += clear
                else:
                    if orig:
                        if cur == 0:
                            f.refund -= clear
                        if v == 0:
                            f.refund += clear
                    if orig == v:
                        f.refund += (setc if orig == 0 else reset) - noop
        if f.static:
            raise Halt("static")
        st.sstore(f.addr, k, v)

    def selfdestruct(self, f, ben):
        F, st = self.F, self.st
        cost = 0 if F < TANGERINE else 5000
        if F >= BERLIN and not self.warm(f, ben):
            cost += 2600
        if F >= SPURIOUS:
            if not st.alive(ben) and st.get(f.addr)[1]:
                cost += 25000
        elif F >= TANGERINE and not st.exists(ben):
            cost += 25000
        self.charge(f, cost)
        if f.static:
            raise Halt("static")
        if F < LONDON:
            p, seen = f, False
            while p is not None:
                seen = seen or f.addr in p.dele
                p = p.parent
            if not seen:
                f.refund += 24000
        bal = st.get(f.addr)[1]
        if F >= CANCUN:
            if ben != f.addr:
                self.setbal(f.addr, 0)
                self.setbal(ben, st.get(ben)[1] + bal)
            if f.addr in st.created:
                self.setbal(f.addr, 0)
                f.dele.add(f.addr)
            return
        self.setbal(ben, st.get(ben)[1] + bal)
        self.setbal(f.addr, 0)
        f.dele.add(f.addr)
        f.touched.add(ben)

    def code_of(self, f, a):
        """(code, code address, precompiles disabled, extra gas) after delegation."""
        code = self.st.get(a)[2]
        if self.F >= PRAGUE and is_deleg(code):
            t = code[3:]
            return self.st.get(t)[2], t, True, 100 if self.warm(f, t) else 2600
        return code, a, False, 0

    def op_call(self, f, op, pop, push):
        F, st = self.F, self.st
        gas = pop()
        to = self.addr(pop())
        value = pop() if op in (0xF1, 0xF2) else 0
        io, is_, oo, os_ = pop(), pop(), pop(), pop()
        mc, top = self.memneed(f, (io, is_), (oo, os_))
        extra = self.acct_cost(f, to, 40 if F < TANGERINE else 700)
        code, caddr, dis, dg = self.code_of(f, to)
        extra += dg
        if value:
            extra += 9000
        if op == 0xF1:
            if F >= SPURIOUS:
                if value and not st.alive(to):
                    extra += 25000
            elif not st.exists(to):
                extra += 25000
        if F < TANGERINE:
            self.charge(f, extra + mc + gas)
        else:
            self.charge(f, extra + mc)
            gas = min(gas, f.gas - f.gas // 64)
            f.gas -= gas
        if op == 0xF1 and f.static and value:
            raise Halt("static")
        self.extend(f, top)
        if value:
            gas += 2300
        f.ret = b""
        if value > st.get(f.addr)[1] or f.depth + 1 > 1024:
            f.gas += gas
            push(0)
            return
        data = bytes(f.mem[io:io + is_])
        if op == 0xF1:
            a = (f.addr, to, value, f.static, True)
        elif op == 0xF2:
            a = (f.addr, f.addr, value, f.static, True)
        elif op == 0xF4:
            a = (f.caller, f.addr, f.value, f.static, False)
        else:
            a = (f.addr, to, 0, True, True)
        ch = Frame(code, a[0], a[1], a[2], data, gas, f.depth + 1, a[3], f, f.aacc, f.akey)
        self.call(ch, caddr, a[4], dis)
        self.merge(f, ch)
        f.ret = ch.out
        push(0 if ch.err else 1)
        k = min(os_, len(ch.out))
        if k:
            f.mem[oo:oo + k] = ch.out[:k]

    def op_create(self, f, op, pop, push):
        F, st = self.F, self.st
        value, o, s = pop(), pop(), pop()
        salt = pop() if op == 0xF5 else None
        mc, top = self.memneed(f, (o, s))
        cost = 32000 + mc
        if F >= SHANGHAI:
            cost += 2 * words(s)
        if op == 0xF5:
            cost += 6 * words(s)
        self.charge(f, cost)
        self.extend(f, top)
        if F >= SHANGHAI and s > 49152:
            raise Halt("initcode")
        if f.static:
            raise Halt("static")
        init = bytes(f.mem[o:o + s])
        nonce, bal, _ = st.get(f.addr)
        if op == 0xF5:
            na = keccak(b"\xff" + f.addr + salt.to_bytes(32, "big") + keccak(init))[12:]
        else:
            na = keccak(rlp([f.addr, nonce]))[12:]
        gas = f.gas if F < TANGERINE else f.gas - f.gas // 64
        f.ret = b""
        if value > bal or nonce == U64MAX or f.depth + 1 > 1024:
            push(0)
            return
        f.gas -= gas
        f.aacc.add(na)
        st.incnonce(f.addr)
        if st.get(na)[0] or st.get(na)[2] or na in st.sto:
            push(0)
            return
        ch = Frame(init, f.addr, na, value, b"", gas, f.depth + 1, False, f, f.aacc, f.akey)
        self.create(ch)
        self.merge(f, ch)
        if ch.err:
            f.ret = ch.out
            push(0)
        else:
            push(int.from_bytes(na, "big"))


# ------------------------------------------------------------- transactions
class Tx:
    """kind 0..4; sender is given (signatures are checked separately)."""

    def __init__(self, sender, **k):
        self.sender = sender  # None = signature invalid
        self.kind = k.get("kind", 0)
        self.nonce = k.get("nonce", 0)
        self.gas = k.get("gas", 100000)
        self.gas_price = k.get("gas_price", 0)
        self.max_fee = k.get("max_fee", 0)
        self.max_prio = k.get("max_prio", 0)
        self.to = k.get("to", b"")
        self.value = k.get("value", 0)
        self.data = k.get("data", b"")
        self.access = k.get("access", ())  # ((addr, (slot int, ...)), ...)
        self.blobs = k.get("blobs", ())
        self.max_blob_fee = k.get("max_blob_fee", 0)
        self.auths = k.get("auths", ())  # (chain_id, addr, nonce, authority|None)
        self.chain_id = k.get("chain_id", 1)


def intrinsic(F, tx):
    """(intrinsic gas, floor gas)"""
    z = tx.data.count(0)
    nz = len(tx.data) - z
    g = 21000 + 4 * z + (16 if F >= ISTANBUL else 68) * nz
    if tx.to == b"":
        if F >= HOMESTEAD:
            g += 32000
        if F >= SHANGHAI:
            g += 2 * words(len(tx.data))
    for a, ks in tx.access:
        g += 2400 + 1900 * len(ks)
    g += 25000 * len(tx.auths)
    floor = 21000 + 10 * (z + 4 * nz) if F >= PRAGUE else 0
    return g, floor


def max_kind(F):
    return 4 if F >= PRAGUE else 3 if F >= CANCUN else 2 if F >= LONDON else 1 if F >= BERLIN else 0


def check_tx(F, st, bl, tx, gas_used, blob_used):
    """Raise Reject when tx may not be included; else (effective price, intrinsic, floor, blob fee)."""
    if tx.kind > max_kind(F):
        raise Reject("type")
    ig, floor = intrinsic(F, tx)
    if max(ig, floor) > tx.gas:
        raise Reject("intrinsic")
    if tx.nonce >= U64MAX:
        raise Reject("nonce max")
    if F >= SHANGHAI and tx.to == b"" and len(tx.data) > 49152:
        raise Reject("initcode")
    if F >= OSAKA and tx.gas > 16777216:
        raise Reject("gas cap")
    if tx.gas > bl.gas_limit - gas_used:
        raise Reject("block gas")
    if tx.sender is None:
        raise Reject("signature")
    if tx.kind and tx.chain_id != bl.chain_id:
        raise Reject("chain id")
    n, b, code = st.get(tx.sender)
    base = bl.base_fee if F >= LONDON else 0
    if tx.kind >= 2:
        if tx.max_fee < tx.max_prio or tx.max_fee < base:
            raise Reject("fee")
        price = base + min(tx.max_prio, tx.max_fee - base)
        cost = tx.gas * tx.max_fee
    else:
        if tx.gas_price < base:
            raise Reject("fee")
        price = tx.gas_price
        cost = tx.gas * price
    blob_fee = 0
    if tx.kind == 3:
        k = len(tx.blobs)
        limit = 9 if F >= PRAGUE else 6
        if k == 0 or k * 131072 > limit * 131072 - blob_used:
            raise Reject("blob count")
        if F >= OSAKA and k > 6:
            raise Reject("blob count per tx")
        if any(h[0] != 1 for h in tx.blobs):
            raise Reject("blob hash")
        bp = blob_price(F, bl.excess_blob_gas)
        if tx.max_blob_fee < bp:
            raise Reject("blob fee")
        cost += 131072 * k * tx.max_blob_fee
        blob_fee = 131072 * k * bp
    if tx.kind >= 3 and tx.to == b"":
        raise Reject("no target")
    if tx.kind == 4 and not tx.auths:
        raise Reject("no auths")
    if tx.nonce != n:
        raise Reject("nonce")
    if b < cost + tx.value:
        raise Reject("balance")
    if code and not (F >= PRAGUE and is_deleg(code)):
        raise Reject("not EOA")
    return price, ig, floor, blob_fee


def warm_set(F, bl, tx, target):
    a, k = set(), set()
    if F >= BERLIN:
        a |= set(_PRE[F]) | {tx.sender, target}
        for addr, ks in tx.access:
            a.add(addr)
            k |= {(addr, x) for x in ks}
        if F >= SHANGHAI:
            a.add(bl.coinbase)
    return a, k


def apply_auths(F, st, bl, tx, warm):
    refund = 0
    for cid, target, nonce, authority in tx.auths:
        if cid not in (0, bl.chain_id) or nonce >= U64MAX or authority is None:
            continue
        warm.add(authority)
        n, b, code = st.get(authority)
        if code and not is_deleg(code):
            continue
        if n != nonce:
            continue
        if st.exists(authority):
            refund += 12500
        st.acc[authority] = (n + 1, b, b"" if target == bytes(20) else DELEG + target)
    return refund


def run_tx(F, st, bl, tx, gas_used=0, blob_used=0, trace=None):
    """Apply tx to st; returns a dict describing the receipt. Raises Reject."""
    price, ig, floor, blob_fee = check_tx(F, st, bl, tx, gas_used, blob_used)
    base = bl.base_fee if F >= LONDON else 0
    st.incnonce(tx.sender)
    st.setbal(tx.sender, st.get(tx.sender)[1] - tx.gas * price - blob_fee)
    m = Machine(F, st, bl, tx.sender, price, tx.blobs)
    m.trace = trace
    gas = tx.gas - ig
    refund = 0
    if tx.to == b"":
        na = keccak(rlp([tx.sender, tx.nonce]))[12:]
        aa, ak = warm_set(F, bl, tx, na)
        f = Frame(tx.data, tx.sender, na, tx.value, b"", gas, 0, False, None, aa, ak)
        m.orig = {a: dict(s) for a, s in st.sto.items()}
        if st.get(na)[0] or st.get(na)[2] or na in st.sto:
            f.gas, f.err = 0, "halt:collision"
        else:
            m.create(f)
    else:
        aa, ak = warm_set(F, bl, tx, tx.to)
        if tx.kind == 4:
            refund += apply_auths(F, st, bl, tx, aa)
        code, caddr, dis = st.get(tx.to)[2], tx.to, False
        if F >= PRAGUE and is_deleg(code):
            caddr, dis = code[3:], True
            aa.add(caddr)
            code = st.get(caddr)[2]
        f = Frame(code, tx.sender, tx.to, tx.value, tx.data, gas, 0, False, None, aa, ak)
        m.orig = {a: dict(s) for a, s in st.sto.items()}
        m.call(f, caddr, True, dis)
        f.touched.add(tx.to)
    st.created.clear()
    st.tra.clear()
    if not f.err:
        refund += f.refund
    used = tx.gas - f.gas
    used_before = used
    used -= min(used // (5 if F >= LONDON else 2), refund)
    used = max(used, floor)
    sb = st.get(tx.sender)[1] + (tx.gas - used) * price
    st.setbal(tx.sender, sb)
    fee = used * (price - base)
    cb = st.get(bl.coinbase)[1] + fee
    if F < SPURIOUS or cb:
        st.setbal(bl.coinbase, cb)
    elif st.exists(bl.coinbase) and st.empty(bl.coinbase):
        st.destroy(bl.coinbase)
    if not f.err:
        for a in f.dele:
            st.destroy(a)
        if SPURIOUS <= F < PARIS:
            for a in f.touched:
                if st.exists(a) and st.empty(a):
                    st.destroy(a)
    logs = f.logs if not f.err else []
    return {"ok": not f.err, "err": f.err, "gas_used": used, "gas_before_refund": used_before,
            "logs": [(a, list(t), d) for a, t, d in logs], "out": f.out,
            "blob_gas": 131072 * len(tx.blobs) if tx.kind == 3 else 0,
            "burnt": used * base + blob_fee, "steps": m.steps}


def encode_logs(logs):
    return [[a, t, d] for a, t, d in logs]


def receipt_rlp(F, kind, res, cumulative, post_root):
    first = (1 if res["ok"] else b"") if F >= BYZANTIUM else post_root
    r = rlp([first, cumulative, bloom(res["logs"]), encode_logs(res["logs"])])
    return (bytes([kind]) if kind else b"") + r
