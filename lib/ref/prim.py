"""RLP, Keccak-256 and Merkle Patricia Trie, written from their definitions."""
from functools import lru_cache

_MASK = (1 << 64) - 1
_RC = []


def _init_rc():
    r = 1
    for _ in range(24):
        rc = 0
        for j in range(7):
            if r & 1:
                rc |= 1 << ((1 << j) - 1)
            r = ((r << 1) ^ (0x171 if r & 0x80 else 0)) & 0xFF
        _RC.append(rc)


_init_rc()
_ROT = [[0] * 5 for _ in range(5)]
_x, _y = 1, 0
for _t in range(24):
    _ROT[_x][_y] = ((_t + 1) * (_t + 2) // 2) % 64
    _x, _y = _y, (2 * _x + 3 * _y) % 5


def _rol(v, n):
    return ((v << n) | (v >> (64 - n))) & _MASK if n else v


def _keccak_f(a):
    for rc in _RC:
        c = [a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4] for x in range(5)]
        d = [c[(x - 1) % 5] ^ _rol(c[(x + 1) % 5], 1) for x in range(5)]
        a = [[a[x][y] ^ d[x] for y in range(5)] for x in range(5)]
        b = [[0] * 5 for _ in range(5)]
        for x in range(5):
            for y in range(5):
                b[y][(2 * x + 3 * y) % 5] = _rol(a[x][y], _ROT[x][y])
        a = [[b[x][y] ^ (~b[(x + 1) % 5][y] & b[(x + 2) % 5][y] & _MASK)
              for y in range(5)] for x in range(5)]
        a[0][0] ^= rc
    return a


def keccak_pure(data, bits=256):
    rate = (1600 - 2 * bits) // 8
    data = bytes(data)
    pad = rate - len(data) % rate
    data += b"\x81" if pad == 1 else b"\x01" + bytes(pad - 2) + b"\x80"
    a = [[0] * 5 for _ in range(5)]
    for i in range(0, len(data), rate):
        blk = data[i:i + rate]
        for j in range(rate // 8):
            a[j % 5][j // 5] ^= int.from_bytes(blk[8 * j:8 * j + 8], "little")
        a = _keccak_f(a)
    out = b"".join(a[j % 5][j // 5].to_bytes(8, "little") for j in range(25))
    return out[:bits // 8]


try:  # same function, C speed; prim.selftest() compares them on every run
    from Crypto.Hash import keccak as _ck

    def _fast(data):
        h = _ck.new(digest_bits=256)
        h.update(data)
        return h.digest()
except ImportError:  # pragma: no cover
    _fast = keccak_pure


@lru_cache(maxsize=200000)
def _kc(data):
    return _fast(data)


def keccak(data):
    data = bytes(data)
    if len(data) <= 256:
        return _kc(data)
    return _fast(data)


def selftest():
    for n in (0, 1, 31, 32, 135, 136, 137, 272, 300):
        d = bytes((i * 7 + n) & 255 for i in range(n))
        assert _fast(d) == keccak_pure(d)


# ------------------------------------------------------------------ RLP
def i2b(n):
    return n.to_bytes((n.bit_length() + 7) // 8, "big")


def rlp(x):
    if isinstance(x, bool):
        raise TypeError
    if isinstance(x, int):
        x = i2b(x)
    if isinstance(x, (bytes, bytearray)):
        x = bytes(x)
        if len(x) == 1 and x[0] < 0x80:
            return x
        return _len(len(x), 0x80) + x
    body = b"".join(rlp(y) for y in x)
    return _len(len(body), 0xC0) + body


def _len(n, off):
    if n < 56:
        return bytes([off + n])
    b = i2b(n)
    return bytes([off + 55 + len(b)]) + b


# ------------------------------------------------------------------ MPT
def _hp(nibs, leaf):
    f = 2 if leaf else 0
    if len(nibs) % 2:
        nibs = [f + 1] + list(nibs)
    else:
        nibs = [f, 0] + list(nibs)
    return bytes(nibs[i] * 16 + nibs[i + 1] for i in range(0, len(nibs), 2))


def _nibs(b):
    out = []
    for c in b:
        out += (c >> 4, c & 15)
    return out


def _node(items, depth):
    """items: list of (nibbles, value bytes), sorted by nibbles, unique."""
    if not items:
        return b""
    if len(items) == 1:
        k, v = items[0]
        return [_hp(k[depth:], True), v]
    first, last = items[0][0], items[-1][0]
    p = depth
    m = min(len(first), len(last))
    while p < m and first[p] == last[p]:
        p += 1
    if p > depth:
        return [_hp(first[depth:p], False), _ref(_node(items, p))]
    br = []
    val = b""
    rest = items
    if len(rest[0][0]) == depth:
        val = rest[0][1]
        rest = rest[1:]
    for n in range(16):
        sub = [it for it in rest if it[0][depth] == n]
        br.append(_ref(_node(sub, depth + 1)) if sub else b"")
    br.append(val)
    return br


def _ref(node):
    e = rlp(node)
    return node if len(e) < 32 else keccak(e)


def mpt_root(d, secured=False):
    """Root of the trie holding {key bytes: value bytes}; empty values absent."""
    items = []
    for k, v in d.items():
        if v == b"":
            continue
        items.append((_nibs(keccak(k) if secured else k), v))
    items.sort(key=lambda t: t[0])
    return keccak(rlp(_node(items, 0)))


EMPTY_ROOT = keccak(b"\x80")
EMPTY_CODE = keccak(b"")


def account_rlp(nonce, balance, sroot, code):
    return rlp([nonce, balance, sroot, keccak(code)])


def storage_root(slots):
    return mpt_root({k.to_bytes(32, "big"): rlp(v) for k, v in slots.items() if v}, True)


def state_root(accounts, storage):
    d = {}
    for a, (n, b, c) in accounts.items():
        s = storage.get(a)
        d[a] = account_rlp(n, b, storage_root(s) if s else EMPTY_ROOT, c)
    return mpt_root(d, True)


def bloom(logs):
    """logs: iterable of (address, [topics], data)."""
    bits = 0
    for addr, topics, _ in logs:
        for e in [addr] + list(topics):
            h = keccak(e)
            for i in (0, 2, 4):
                bits |= 1 << (int.from_bytes(h[i:i + 2], "big") & 2047)
    return bits.to_bytes(256, "big")
