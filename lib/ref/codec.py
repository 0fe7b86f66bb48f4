"""Strict RLP decoding, typed transaction schemas and sender recovery, from the definitions."""
from . import curves
from .forks import *  # noqa
from .prim import keccak, rlp


class Bad(Exception):
    pass


def _item(b, o, end):
    """(value, next offset)"""
    if o >= end:
        raise Bad("truncated")
    c = b[o]
    if c < 0x80:
        return bytes([c]), o + 1
    if c < 0xB8:
        n, s = c - 0x80, o + 1
    elif c < 0xC0 or c >= 0xF8:
        k = c - 0xB7 if c < 0xC0 else c - 0xF7
        if o + 1 + k > end or b[o + 1] == 0:
            raise Bad("length")
        n, s = int.from_bytes(b[o + 1:o + 1 + k], "big"), o + 1 + k
        if n < 56:
            raise Bad("long form")
    else:
        n, s = c - 0xC0, o + 1
    if s + n > end:
        raise Bad("truncated")
    if c < 0xC0:
        v = b[s:s + n]
        if n == 1 and v[0] < 0x80:
            raise Bad("single byte")
        return bytes(v), s + n
    out, p = [], s
    while p < s + n:
        v, p = _item(b, p, s + n)
        out.append(v)
    return out, s + n


def rlp_decode(b):
    v, o = _item(b, 0, len(b))
    if o != len(b):
        raise Bad("trailing")
    return v


# field kinds: I<n> integer of at most n bytes (0 = unbounded), A address, T address or empty, D bytes, H 32 bytes
SCHEMA = {
    0: "I32 I0 I0 T I32 D I32 I32 I32",
    1: "I8 I32 I0 I0 T I32 D ACL I32 I32 I32",
    2: "I8 I32 I0 I0 I0 T I32 D ACL I32 I32 I32",
    3: "I8 I32 I0 I0 I0 A I32 D ACL I32 HS I32 I32 I32",
    4: "I8 I8 I0 I0 I0 A I32 D ACL AUTHS I32 I32 I32",
}
AUTH = "I32 A I8 I1 I32 I32"


def typed(kind, v):
    if kind == "ACL":
        need(isinstance(v, list))
        return tuple(_acc(x) for x in v)
    if kind == "HS":
        need(isinstance(v, list))
        return tuple(typed("H", x) for x in v)
    if kind == "AUTHS":
        need(isinstance(v, list))
        return tuple(fields(AUTH, x) for x in v)
    need(isinstance(v, bytes))
    if kind[0] == "I":
        n = int(kind[1:])
        need(not (v and v[0] == 0))
        need(n == 0 or len(v) <= n)
        return int.from_bytes(v, "big")
    if kind == "D":
        return v
    need(len(v) == {"A": 20, "H": 32}.get(kind) or kind == "T" and len(v) in (0, 20))
    return v


def _acc(x):
    need(isinstance(x, list) and len(x) == 2 and isinstance(x[1], list))
    return (typed("A", x[0]), tuple(typed("H", k) for k in x[1]))


def need(ok):
    if not ok:
        raise Bad("type")


def fields(schema, v):
    need(isinstance(v, list))
    ks = schema.split()
    need(len(v) == len(ks))
    return tuple(typed(k, x) for k, x in zip(ks, v))


def decode_tx(F, b):
    """(kind, fields) of a typed envelope; raises Bad."""
    top = 4 if F >= PRAGUE else 3 if F >= CANCUN else 2 if F >= LONDON else 1
    if not b or not 1 <= b[0] <= top:
        raise Bad("type")
    return b[0], fields(SCHEMA[b[0]], rlp_decode(b[1:]))


def decode_legacy(b):
    return fields(SCHEMA[0], rlp_decode(b))


def untyped(f):
    """Typed fields -> RLP item list."""
    def go(x):
        return [go(y) for y in x] if isinstance(x, tuple) else x
    return go(tuple(f))


def encode(kind, f):
    b = rlp(untyped(f))
    return bytes([kind]) + b if kind else b


def recover(F, chain_id, kind, f):
    """Sender of the transaction with fields f on the given chain, or None."""
    N = curves.SECP.n
    v, r, s = f[-3:]
    if not 0 < r < N or not 0 < s < N:
        return None
    if F >= HOMESTEAD and s > N // 2:
        return None
    body = untyped(f[:-3])
    if kind == 0:
        if v in (27, 28):
            y, msg = v - 27, rlp(body)
        elif F >= SPURIOUS and v in (35 + 2 * chain_id, 36 + 2 * chain_id):
            y, msg = v - 35 - 2 * chain_id, rlp(body + [chain_id, 0, 0])
        else:
            return None
    else:
        if v > 1 or f[0] != chain_id:
            return None
        y, msg = v, bytes([kind]) + rlp(body)
    Q = curves.ecdsa_recover(int.from_bytes(keccak(msg), "big"), y, r, s)
    if Q is None:
        return None
    return keccak(Q[0].to_bytes(32, "big") + Q[1].to_bytes(32, "big"))[12:]
