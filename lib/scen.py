"""Shared scenario pieces: addresses, block environments per fork, case builders."""
from asm import OPS, asm, mstore_code, initcode, push  # noqa
from drv import real
from ref.forks import *  # noqa
from ref import prim

K1, K2, K3 = 1, 2, 3
S1, S2, S3 = (real.addr_of(k) for k in (K1, K2, K3))
ETH = 10**18


def A(n):
    """Harness contract address n."""
    return bytes([0xC0]) + bytes(17) + n.to_bytes(2, "big")


COINBASE = bytes.fromhex("c01ba5e000000000000000000000000000000001")
NOBODY = bytes.fromhex("deaddead000000000000000000000000000000ff")
HASHES = [bytes([i]) * 32 for i in range(1, 6)]


def block(F, **kw):
    d = dict(coinbase=COINBASE, number=1000 if F < BYZANTIUM else 20_000_000 if F >= PARIS else 7_000_000,
             time=1_700_000_000, gas_limit=100_000_000, base_fee=7 if F >= LONDON else 0,
             difficulty=0x20000 if F < PARIS else 0, prev_randao=bytes(range(32)),
             excess_blob_gas=0, chain_id=1, hashes=HASHES)
    d.update(kw)
    return d


def price(F, kind, p=10):
    if kind >= 2:
        return dict(max_fee=p, max_prio=2)
    return dict(gas_price=p)


def tx(F, to, data=b"", value=0, gas=1_000_000, key=K1, nonce=0, kind=0, p=10, **kw):
    d = dict(key=key, to=to, data=data, value=value, gas=gas, nonce=nonce, kind=kind)
    d.update(price(F, kind, p))
    d.update(kw)
    return d


def world(extra=None):
    acc = {S1: (0, 100 * ETH, b""), S2: (0, 100 * ETH, b"")}
    acc.update(extra or {})
    return acc


def case(F, acc, txs, sto=None, bl=None):
    sto = {a: kv for a, kv in (sto or {}).items() if a in acc}
    acc = {a: v for a, v in acc.items() if v is not None}
    return {"F": F, "acc": acc, "sto": sto, "bl": bl or block(F), "txs": txs}


def deepen(c, n=2):
    """The same case with every transaction's target called through n contracts that pass on data and value."""
    acc, txs, k = dict(c["acc"]), [], 0
    via = {}
    for t in c["txs"]:
        to = t["to"]
        if len(to) == 20:
            if to not in via:
                x = to
                for _ in range(n):
                    T = (0xDEE9 << 64 | k).to_bytes(20, "big")
                    k += 1
                    g = asm("GAS") if c["F"] >= TANGERINE else asm(700 + 2 * 35000, "GAS SUB")
                    acc[T] = (1, 0, asm("CALLDATASIZE 0 0 CALLDATACOPY 0 0 CALLDATASIZE 0 CALLVALUE", addr_int(x), g, "CALL 0 MSTORE MSIZE 0 LOG0"))
                    x = T
                via[to] = x
            t = {**t, "to": via[to], "gas": t["gas"] + 100_000}
        txs.append(t)
    return {**c, "acc": acc, "txs": txs}


def addr_int(a):
    return int.from_bytes(a, "big")


# ------------------------------------------------------------- batch driver
DRV = bytes.fromhex("d0d0000000000000000000000000000000000001")


def callcode_seq(c, k):
    """Code making call k, leaving (out[0:64], success, gas left) at memory 0x1000 + 128k."""
    kind = c.get("kind", "CALL")
    data = c.get("data", b"")
    o = 0x1000 + 128 * k
    outsz = c.get("out", 64)
    seq = [mstore_code(data, 0x200) if data else b"", push(outsz), push(o), push(len(data)), push(0x200)]
    if kind in ("CALL", "CALLCODE"):
        seq.append(push(c.get("value", 0)))
    seq += [push(addr_int(c["to"])), push(c["gas"]), bytes([OPS[kind]]), push(o + 64), b"\x52\x5a", push(o + 96), b"\x52"]
    if c.get("rds"):
        seq += [asm("RETURNDATASIZE"), push(o + 32), b"\x52"]
    return b"".join(seq)


def batch_case(F, contracts, calls, gas=50_000_000, sto=None, bl=None, value=0, extra=None, pre=b"", after=()):
    """A transaction to a driver contract performing all calls in order."""
    code = pre + b"".join(callcode_seq(c, k) for k, c in enumerate(calls))
    code += asm(128 * len(calls), 0x1000, "LOG0")
    acc = world(contracts)
    acc.update(extra or {})
    acc[DRV] = (1, 10**6, code)
    if F >= OSAKA:
        gas = min(gas, 16_777_216)
    return case(F, acc, [tx(F, DRV, gas=gas, value=value)] + list(after), sto, bl)
