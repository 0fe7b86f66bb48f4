"""Blocks: header rules, formulas, ommers, rewards, system calls, requests, commitments."""
import hashlib

from . import evm
from .evm import Reject, blob_price
from .forks import *  # noqa
from .prim import EMPTY_ROOT, bloom, keccak, mpt_root, rlp

HFIELDS = ["parent_hash", "ommers_hash", "coinbase", "state_root", "transactions_root", "receipt_root", "bloom", "difficulty",
           "number", "gas_limit", "gas_used", "timestamp", "extra_data", "mix", "nonce", "base_fee", "withdrawals_root",
           "blob_gas_used", "excess_blob_gas", "beacon_root", "requests_hash"]
NO_OMMERS = keccak(rlp([]))
E18 = 10**18
SYS = bytes.fromhex("fffffffffffffffffffffffffffffffffffffffe")
BEACON = bytes.fromhex("000F3df6D732807Ef1319fB7B8bB8522d0Beac02")
HISTORY = bytes.fromhex("0000F90827F1C53a10cb7A02335B175320002935")
WREQ = bytes.fromhex("00000961Ef480Eb55e80D19ad83579A64c007002")
CREQ = bytes.fromhex("0000BBdDc7CE488642fb579F8B00f3a590007251")
DEPOSIT = bytes.fromhex("00000000219ab540356cBB839Cbe05303d7705Fa")
DEPTOPIC = keccak(b"DepositEvent(bytes,bytes,bytes,bytes,bytes)")
DAO_BLOCK = 1920000
LONDON_BLOCK = 12965000


def nfields(F):
    return 21 if F >= PRAGUE else 20 if F >= CANCUN else 17 if F >= SHANGHAI else 16 if F >= LONDON else 15


def hfields(F):
    return HFIELDS[:nfields(F)]


def header_rlp(h):
    """h: dict with the fields of its own fork."""
    return rlp([h[k] for k in HFIELDS if k in h])


def hhash(h):
    return keccak(header_rlp(h))


def pow_hash(h):
    return keccak(rlp([h[k] for k in HFIELDS if k in h and k not in ("mix", "nonce")]))


# --------------------------------------------------------------- formulas
DELAY = {BYZANTIUM: 3_000_000, CONSTANTINOPLE: 5_000_000, ISTANBUL: 5_000_000, MUIR: 9_000_000, BERLIN: 9_000_000,
         LONDON: 9_700_000, ARROW: 10_700_000, GRAY: 11_400_000}


def difficulty(F, number, time, ptime, pdiff, pommers):
    if F == FRONTIER:
        d = pdiff + pdiff // 2048 if time - ptime < 13 else pdiff - pdiff // 2048
    elif F < BYZANTIUM:
        d = pdiff + (pdiff // 2048) * max(1 - (time - ptime) // 10, -99)
    else:
        d = pdiff + (pdiff // 2048) * max((2 if pommers else 1) - (time - ptime) // 9, -99)
    n = max(number - DELAY.get(F, 0), 0) // 100_000 - 2
    if n >= 0:
        d += 1 << n
    return max(d, 131072)


def gas_limit_ok(limit, parent):
    return abs(limit - parent) < parent // 1024 and limit >= 5000


def base_fee(plimit, pused, pbase):
    target = plimit // 2
    if pused == target:
        return pbase
    if pused > target:
        return pbase + max(pbase * (pused - target) // target // 8, 1)
    return pbase - pbase * (target - pused) // target // 8


def excess_blob(F, p):
    """p: parent header dict (possibly of an earlier fork)."""
    # zero before blobs existed; otherwise the parent's values, also across a fork boundary
    ex, used, bf = p.get("excess_blob_gas", 0), p.get("blob_gas_used", 0), p.get("base_fee", 0)
    target = (6 if F >= PRAGUE else 3) * 131072
    if ex + used < target:
        return 0
    if F >= OSAKA and 8192 * bf > 131072 * blob_price(F, ex):
        return ex + used * 3 // 9
    return ex + used - target


# ---------------------------------------------------------------- headers
def check_header(F, blocks, h, pow_ok, parent=None):
    """blocks: [(header, txs, ommers, wds)]; raises Reject. parent: the header h extends."""
    p = parent
    if h["number"] != p["number"] + 1:
        raise Reject("number")
    if h["parent_hash"] != hhash(p):
        raise Reject("parent")
    if h["timestamp"] <= p["timestamp"]:
        raise Reject("time")
    if h["gas_used"] > h["gas_limit"]:
        raise Reject("gas used")
    # EIP-1559: the elasticity of the first block is measured from the parent's limit
    if not gas_limit_ok(h["gas_limit"], p["gas_limit"] * (2 if F == LONDON and h["number"] == LONDON_BLOCK else 1)):
        raise Reject("gas limit")
    if len(h["extra_data"]) > 32:
        raise Reject("extra")
    if F == DAO and DAO_BLOCK <= h["number"] < DAO_BLOCK + 10 and h["extra_data"] != b"dao-hard-fork":
        raise Reject("dao extra")
    if F >= LONDON:
        want = 10**9 if F == LONDON and h["number"] == LONDON_BLOCK else base_fee(p["gas_limit"], p["gas_used"], p["base_fee"])
        if h["base_fee"] != want:
            raise Reject("base fee")
    if F < PARIS:
        if h["difficulty"] != difficulty(F, h["number"], h["timestamp"], p["timestamp"], p["difficulty"], p["ommers_hash"] != NO_OMMERS):
            raise Reject("difficulty")
        if not pow_ok(h):
            raise Reject("pow")
    else:
        if h["difficulty"] != 0 or h["nonce"] != bytes(8) or h["ommers_hash"] != NO_OMMERS:
            raise Reject("constant field")
    if F >= CANCUN and h["excess_blob_gas"] != excess_blob(F, p):
        raise Reject("excess blob gas")


def check_ommers(F, blocks, h, ommers, pow_ok, first=0):
    """first: number of the first block of fork F; older ommers follow the rules of fork F-1."""
    if keccak(rlp([[o[k] for k in HFIELDS if k in o] for o in ommers])) != h["ommers_hash"]:
        raise Reject("ommers hash")
    if len(ommers) > 2:
        raise Reject("too many ommers")
    hs = [hhash(o) for o in ommers]
    if len(set(hs)) != len(hs):
        raise Reject("duplicate ommer")
    recent = blocks[-7:]
    by_hash = {hhash(b[0]): b[0] for b in recent}
    known = {hhash(o) for b in recent for o in b[2]}
    for o, oh in zip(ommers, hs):
        age = h["number"] - o["number"]
        if not 1 <= age <= 6 or o["number"] < 1:
            raise Reject("ommer age")
        if oh in by_hash or oh in known or oh == hhash(h):
            raise Reject("ommer known")
        par = by_hash.get(o["parent_hash"])
        if par is None or o["parent_hash"] == h["parent_hash"]:
            raise Reject("ommer parent")
        fo = F if o["number"] >= first else F - 1
        if len([k for k in HFIELDS if k in o]) != nfields(fo):
            raise Reject("ommer format")
        check_header(fo, blocks, o, pow_ok, par)


def reward(F):
    return 5 * E18 if F < BYZANTIUM else 3 * E18 if F < CONSTANTINOPLE else 2 * E18


def pay(F, st, h, ommers):
    R = reward(F)
    st.setbal(h["coinbase"], st.get(h["coinbase"])[1] + R + len(ommers) * (R // 32))
    for o in ommers:
        st.setbal(o["coinbase"], st.get(o["coinbase"])[1] + R * max(8 - (h["number"] - o["number"]), 0) // 8)


# ------------------------------------------------------------ system calls
def system_call(F, st, bl, target, data, checked):
    code = st.get(target)[2]
    if checked and not code:
        raise Reject("no system contract")
    m = evm.Machine(F, st, bl, SYS, bl.base_fee, ())
    aa, dis = set(), False
    if F >= PRAGUE and evm.is_deleg(code):
        dis = True
        aa.add(code[3:])
        code = st.get(code[3:])[2]
    f = evm.Frame(code, SYS, target, 0, data, 30_000_000, 0, False, None, aa, set())
    m.orig = {a: dict(s) for a, s in st.sto.items()}
    m.call(f, target, False, dis)
    st.created.clear()
    st.tra.clear()
    if checked and f.err:
        raise Reject("system call failed")
    return f.out if not f.err else f.out


def deposit_data(d):
    w = lambda o: int.from_bytes(d[o:o + 32], "big")
    if len(d) != 576 or [w(32 * i) for i in range(5)] != [160, 256, 320, 384, 512] or \
            [w(o) for o in (160, 256, 320, 384, 512)] != [48, 32, 8, 96, 8]:
        raise Reject("deposit log")
    return d[192:240] + d[288:320] + d[352:360] + d[416:512] + d[544:552]


def apply_body(F, st, bl, h, txs, ommers, wds):
    """txs: [(ref Tx, signature, encoded bytes)] -> dict of computed commitments; raises Reject."""
    gas = blob = 0
    receipts, logs, steps = [], [], 0
    if F >= CANCUN:
        system_call(F, st, bl, BEACON, bl.beacon_root, False)
    if F >= PRAGUE:
        system_call(F, st, bl, HISTORY, bl.hashes[-1], False)
    for tx, sig, e in txs:
        res = evm.run_tx(F, st, bl, tx, gas, blob)
        gas += res["gas_used"]
        blob += res["blob_gas"]
        logs += res["logs"]
        steps += res["steps"] + 1
        receipts.append(evm.receipt_rlp(F, tx.kind, res, gas, st.root() if F < BYZANTIUM else None))
    if F < PARIS:
        pay(F, st, h, ommers)
    for i, v, a, amt in wds:
        st.setbal(a, st.get(a)[1] + amt * 10**9)
        if st.exists(a) and st.empty(a):
            st.destroy(a)
    out = dict(gas_used=gas, bloom=bloom(logs), steps=steps, receipts=receipts, logs=logs)
    idx = lambda xs: mpt_root({rlp(i): x for i, x in enumerate(xs)})
    out["transactions_root"] = idx([e for _, _, e in txs])
    out["receipt_root"] = idx(receipts)
    if F >= SHANGHAI:
        out["withdrawals_root"] = idx([rlp(list(w)) for w in wds])
    if F >= CANCUN:
        out["blob_gas_used"] = blob
    if F >= PRAGUE:
        reqs = []
        dep = b"".join(deposit_data(d) for a, t, d in logs if a == DEPOSIT and t and tb(t[0]) == DEPTOPIC)
        if dep:
            reqs.append(b"\x00" + dep)
        for k, target in ((1, WREQ), (2, CREQ)):
            r = system_call(F, st, bl, target, b"", True)
            if r:
                reqs.append(bytes([k]) + r)
        out["requests"] = reqs
        out["requests_hash"] = hashlib.sha256(b"".join(hashlib.sha256(r).digest() for r in reqs)).digest()
    out["state_root"] = st.root()
    return out


def tb(t):
    return t if isinstance(t, bytes) else t.to_bytes(32, "big")


COMMIT = ["gas_used", "transactions_root", "state_root", "receipt_root", "bloom", "withdrawals_root", "blob_gas_used", "requests_hash"]


class Chain:
    def __init__(self, F, st, blocks, chain_id=1, pow_ok=lambda h: True, first=0):
        self.first = first
        self.F, self.st, self.blocks, self.chain_id, self.pow_ok = F, st, list(blocks), chain_id, pow_ok

    def hashes(self):
        r = self.blocks[-255:]
        return [b[0]["parent_hash"] for b in r] + [hhash(r[-1][0])]

    def block_env(self, h):
        return evm.Block(coinbase=h["coinbase"], number=h["number"], time=h["timestamp"], gas_limit=h["gas_limit"],
                         base_fee=h.get("base_fee", 0), difficulty=h["difficulty"], prev_randao=h["mix"],
                         excess_blob_gas=h.get("excess_blob_gas", 0), chain_id=self.chain_id, hashes=self.hashes(),
                         beacon_root=h.get("beacon_root", bytes(32)))

    def block_rlp(self, h, txs, ommers, wds):
        items = [[h[k] for k in HFIELDS if k in h], [Raw(e) if tx.kind == 0 else e for tx, _, e in txs],
                 [[o[k] for k in HFIELDS if k in o] for o in ommers]]
        if self.F >= SHANGHAI:
            items.append([list(w) for w in wds])
        return rlp_raw(items)

    def execute(self, h, txs, ommers, wds):
        """Commitments of the block on the current state, which is not changed."""
        st = self.st.copy()
        return apply_body(self.F, st, self.block_env(h), h, txs, ommers, wds), st

    def check_head(self, h, txs, ommers, wds):
        F = self.F
        if F >= OSAKA and len(self.block_rlp(h, txs, ommers, wds)) > 8_388_608:
            raise Reject("block size")
        check_header(F, self.blocks, h, self.pow_ok, self.blocks[-1][0])
        if F < PARIS:
            check_ommers(F, self.blocks, h, ommers, self.pow_ok, self.first)
        elif ommers:
            raise Reject("ommers")

    def add(self, h, txs, ommers, wds):
        """Apply the block; raises Reject (stage, reason) leaving the chain unchanged."""
        self.check_head(h, txs, ommers, wds)
        out, st = self.execute(h, txs, ommers, wds)
        for k in COMMIT:
            if k in out and out[k] != h[k]:
                raise Reject("commitment " + k)
        self.st = st
        self.blocks.append((h, txs, ommers, wds))
        self.blocks = self.blocks[-255:]
        return out


class Raw:
    """Already encoded RLP item."""

    def __init__(self, b):
        self.b = b


def rlp_raw(x):
    if isinstance(x, Raw):
        return x.b
    if isinstance(x, (list, tuple)):
        from .prim import _len
        body = b"".join(rlp_raw(y) for y in x)
        return _len(len(body), 0xC0) + body
    return rlp(x)
