"""Drives state_transition of a fork next to the reference chain model."""
import dataclasses
import hashlib
import traceback

from ref import chain, evm, prim
from ref.chain import HFIELDS, NO_OMMERS, Chain, hhash
from ref.forks import *  # noqa
from . import diff, real
from .diff import Mismatch, digest
from ethereum_types.bytes import Bytes, Bytes8, Bytes32, Bytes256
from ethereum_types.numeric import U64, U256, Uint


# ------------------------------------------------ stand-in for ethash
# The proof-of-work function itself is decided separately (C24).  Here the light
# hash is a cheap pure function of header hash, nonce, cache and size, so that the
# check around it (which header hash, which comparison) is exercised.
def stub_hash(hh, nonce, epoch_tag):
    mix = prim.keccak(b"mix" + hh + nonce + epoch_tag)
    return mix, nonce + bytes(24)


def tag(number):
    return (number // 30000).to_bytes(8, "big")


def pow_ok(h):
    mix, res = stub_hash(chain.pow_hash(h), h["nonce"], tag(h["number"]))
    return mix == h["mix"] and int.from_bytes(res, "big") <= 2**256 // h["difficulty"]


def seal(h, nonce=bytes(8)):
    h["nonce"] = nonce
    h["mix"] = stub_hash(chain.pow_hash(h), nonce, tag(h["number"]))[0]
    return h


class _Cache(tuple):
    pass


_installed = set()


def install_pow(F):
    """Replace ethash in the fork module (and in ethereum.ethash) by the stand-in."""
    if F >= PARIS or F in _installed:
        return
    _installed.add(F)
    import ethereum.ethash as E
    from ethereum.crypto.hash import Hash32

    def generate_cache(number):
        return _Cache((("cache", int(number) // 30000),))

    def dataset_size(number):
        return Uint(1_000_000 + int(number) // 30000)

    def hashimoto_light(hh, nonce, cache, size):
        (c,) = cache
        if int(size) - 1_000_000 != c[1]:
            raise Mismatch("cache and dataset size of different epochs")
        m, r = stub_hash(bytes(hh), bytes(nonce), c[1].to_bytes(8, "big"))
        return Bytes32(m), Hash32(r)

    for mod in (E, real.fork(F).fork):
        for n, f in (("generate_cache", generate_cache), ("dataset_size", dataset_size), ("hashimoto_light", hashimoto_light)):
            if hasattr(mod, n):
                setattr(mod, n, f)


# ------------------------------------------------------ implementation objects
def iheader(h, F=None):
    F = h.get("F", F)
    fk = real.fork(F)
    cls = fk.blocks.Header
    vals = []
    for k in chain.hfields(F):
        v = h[k]
        if k in ("parent_hash", "ommers_hash", "state_root", "transactions_root", "receipt_root", "mix", "withdrawals_root", "beacon_root", "requests_hash"):
            v = Bytes32(v)
        elif k == "coinbase":
            v = fk.types.Address(v)
        elif k == "bloom":
            v = Bytes256(v)
        elif k == "timestamp":
            v = U256(v)
        elif k == "extra_data":
            v = Bytes(v)
        elif k == "nonce":
            v = Bytes8(v)
        elif k in ("blob_gas_used", "excess_blob_gas"):
            v = U64(v)
        else:
            v = Uint(v)
        vals.append(v)
    fs = [f.name for f in dataclasses.fields(cls)]
    assert len(fs) == len(vals)
    return cls(**dict(zip(fs, vals)))


def iblock(F, h, txs, ommers, wds):
    F = h.get("F", F)
    fk = real.fork(F)
    its = []
    for tx, sig, e in txs:
        if isinstance(tx, evm.Tx) and tx.kind == 0:
            its.append(fk.build_tx(tx, sig))
        else:
            its.append(Bytes(e))
    kw = dict(header=iheader(h, F), transactions=tuple(its), ommers=tuple(iheader(o, F) for o in ommers))
    if F >= SHANGHAI:
        W = getattr(fk.blocks, "Withdrawal", None) or fk.types.Withdrawal
        kw["withdrawals"] = tuple(W(index=U64(i), validator_index=U64(v), address=fk.types.Address(a), amount=U256(m)) for i, v, a, m in wds)
    return fk.blocks.Block(**kw)


# ------------------------------------------------------------- scenarios
def genesis(F, **kw):
    """A head block of fork F to build on (its commitments are not re-checked)."""
    d = dict(F=F, parent_hash=bytes([9]) * 32, ommers_hash=NO_OMMERS, coinbase=bytes([0xC0]) + bytes(18) + b"\x01", state_root=bytes([8]) * 32,
             transactions_root=prim.EMPTY_ROOT, receipt_root=prim.EMPTY_ROOT, bloom=bytes(256), difficulty=0x40000 if F < PARIS else 0,
             number=1000 if F < BYZANTIUM else 7_000_000 if F < PARIS else 20_000_000, gas_limit=30_000_000, gas_used=0, timestamp=1_700_000_000,
             extra_data=b"", mix=bytes(32), nonce=bytes(8))
    if F == DAO:
        d["number"] = 1_930_000
    if F in (LONDON, ARROW, GRAY):
        d["number"] = 13_000_000
    if F >= LONDON:
        d["base_fee"] = 1000
    if F >= SHANGHAI:
        d["withdrawals_root"] = prim.EMPTY_ROOT
    if F >= CANCUN:
        d.update(blob_gas_used=0, excess_blob_gas=0, beacon_root=bytes([5]) * 32)
    if F >= PRAGUE:
        d["requests_hash"] = prim.keccak(b"r")
    d.update(kw)
    return d


def child(F, p, **kw):
    """Header extending p with every derived header field right; commitments empty."""
    h = dict(F=F, parent_hash=hhash(p), ommers_hash=NO_OMMERS, coinbase=bytes([0xC0]) + bytes(18) + b"\x02", state_root=bytes(32),
             transactions_root=prim.EMPTY_ROOT, receipt_root=prim.EMPTY_ROOT, bloom=bytes(256), number=p["number"] + 1,
             gas_limit=p["gas_limit"], gas_used=0, timestamp=p["timestamp"] + 12, extra_data=b"", mix=bytes(32), nonce=bytes(8), difficulty=0)
    if F == LONDON and h["number"] == chain.LONDON_BLOCK:
        h["gas_limit"] = 2 * p["gas_limit"]
    if F >= SHANGHAI:
        h["withdrawals_root"] = prim.EMPTY_ROOT
    if F >= CANCUN:
        h.update(blob_gas_used=0, beacon_root=bytes([6]) * 32)
    if F >= PRAGUE:
        h["requests_hash"] = bytes(32)
    if F == DAO and chain.DAO_BLOCK <= h["number"] < chain.DAO_BLOCK + 10:
        h["extra_data"] = b"dao-hard-fork"
    h.update(kw)
    derive(F, p, h, skip=kw)
    return h


def derive(F, p, h, skip=()):
    if F < PARIS and "difficulty" not in skip:
        h["difficulty"] = chain.difficulty(F, h["number"], h["timestamp"], p["timestamp"], p["difficulty"], p["ommers_hash"] != NO_OMMERS)
    if F >= LONDON and "base_fee" not in skip:
        h["base_fee"] = 10**9 if F == LONDON and h["number"] == chain.LONDON_BLOCK else chain.base_fee(p["gas_limit"], p["gas_used"], p.get("base_fee", 0))
    if F >= CANCUN and "excess_blob_gas" not in skip:
        h["excess_blob_gas"] = chain.excess_blob(F, p)


_BODY = {}


def hook_body(fk):
    """Keep what the fork's apply_body returned, to look at its output and at bodies the model refuses."""
    f = getattr(fk.fork, "apply_body", None)
    if f is None or getattr(f, "_verif", False):
        return

    def apply_body(*a, **k):
        _BODY.pop(fk.F, None)
        out = f(*a, **k)
        _BODY[fk.F] = out
        return out
    apply_body._verif = True
    fk.fork.apply_body = apply_body


def own_commitments(fk, F, h, out, state):
    """The header with every commitment set to what the implementation itself computed."""
    h = dict(h)
    h["gas_used"] = int(out.block_gas_used)
    h["state_root"] = bytes(fk.state.state_root(state))
    h["transactions_root"] = bytes(fk.trie.root(out.transactions_trie))
    h["receipt_root"] = bytes(fk.trie.root(out.receipts_trie))
    h["bloom"] = bytes(fk.bloom.logs_bloom(out.block_logs))
    if F >= SHANGHAI:
        h["withdrawals_root"] = bytes(fk.trie.root(out.withdrawals_trie))
    if F >= CANCUN:
        h["blob_gas_used"] = int(out.blob_gas_used)
    if F >= PRAGUE:
        h["requests_hash"] = hashlib.sha256(b"".join(hashlib.sha256(r).digest() for r in out.requests)).digest()
    if F < PARIS:
        seal(h, h["nonce"])
    return h


class Pair:
    """Model chain and implementation chain kept in step."""

    def __init__(self, F, acc, sto, blocks, chain_id=1, first=0):
        """blocks: [(header, txs, ommers, wds)] oldest first, the last one is the head."""
        install_pow(F)
        self.F = F
        self.fk = real.fork(F)
        hook_body(self.fk)
        self.m = Chain(F, evm.State(acc, sto), blocks, chain_id, pow_ok, first)
        rs = self.fk.mkstate(acc, sto)
        self.i = self.fk.fork.BlockChain(blocks=[iblock(F, *b) for b in blocks], state=rs, chain_id=U64(chain_id))
        self.digs = []
        self.n = 0
        self.last = None

    def txs(self, ts):
        out = []
        for t in ts:
            tx, sig = diff.make_tx(self.F, t)
            out.append((tx, sig, real.encode_signed(tx, sig)))
        return out

    def build(self, txs=(), ommers=(), wds=(), parent=None, nonce=bytes(8), **kw):
        """A block on the head with correct commitments (kw overrides before execution)."""
        p = parent or self.m.blocks[-1][0]
        h = child(self.F, p, **kw)
        if ommers and "ommers_hash" not in kw:
            h["ommers_hash"] = prim.keccak(prim.rlp([[o[k] for k in HFIELDS if k in o] for o in ommers]))
        try:
            out, _ = self.m.execute(h, txs, ommers, wds)
            for k in chain.COMMIT:
                if k in out and k not in kw:
                    h[k] = out[k]
        except evm.Reject:
            pass
        if self.F < PARIS and "mix" not in kw:
            seal(h, nonce)
        return (h, list(txs), list(ommers), list(wds))

    def add(self, b, expect=None):
        """Offer block b to both; returns (verdict, model output)."""
        h, txs, ommers, wds = b
        self.n += 1
        pre_m = self.m.st.copy()
        head_fault = False
        err = out = None
        try:
            self.m.check_head(h, txs, ommers, wds)
        except evm.Reject as e:
            head_fault, err = True, str(e)
        if err is None:
            try:
                out = self.m.add(h, txs, ommers, wds)
            except evm.Reject as e:
                err = str(e)
        n0 = len(self.i.blocks)
        blocks0 = list(self.i.blocks)
        ib = iblock(self.F, h, txs, ommers, wds)
        _BODY.pop(self.F, None)
        try:
            self.fk.fork.state_transition(self.i, ib)
            ierr = None
        except real.INVALID as e:
            ierr = e
        except Mismatch:
            raise
        except Exception as e:
            raise Mismatch(f"state_transition raised {type(e).__name__}: {e} (model: {err or 'accepts'})\n" + traceback.format_exc(limit=-4))
        self.last = err
        if (err is None) != (ierr is None):
            raise Mismatch(f"{NAMES[self.F]}: model {'accepts' if err is None else 'refuses: ' + err}, implementation "
                           f"{'accepts' if ierr is None else 'refuses: %r' % ierr}\n header {show(h)}")
        if expect is not None and (err is None) != expect:
            raise AssertionError(f"harness: expected {expect} got {err}")
        body = _BODY.pop(self.F, None)
        if err is None:
            diff.compare_state(self.fk, self.m.st, self.i.state, h["number"])
            if body is not None:
                got = tuple((bytes(l.address), tuple(bytes(x) for x in l.topics), bytes(l.data)) for l in body.block_logs)
                if got != tuple((a, tuple(t), d) for a, t, d in out["logs"]):
                    raise Mismatch("the logs of the block differ, or their order")
            want = (blocks0 + [ib])[-255:]
            if self.i.blocks != want:
                raise Mismatch(f"chain blocks after acceptance: {len(self.i.blocks)} blocks, expected {len(want)} ending in the new block")
            if not self.i.blocks or self.i.blocks[-1] != ib:
                raise Mismatch("the new block is not the head")
        else:
            if self.i.blocks != blocks0:
                raise Mismatch(f"refused block ({err}) changed the chain's blocks")
            if head_fault:
                diff.compare_state(self.fk, pre_m, self.i.state, h["number"])
            else:
                # execution happened in place; put the implementation back on the model's state
                own = None
                if body is not None and not err.startswith("commitment"):
                    # the body was refused by the model but executed: a header that fits the
                    # implementation's own results must be refused as well
                    own = own_commitments(self.fk, self.F, h, body, self.i.state)
                self.resync()
                if own is not None:
                    try:
                        self.fk.fork.state_transition(self.i, iblock(self.F, own, txs, ommers, wds))
                        ok = True
                    except real.INVALID:
                        ok = False
                    if ok:
                        raise Mismatch(f"{NAMES[self.F]}: model refuses the body ({err}); the implementation accepts it under a header of its own\n {show(own)}")
                    self.resync()
        self.digs.append(digest((self.F, hhash(h), err)))
        return err, out

    def resync(self):
        self.i.state = self.fk.mkstate(self.m.st.acc, self.m.st.sto)


def show(h):
    return {k: (v.hex()[:16] if isinstance(v, bytes) else v) for k, v in h.items() if k != "bloom"}
