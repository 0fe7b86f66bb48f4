"""Adapter to the implementation in /repo: builds its objects from plain data.

Only public entry points of each fork package are used: fork.process_transaction,
fork.apply_body, fork.state_transition, the state API, the transaction classes.
"""
import importlib
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
if SRC not in sys.path:
    sys.path.insert(0, SRC)
sys.setrecursionlimit(20000)

from ethereum_types.bytes import Bytes, Bytes0, Bytes20, Bytes32, Bytes256, Bytes8  # noqa
from ethereum_types.numeric import U64, U256, Uint  # noqa

import ethereum  # noqa
from ethereum.exceptions import EthereumException, InvalidBlock  # noqa
from ethereum_rlp.exceptions import RLPException  # noqa

assert os.path.realpath(ethereum.__file__).startswith(os.path.realpath(SRC)), ethereum.__file__

from ref.forks import *  # noqa
from ref.forks import NAMES
from ref import prim, curves

INVALID = (EthereumException, RLPException)

# harness keys: small private keys and their addresses
_KEYS = {}


def addr_of(key):
    if key not in _KEYS:
        Q = curves.SECP.mul(curves.SECP.g, key)
        _KEYS[key] = prim.keccak(Q[0].to_bytes(32, "big") + Q[1].to_bytes(32, "big"))[12:]
    return _KEYS[key]


class Fork:
    def __init__(self, F):
        self.F = F
        self.name = NAMES[F]
        g = lambda m: importlib.import_module(f"ethereum.{self.name}.{m}")
        self.fork = g("fork")
        self.state = g("state")
        self.types = g("fork_types")
        self.txs = g("transactions")
        self.vm = g("vm")
        self.trie = g("trie")
        self.blocks = g("blocks")
        self.bloom = g("bloom")
        self.gas = g("vm.gas")

    # ------------------------------------------------------------ state
    def mkstate(self, acc, sto):
        s = self.state.State()
        A = self.types.Account
        Ad = self.types.Address
        for a, (n, b, c) in acc.items():
            self.state.set_account(s, Ad(a), A(nonce=Uint(n), balance=U256(b), code=Bytes(c)))
        for a, kv in sto.items():
            for k, v in kv.items():
                self.state.set_storage(s, Ad(a), Bytes32(k.to_bytes(32, "big")), U256(v))
        return s

    def dump(self, s):
        acc = {}
        for a, x in s._main_trie._data.items():
            if x is not None:
                acc[bytes(a)] = (int(x.nonce), int(x.balance), bytes(x.code))
        sto = {}
        for a, t in s._storage_tries.items():
            d = {int.from_bytes(k, "big"): int(v) for k, v in t._data.items() if int(v)}
            if d:
                sto[bytes(a)] = d
        return acc, sto

    # ------------------------------------------------------------ block env
    def env(self, state, bl):
        F = self.F
        kw = dict(chain_id=U64(bl.chain_id), state=state, block_gas_limit=Uint(bl.gas_limit),
                  block_hashes=[self.types_hash(h) for h in bl.hashes],
                  coinbase=self.types.Address(bl.coinbase), number=Uint(bl.number),
                  time=U256(bl.time))
        if F < PARIS:
            kw["difficulty"] = Uint(bl.difficulty)
        else:
            kw["prev_randao"] = Bytes32(bl.prev_randao)
        if F >= LONDON:
            kw["base_fee_per_gas"] = Uint(bl.base_fee)
        if F >= CANCUN:
            kw["excess_blob_gas"] = U64(bl.excess_blob_gas)
            kw["parent_beacon_block_root"] = self.types_hash(bl.beacon_root)
        return self.vm.BlockEnvironment(**kw)

    @staticmethod
    def types_hash(h):
        return Bytes32(h)

    # ------------------------------------------------------------ transactions
    def access(self, acc):
        out = []
        for a, ks in acc:
            a = self.types.Address(a)
            ks = tuple(Bytes32(k.to_bytes(32, "big")) for k in ks)
            out.append(self.txs.Access(account=a, slots=ks) if hasattr(self.txs, "Access") else (a, ks))
        return tuple(out)

    def build_tx(self, tx, sig=(0, 0, 0)):
        """ref Tx + (v, r, s) -> implementation transaction object."""
        T = self.txs
        to = Bytes0(b"") if tx.to == b"" else self.types.Address(tx.to)
        v, r, s = sig
        k = tx.kind
        com = dict(gas=Uint(tx.gas), to=to, value=U256(tx.value), data=Bytes(tx.data),
                   r=U256(r), s=U256(s))
        if k == 0:
            cls = getattr(T, "LegacyTransaction", None) or T.Transaction
            return cls(nonce=U256(tx.nonce), gas_price=Uint(tx.gas_price), v=U256(v), **com)
        com.update(chain_id=U64(tx.chain_id), y_parity=U256(v), access_list=self.access(tx.access))
        if k == 1:
            return T.AccessListTransaction(nonce=U256(tx.nonce), gas_price=Uint(tx.gas_price), **com)
        com.update(max_priority_fee_per_gas=Uint(tx.max_prio), max_fee_per_gas=Uint(tx.max_fee))
        if k == 2:
            return T.FeeMarketTransaction(nonce=U256(tx.nonce), **com)
        if k == 3:
            return T.BlobTransaction(nonce=U256(tx.nonce), max_fee_per_blob_gas=U256(tx.max_blob_fee),
                                     blob_versioned_hashes=tuple(Bytes32(h) for h in tx.blobs), **com)
        return T.SetCodeTransaction(nonce=U64(tx.nonce), authorizations=tuple(
            self.types.Authorization(chain_id=U256(c), address=self.types.Address(a), nonce=U64(n),
                                     y_parity=U8ish(y), r=U256(r), s=U256(s))
            for (c, a, n, y, r, s) in tx.raw_auths), **com)

    def process(self, env, out, rtx, index):
        self.fork.process_transaction(env, out, rtx, Uint(index))

    def receipt_bytes(self, out, i):
        """RLP of receipt i as committed to by the receipts trie, or None."""
        from ethereum_rlp import rlp
        k = rlp.encode(Uint(i))
        r = self.trie.trie_get(out.receipts_trie, k)
        if r is None:
            return None
        if isinstance(r, (bytes, bytearray)):
            return bytes(r)
        return bytes(rlp.encode(r))


def U8ish(y):
    from ethereum_types.numeric import U8
    return U8(y)


_F = {}


def fork(F):
    if F not in _F:
        _F[F] = Fork(F)
    return _F[F]


# ---------------------------------------------------------------- signing
def _sign_hash(key, h):
    """Deterministic low-s signature (r, s, parity) by coincurve."""
    import coincurve
    k = _PRIV.get(key)
    if k is None:
        k = _PRIV[key] = coincurve.PrivateKey(key.to_bytes(32, "big"))
    sig = k.sign_recoverable(h, hasher=None)
    return (int.from_bytes(sig[:32], "big"), int.from_bytes(sig[32:64], "big"), sig[64])


_PRIV = {}


def signing_payload(tx, eip155=None):
    """Hash to sign, computed from the reference encoding (not the implementation)."""
    acc = [[a, [k.to_bytes(32, "big") for k in ks]] for a, ks in tx.access]
    if tx.kind == 0:
        f = [tx.nonce, tx.gas_price, tx.gas, tx.to, tx.value, tx.data]
        if eip155 is not None:
            f += [eip155, 0, 0]
        return prim.rlp(f)
    if tx.kind == 1:
        return b"\x01" + prim.rlp([tx.chain_id, tx.nonce, tx.gas_price, tx.gas, tx.to, tx.value, tx.data, acc])
    f = [tx.chain_id, tx.nonce, tx.max_prio, tx.max_fee, tx.gas, tx.to, tx.value, tx.data, acc]
    if tx.kind == 3:
        f += [tx.max_blob_fee, list(tx.blobs)]
    if tx.kind == 4:
        f += [[[c, a, n, y, r, s] for (c, a, n, y, r, s) in tx.raw_auths]]
    return bytes([tx.kind]) + prim.rlp(f)


def tx_fields(tx, sig):
    """Reference RLP field list of the signed transaction."""
    acc = [[a, [k.to_bytes(32, "big") for k in ks]] for a, ks in tx.access]
    v, r, s = sig
    if tx.kind == 0:
        return [tx.nonce, tx.gas_price, tx.gas, tx.to, tx.value, tx.data, v, r, s]
    if tx.kind == 1:
        f = [tx.chain_id, tx.nonce, tx.gas_price, tx.gas, tx.to, tx.value, tx.data, acc]
    else:
        f = [tx.chain_id, tx.nonce, tx.max_prio, tx.max_fee, tx.gas, tx.to, tx.value, tx.data, acc]
    if tx.kind == 3:
        f += [tx.max_blob_fee, list(tx.blobs)]
    if tx.kind == 4:
        f += [[[c, a, n, y, r, s] for (c, a, n, y, r, s) in tx.raw_auths]]
    return f + [v, r, s]


def encode_signed(tx, sig):
    b = prim.rlp(tx_fields(tx, sig))
    return bytes([tx.kind]) + b if tx.kind else b


def sign(F, tx, key, protected=None):
    """(v, r, s) for tx signed with the harness key."""
    if protected is None:
        protected = F >= SPURIOUS
    if tx.kind == 0:
        p = signing_payload(tx, tx.chain_id if protected else None)
        r, s, y = _sign_hash(key, prim.keccak(p))
        return ((35 + 2 * tx.chain_id + y) if protected else 27 + y, r, s)
    r, s, y = _sign_hash(key, prim.keccak(signing_payload(tx)))
    return (y, r, s)


def sign_auth(key, chain_id, addr, nonce):
    """Signed EIP-7702 authorization (chain_id, addr, nonce, y, r, s)."""
    h = prim.keccak(b"\x05" + prim.rlp([chain_id, addr, nonce]))
    r, s, y = _sign_hash(key, h)
    return (chain_id, addr, nonce, y, r, s)
