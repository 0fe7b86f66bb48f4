"""Lock-step execution of a case on the reference model and on the implementation.

A case is a plain dict:
  F     fork index
  acc   {addr: (nonce, balance, code)}      sto {addr: {slot: value}}
  bl    kwargs of ref.evm.Block
  txs   [dict]  kwargs of ref.evm.Tx plus: key (int private key) or sig (v, r, s),
                sender (only with sig), protected (EIP-155 on/off),
                raw_auths [(chain_id, addr, nonce, y, r, s)], auths are derived
The implementation is driven through process_transaction of the fork.
"""
import hashlib
import traceback

from ref import evm, prim
from ref.forks import *  # noqa
from . import real


def digest(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=10).digest()


def canon(st):
    return (sorted(st.acc.items()), sorted((a, sorted(s.items())) for a, s in st.sto.items() if s))


class Mismatch(Exception):
    pass


_SIGCACHE = {}


def make_tx(F, t):
    t = dict(t)
    key, sig = t.pop("key", None), t.pop("sig", None)
    prot = t.pop("protected", None)
    raw = t.pop("raw_auths", ())
    sender = t.pop("sender", None)
    auth_who = t.pop("auth_who", None)
    if raw:
        t["auths"] = tuple((a[0], a[1], a[2], w) for a, w in zip(raw, auth_who))
    tx = evm.Tx(sender, **t)
    tx.raw_auths = raw
    if sig is None:
        tx.sender = real.addr_of(key)
        k = (key, prot, F >= SPURIOUS, tx.kind, repr(sorted(t.items(), key=lambda kv: kv[0])), repr(raw))
        sig = _SIGCACHE.get(k)
        if sig is None:
            if len(_SIGCACHE) > 20000:
                _SIGCACHE.clear()
            sig = _SIGCACHE[k] = real.sign(F, tx, key, prot)
    return tx, sig


def run_case(case, want=None):
    """Returns (list of model step digests, model transitions, info). Raises Mismatch."""
    F = case["F"]
    fk = real.fork(F)
    bl = evm.Block(**case["bl"])
    st = evm.State(case["acc"], case.get("sto", {}))
    rs = fk.mkstate(case["acc"], case.get("sto", {}))
    env = fk.env(rs, bl)
    out = fk.vm.BlockOutput()
    gas = blob = 0
    digs = []
    info = []
    all_logs = []
    steps = 0
    for i, t in enumerate(case["txs"]):
        tx, sig = make_tx(F, t)
        pre = st.copy()
        err = None
        res = None
        try:
            res = evm.run_tx(F, st, bl, tx, gas, blob)
        except evm.Reject as e:
            err = str(e)
            st = pre
        ierr = None
        rtx = None
        if tx.kind <= evm.max_kind(F):
            try:
                rtx = fk.build_tx(tx, sig)
                fk.process(env, out, rtx, i)
            except real.INVALID as e:
                ierr = e
            except Exception as e:
                raise Mismatch(f"tx {i}: internal error {type(e).__name__}: {e}\n" + traceback.format_exc(limit=-3))
        else:
            ierr = err
        if (err is None) != (ierr is None):
            raise Mismatch(f"tx {i}: model {'accepts' if err is None else 'rejects: ' + err}, "
                           f"implementation {'accepts' if ierr is None else 'rejects: %r' % ierr}")
        if res is not None:
            gas += res["gas_used"]
            blob += res["blob_gas"]
            all_logs += res["logs"]
            steps += res["steps"] + 1
        else:
            steps += 1
        compare_state(fk, st, rs, i)
        if int(out.block_gas_used) != gas:
            raise Mismatch(f"tx {i}: block gas used model {gas} implementation {int(out.block_gas_used)} (model: {res or err})")
        if F >= CANCUN and int(out.blob_gas_used) != blob:
            raise Mismatch(f"tx {i}: blob gas used model {blob} implementation {int(out.blob_gas_used)}")
        rb = fk.receipt_bytes(out, i)
        if res is None:
            if rb is not None:
                raise Mismatch(f"tx {i}: receipt for a rejected transaction")
        else:
            root = st.root() if F < BYZANTIUM else None
            want_r = evm.receipt_rlp(F, tx.kind, res, gas, root)
            if rb != want_r:
                raise Mismatch(f"tx {i}: receipt differs\n model {want_r.hex()}\n impl  {rb.hex() if rb is not None else None}\n {res}")
        digs.append(digest((F, canon(st), gas, err, res and (res["ok"], res["logs"]))))
        info.append(err if err is not None else res)
    if case.get("close"):
        # a state root can only be taken when every snapshot has been closed
        try:
            root = fk.state.state_root(rs)
        except Exception as e:
            raise Mismatch(f"state root after the last transaction: {type(e).__name__}: {e}")
        if bytes(root) != st.root():
            raise Mismatch("state root differs from the model's")
    logs = tuple((bytes(l.address), tuple(bytes(x) for x in l.topics), bytes(l.data)) for l in out.block_logs)
    if logs != tuple((a, tuple(t), d) for a, t, d in all_logs):
        raise Mismatch("block logs differ")
    return digs, steps, info


def compare_state(fk, st, rs, i):
    acc, sto = fk.dump(rs)
    if acc != st.acc:
        d = []
        for a in sorted(set(acc) | set(st.acc)):
            if acc.get(a) != st.acc.get(a):
                d.append(f"{a.hex()}: model {sh(st.acc.get(a))} implementation {sh(acc.get(a))}")
        raise Mismatch(f"tx {i}: accounts differ\n " + "\n ".join(d))
    if sto != st.sto:
        raise Mismatch(f"tx {i}: storage differs\n model {hx(st.sto)}\n impl  {hx(sto)}")


def sh(a):
    return None if a is None else (a[0], a[1], a[2].hex()[:80])


def hx(s):
    return {a.hex(): v for a, v in s.items()}
