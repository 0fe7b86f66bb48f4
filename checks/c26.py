"""C26: the command-line tools agree with the protocol they wrap."""
import argparse
import io
import itertools
import json
import logging
import os
import shutil
import sys
import tempfile

from explore import Check, Result, main
from asm import asm, push
from drv import diff, real
from drv.diff import Mismatch
from scen import A, ETH, S1, S2, S3, NOBODY, K1, K2
from c17 import SYSACC, WORLD, bad, kinds, mk, STO, BH, H0, LOG
from ref import chain, codec, evm, prim
from ref.forks import *  # noqa
from ethereum_spec_tools import evm_tools as tools
from ethereum_spec_tools.evm_tools.t8n import T8N
from ethereum_spec_tools.evm_tools.b11r import B11R
from ethereum_spec_tools.evm_tools import statetest
from ethereum import trace

logging.disable(logging.CRITICAL)

LABEL = {DAO: "DaoFork", CONSTANTINOPLE: "ConstantinopleFix"}
ALIAS = {TANGERINE: "EIP150", SPURIOUS: "EIP158", PARIS: "Merge"}
MIXED = {"FrontierToHomesteadAt5": (FRONTIER, HOMESTEAD), "HomesteadToDaoAt5": (HOMESTEAD, DAO), "HomesteadToEIP150At5": (HOMESTEAD, TANGERINE),
         "EIP158ToByzantiumAt5": (SPURIOUS, BYZANTIUM), "ByzantiumToConstantinopleAt5": (BYZANTIUM, CONSTANTINOPLE),
         "ConstantinopleToIstanbulAt5": (CONSTANTINOPLE, ISTANBUL), "BerlinToLondonAt5": (BERLIN, LONDON)}
COIN = bytes.fromhex("c01ba5e000000000000000000000000000000001")
ROOT0 = bytes(range(32))


def label(F):
    return LABEL.get(F) or "".join(x.title() for x in NAMES[F].split("_"))


def h(x):
    return "0x" + x.hex() if isinstance(x, bytes) else hex(x)


_P = []


def parser():
    if not _P:
        _P.append(tools.create_parser())
    return _P[0]


def jalloc(acc, sto, style=0):
    out = {}
    for a, (n, b, c) in acc.items():
        d = {}
        if style == 0:
            d = {"nonce": hex(n), "balance": hex(b), "code": h(c), "storage": {hex(k): hex(v) for k, v in sto.get(a, {}).items()}}
        elif style == 1:   # decimal numbers, absent defaults, padded storage
            if n:
                d["nonce"] = str(n)
            if b:
                d["balance"] = str(b)
            if c:
                d["code"] = h(c)
            if a in sto:
                d["storage"] = {h(k.to_bytes(32, "big")): h(v.to_bytes(32, "big")) for k, v in sto[a].items()}
        else:              # odd-length numbers, no storage when empty, explicit zero slot
            d = {"nonce": "0x" + "%03x" % n, "balance": "0x%x" % b, "code": h(c)}
            if a in sto:
                d["storage"] = {"0x%x" % k: "0x%x" % v for k, v in sto[a].items()}
                d["storage"]["0x7777"] = "0x0"
        out[h(a) if style != 1 else a.hex()] = d
    return out


def jtx(F, t, style):
    """style 0 signed with type, 1 signed without type, 2 secret key with type, 3 secret key without type."""
    tx, (v, r, s) = diff.make_tx(F, t)
    d = {"chainId": "0x1", "nonce": hex(tx.nonce), "gas": hex(tx.gas), "value": hex(tx.value), "input": h(tx.data)}
    if tx.to or style % 2:
        d["to"] = h(tx.to) if tx.to else "" if style == 1 else None
    if tx.kind < 2:
        d["gasPrice"] = hex(tx.gas_price)
    else:
        d["maxFeePerGas"], d["maxPriorityFeePerGas"] = hex(tx.max_fee), hex(tx.max_prio)
    if tx.kind:
        d["accessList"] = [{"address": h(a), "storageKeys": [h(k.to_bytes(32, "big")) for k in ks]} for a, ks in tx.access]
    if tx.kind == 3:
        d["maxFeePerBlobGas"], d["blobVersionedHashes"] = hex(tx.max_blob_fee), [h(x) for x in tx.blobs]
    if tx.kind == 4:
        d["authorizationList"] = [{"chainId": hex(c), "address": h(a), "nonce": hex(n), "v": hex(y), "r": hex(rr), "s": hex(ss)} for c, a, n, y, rr, ss in tx.raw_auths]
    if style % 2 == 0:
        d["type"] = hex(tx.kind) if style == 0 else str(tx.kind)
    if style >= 2 and "sig" not in t:
        d["secretKey"] = "0x%064x" % t["key"]
        if style == 3:
            d.update(v=None, r=None, s=None)
        if t.get("protected") is False:
            d["protected"] = False
    else:
        d.update(v=hex(v), r=hex(r), s=hex(s))
        if tx.kind and style == 1:
            d["y_parity"] = d["v"]
    return d


def jwd(w, style=0):
    return {"index": hex(w[0]), "validatorIndex": hex(w[1]), "address": h(w[2]), "amount": hex(w[3])}


# ------------------------------------------------------------------ the model
def model(F, env, acc, sto, txs, reward, state_test):
    """What executing the block gives.  env: plain values.  txs: [tx dict]."""
    st = evm.State({a: v for a, v in acc.items()}, sto)
    if F == DAO:
        D = __import__("ethereum.dao_fork.dao", fromlist=["x"])
        rec = bytes(D.DAO_RECOVERY)
        for a in D.DAO_ACCOUNTS:
            a = bytes(a)
            b = st.get(a)[1]
            st.setbal(a, 0)
            st.setbal(rec, st.get(rec)[1] + b)
    bl = evm.Block(coinbase=COIN, number=env["number"], time=env["time"], gas_limit=env["gas_limit"], base_fee=env.get("base_fee", 0), difficulty=env.get("difficulty", 0),
                   prev_randao=env.get("randao", bytes(32)), excess_blob_gas=env.get("excess", 0), chain_id=1, hashes=env["hashes"], beacon_root=env.get("beacon", bytes(32)))
    o = dict(rejected=[], receipts=[], logs=[], gas=0, blob=0, rcp={}, exc=False, steps=1, enc=[])
    if not state_test:
        if F >= PRAGUE:
            chain.system_call(F, st, bl, chain.HISTORY, bl.hashes[-1], False)
        if F >= CANCUN:
            chain.system_call(F, st, bl, chain.BEACON, bl.beacon_root, False)
    for i, t in enumerate(txs[:1] if state_test else txs):
        tx, sig = diff.make_tx(F, t)
        e = real.encode_signed(tx, sig)
        pre = st.copy()
        try:
            if tx.kind > evm.max_kind(F):
                raise evm.Reject("type")
            res = evm.run_tx(F, st, bl, tx, o["gas"], o["blob"])
        except evm.Reject:
            st = pre
            o["rejected"].append(i)
            continue
        o["gas"] += res["gas_used"]
        o["blob"] += res["blob_gas"]
        o["logs"] += res["logs"]
        o["steps"] += res["steps"] + 1
        root = st.root() if F < BYZANTIUM else None
        r = evm.receipt_rlp(F, tx.kind, res, o["gas"], root)
        o["rcp"][i] = r
        o["enc"].append(e)
        o["receipts"].append({"transactionHash": h(prim.keccak(e)), **({"succeeded": res["ok"]} if F >= BYZANTIUM else {"post_state": h(root)}),
                              "gasUsed": hex(o["gas"]), "bloom": h(prim.bloom(res["logs"]))})
    if not state_test:
        if F < PARIS and reward != -1:
            R = chain.reward(F) if reward is None else reward
            om = env.get("ommers", [])
            for a, v in [(COIN, R + len(om) * (R // 32))] + [(a, R * (8 - d) // 8) for d, a in om]:
                st.setbal(a, st.get(a)[1] + v)
                # creating ether at an account that stays empty removes it where empty accounts are removed
        if F >= SHANGHAI:
            for w in env.get("wds", []):
                st.setbal(w[2], st.get(w[2])[1] + w[3] * 10**9)
                if st.empty(w[2]):
                    st.destroy(w[2])
        if F >= PRAGUE:
            try:
                reqs = []
                dep = b"".join(chain.deposit_data(d) for a, t, d in o["logs"] if a == chain.DEPOSIT and t and chain.tb(t[0]) == chain.DEPTOPIC)
                if dep:
                    reqs.append(b"\x00" + dep)
                for k, target in ((1, chain.WREQ), (2, chain.CREQ)):
                    r = chain.system_call(F, st, bl, target, b"", True)
                    if r:
                        reqs.append(bytes([k]) + r)
                o["requests"] = reqs
            except evm.Reject:
                o["exc"] = True
    o["st"] = st
    return o


def idx(d):
    return prim.mpt_root({prim.rlp(i): x for i, x in d.items()})


def want_result(F, env, o, state_test):
    import hashlib
    w = {"stateRoot": h(o["st"].root()), "logsHash": h(prim.keccak(prim.rlp(evm.encode_logs(o["logs"])))), "logsBloom": h(prim.bloom(o["logs"])), "gasUsed": hex(o["gas"]),
         "currentDifficulty": hex(env["difficulty"]) if F < PARIS and env.get("difficulty") else None,
         "currentBaseFee": hex(env["base_fee"]) if F >= LONDON and env.get("base_fee") else None, "receipts": o["receipts"]}
    if not o["rejected"]:
        w["txRoot"] = idx(dict(enumerate(o["enc"])))
        w["receiptsRoot"] = idx(o["rcp"])
        w["txRoot"], w["receiptsRoot"] = h(w["txRoot"]), h(w["receiptsRoot"])
    if F >= SHANGHAI:
        w["withdrawalsRoot"] = h(idx({i: prim.rlp(list(x)) for i, x in enumerate([] if state_test else env.get("wds", []))}))
    if F >= CANCUN:
        w["currentExcessBlobGas"] = hex(env.get("excess", 0))
        w["blobGasUsed"] = hex(o["blob"])
    if F >= PRAGUE and not o["exc"]:
        reqs = o.get("requests", [])
        w["requestsHash"] = "0x" + hashlib.sha256(b"".join(hashlib.sha256(r).digest() for r in reqs)).hexdigest()
        w["requests"] = [h(r) for r in reqs]
    return w


def read_alloc(j):
    acc, sto = {}, {}
    for a, d in j.items():
        a = bytes.fromhex(a[2:])
        acc[a] = (int(d.get("nonce", "0x0"), 16), int(d.get("balance", "0x0"), 16), bytes.fromhex(d.get("code", "0x")[2:]))
        s = {int(k, 16): int(v, 16) for k, v in d.get("storage", {}).items()}
        if 0 in s.values():
            raise Mismatch("zero slot in the output allocation")
        if s:
            sto[a] = s
    return acc, sto


def diffs(want, got, what):
    for k, v in want.items():
        if got.get(k) != v:
            raise Mismatch(f"{what}: {k} is {got.get(k)}, executing the block gives {v}")


def world(F):
    acc = {a: v for a, v in WORLD.items()}
    if F >= PRAGUE:
        acc.update(SYSACC)
    return acc


def base_env(F):
    e = dict(number=1000 if F < BYZANTIUM else 20_000_000, time=1_700_000_000, gas_limit=30_000_000, hashes=[bytes([i % 255 + 1]) * 32 for i in range(256)])
    if F < PARIS:
        e["difficulty"] = 0x20000
    if F >= LONDON:
        e["base_fee"] = 7
    if F >= PARIS:
        e["randao"] = bytes(range(1, 33))
    if F >= SHANGHAI:
        e["wds"] = []
    if F >= CANCUN:
        e["excess"], e["beacon"] = 0, ROOT0
    return e


def jenv(F, e, style=0, drop=(), extra=None):
    n = (lambda x: hex(x)) if style == 0 else (lambda x: str(x)) if style == 1 else (lambda x: x)
    d = {"currentCoinbase": h(COIN), "currentGasLimit": n(e["gas_limit"]), "currentNumber": n(e["number"]), "currentTimestamp": n(e["time"])}
    hs = e["hashes"]
    first = e["number"] - len(hs)
    d["blockHashes"] = {(hex(first + i) if style == 0 else "0x%08x" % (first + i) if style == 1 else "%x" % (first + i)): h(x) for i, x in enumerate(hs) if x is not None}
    if F < PARIS:
        d["currentDifficulty"] = n(e["difficulty"])
    if F >= LONDON:
        d["currentBaseFee"] = n(e["base_fee"])
    if F >= PARIS:
        d["currentRandom"] = h(e["randao"]) if style != 2 else hex(int.from_bytes(e["randao"], "big"))
    if F >= SHANGHAI:
        d["withdrawals"] = [jwd(w) for w in e["wds"]]
    if F >= CANCUN:
        d["currentExcessBlobGas"] = n(e["excess"])
        d["parentBeaconBlockRoot"] = h(e["beacon"])
    if F >= PRAGUE and hs:
        d["parentHash"] = h(e["parent"] if "parent" in e else hs[-1])
    if e.get("ommers") is not None:
        d["ommers"] = [{"delta": n(x) if style else x, "address": h(a)} for x, a in e["ommers"]]
    for k in drop:
        d.pop(k, None)
    d.update(extra or {})
    return d


class C(Check):
    pid = "C26"
    rule = ("transition tool, every fork: every sequence of up to L transactions over the fork's alphabet (valid of every type, failing, creating, and six kinds of invalid ones) in "
            "five input notations (signed JSON, JSON to be signed, with and without type, RLP list); derived and explicit environments (difficulty, base fee, excess blob gas, "
            "random value, block hash keys, ommers, withdrawals, requests); reward options; state-test mode; every split of the inputs between the standard input and files, output to streams and files; fork labels around their switch block; "
            "block builder: every subset of optional header fields x transactions x ommers x withdrawals, decoded back; state-test runner; daemon.  Oracle: the block model of "
            "ref/chain.  State: distinct (state, gas, rejected set)")
    bounds = {"quick": "L = 2, one notation per pair", "thorough": "L = 2 in every notation, L = 3 in one"}
    assumptions = ["the tools sign for and read JSON transactions of chain id 1 (documented in the source)",
                   "transaction and receipt roots are compared when nothing was rejected: the tool keys them by position in the input list",
                   "the DAO label applies the irregular change whenever it is used (as a label for the fork block)"]

    def setup(self):
        self.dir = tempfile.mkdtemp(prefix="c26-")

    def cases(self, tier):
        th = tier == "thorough"
        for F in ALL:
            names = self.alphabet(F)
            yield ("txs", F, (), 0)
            for a in names:
                for st in range(5):
                    yield ("txs", F, (a,), st)
            rot = 0
            for a, b in itertools.product(names, repeat=2):
                for st in range(5) if th else (rot % 5,):
                    yield ("txs", F, (a, b), st)
                rot += 1
            if th:
                few = [n for n in names if n in ("sto", "new", "sd", "fail", "log", "t1", "t2", "t3", "t4", "nonce+", "poor", "big", "type+", "badsig")]
                for abc in itertools.product(few, repeat=3):
                    yield ("txs", F, abc, rot % 5)
                    rot += 1
            for a in names:
                yield ("statetest", F, a)
            for k in range(6):
                yield ("prot", F, k)
            for rw in (None, -1, 0, 1, 31, 32, 33, 10**18, 2 * 10**18 + 5):
                for om in ((), (1,), (7,), (1, 2), (6, 1), (3, 3)):
                    if F < PARIS or (rw in (None, 5) and not om):
                        yield ("reward", F, rw, om)
            for style in range(3):
                for al in range(3):
                    yield ("style", F, style, al)
            for k in (0, 1, 2, 255, 256):
                yield ("hashes", F, k)
            for num in (0, 1, 4, 5, 6, 255, 256, 257):
                yield ("number", F, num)
            for outs in itertools.product((0, 1), repeat=3):
                yield ("out", F, outs)
            if F < PARIS:
                for dt in (1, 8, 9, 10, 13, 17, 18, 20, 100, 10000):
                    for pd in (131072, 2**40 + 12345):
                        for om in (None, True, False):
                            for num in (4, 1_000_000, 15_000_000):
                                if F >= BYZANTIUM or om is None:
                                    yield ("diff", F, dt, pd, om, num)
            if F >= LONDON:
                for pl, pu in itertools.product((30_000_000, 30_000_001, 29_990_000), (0, 1, 14_999_999, 15_000_000, 15_000_001, 30_000_000)):
                    for pb in (7, 8, 9, 100, 10**9 + 7):
                        if pu <= pl:
                            yield ("bfee", F, pl, pu, pb)
            if F >= PARIS:
                for r in ("0x0", "0x1", "0x123", "123", "0x" + "f" * 63, "0x" + "f" * 64, "0x00", "abc"):
                    yield ("rand", F, r)
            if F >= CANCUN:
                G = 131072
                t = (6 if F >= PRAGUE else 3) * G
                vals = sorted({0, G, t - G, t, t + G, 2 * t, 100 * G, 500 * G, t - 1, t + 1})
                for ex, us in itertools.product(vals, (None, 0, G, t - G, t, t + G, 9 * G)):
                    edge = 16 * chain.blob_price(F, ex)     # where the reserve price starts to matter
                    for pb in (7, 10**9, 10**12, edge - 1, edge, edge + 1) if F >= OSAKA else (7,):
                        yield ("blob", F, ex, us, pb)
                yield ("blob", F, None, None, 7)
            if F >= SHANGHAI:
                al = list(range(5))
                for L in (1, 2):
                    for ws in itertools.product(al, repeat=L):
                        yield ("wd", F, ws)
            if F >= PRAGUE:
                for k in range(10):
                    yield ("req", F, k)
                yield ("phash", F, 0)
                yield ("phash", F, 1)
            yield ("names", F)
        for nm in MIXED:
            for num in (0, 1, 4, 5, 6, 10):
                yield ("mixed", nm, num)
        yield ("unsup",)
        for ntx in range(4):
            for nom in range(3):
                for nwd in (None, 0, 1, 2):
                    for mask in range(16):
                        yield ("b11r", ntx, nom, nwd, mask)
        for F in ALL:
            yield ("stool", F)
        yield ("daemon",)

    def alphabet(self, F):
        return list(kinds(F)) + list(bad(F)) + ["type+", "badsig", "malformed"]

    def spec(self, F, n):
        k, b = kinds(F), bad(F)
        if n == "type+":
            kd = evm.max_kind(F) + 1
            if kd > 4:
                return dict(to=NOBODY, dn=3)
            d = dict(to=NOBODY, kind=kd, dn=0)
            if kd == 3:
                d.update(blobs=(H0,), max_blob_fee=1000)
            return d
        if n == "badsig":
            return dict(to=NOBODY, value=1, nosig=True)
        if n == "malformed":
            return dict(to=NOBODY, value=1, malformed=True)
        return dict(k.get(n) or b[n])

    def txlist(self, F, names):
        """Model transactions with right nonces for those that are accepted; and their marks."""
        specs, marks = [], []
        ok = lambda n: n in kinds(F)
        out, nn = [], {}
        for n in names:
            s = self.spec(F, n)
            m = (s.pop("nosig", False), s.pop("malformed", False))
            ts, nn2 = mk(F, [s], nn)
            t = ts[0]
            if m[0]:
                tx, sig = diff.make_tx(F, t)
                t = {k: v for k, v in t.items() if k != "key"}
                t.update(sig=(sig[0], 0, sig[2]), sender=None)
            out.append(t)
            marks.append(m[1])
            if ok(n):
                nn = nn2
        return out, marks

    def notation(self, F, ts, marks, style):
        if style < 4:
            js = [jtx(F, t, style) for t in ts]
            for j, m in zip(js, marks):
                if m:
                    del j["gas"]
            return js
        items = []
        for t, m in zip(ts, marks):
            tx, sig = diff.make_tx(F, t)
            e = real.encode_signed(tx, sig)
            if m:
                e = prim.rlp([1, 2, 3]) if tx.kind == 0 else e[:-1]
            items.append(chain.Raw(e) if e[0] >= 0xC0 else e)
        return h(chain.rlp_raw(items))

    # -------------------------------------------------------------- running
    def t8n(self, name, env, alloc, txs, args=(), files=0):
        d = tempfile.mkdtemp(dir=self.dir)
        old = trace._evm_trace
        try:
            a = ["t8n", "--state.fork", name, "--output.basedir", d]
            # files: bit mask of the inputs that come from files; the others come from the standard input
            rest = {}
            for i, (k, v) in enumerate((("alloc", alloc), ("env", env), ("txs", txs))):
                if int(files) >> i & 1:
                    p = os.path.join(d, "in-" + k)
                    with open(p, "w") as f:
                        json.dump(v, f)
                    a += ["--input." + k, p]
                else:
                    a += ["--input." + k, "stdin"]
                    rest[k] = v
            sin = io.StringIO(json.dumps(rest) if rest else "")
            if not any(x.startswith("--output.result") for x in args):
                a += ["--output.result=stdout", "--output.alloc=stdout", "--output.body=stdout"]
            opts = parser().parse_args(a + list(args))
            out = io.StringIO()
            rc = T8N(opts, out, sin).run()
            if rc != 0:
                raise Mismatch(f"t8n returned {rc}")
            res = json.loads(out.getvalue()) if out.getvalue() else {}
            for k in os.listdir(d):
                if not k.startswith("in-"):
                    with open(os.path.join(d, k)) as f:
                        res["file:" + k] = json.load(f) if k.endswith(".json") else f.read()
            return res
        finally:
            trace.set_evm_trace(old)
            shutil.rmtree(d, ignore_errors=True)

    def compare(self, F, env, o, res, nofail=None, state_test=False, body=None):
        r = res["result"]
        w = want_result(F, env, o, state_test)
        if nofail:
            w.pop("txRoot", None)
        diffs(w, r, NAMES[F])
        if sorted(x["index"] for x in r["rejected"]) != o["rejected"]:
            raise Mismatch(f"rejected {r['rejected']}, executing rejects {o['rejected']}")
        if ("blockException" in r) != o["exc"]:
            raise Mismatch(f"block exception {r.get('blockException')}, model {o['exc']}")
        if not o["exc"]:
            acc, sto = read_alloc(res["alloc"])
            for nm, x, y in (("accounts", o["st"].acc, acc), ("storage", o["st"].sto, sto)):
                if x != y:
                    k = [a.hex() for a in set(x) | set(y) if x.get(a) != y.get(a)]
                    raise Mismatch(f"post state {nm} differ at {k[:4]}")
        if body is not None and res["body"] != body:
            raise Mismatch(f"body {res['body'][:200]} is not the encoding of the transactions")
        unknown = set(r) - {"stateRoot", "txRoot", "receiptsRoot", "withdrawalsRoot", "logsHash", "logsBloom", "gasUsed", "currentDifficulty", "currentBaseFee", "currentExcessBlobGas",
                            "blobGasUsed", "rejected", "receipts", "requestsHash", "requests", "blockException"}
        if unknown & {"error"}:
            raise Mismatch(f"unexpected result fields {unknown}")
        return [diff.digest((F, diff.canon(o["st"]), o["gas"], tuple(o["rejected"]), o["exc"]))], o["steps"]

    def body(self, F, ts):
        items = []
        for t in ts:
            tx, sig = diff.make_tx(F, t)
            e = real.encode_signed(tx, sig)
            items.append(chain.Raw(e) if tx.kind == 0 else e)
        return h(chain.rlp_raw(items))

    def run(self, d):
        out = getattr(self, "r_" + d[0])(*d[1:])
        if len(out) == 2:
            return Result(out[0], out[1], 1)
        return Result(*out)

    def go(self, F, env, acc, sto, ts, marks=None, style=0, name=None, reward=None, state_test=False, je=None, al=None, args=(), files=0, rejected_body=True):
        marks = marks or [False] * len(ts)
        o = model(F, env, acc, sto, [({**t, "gas": -1} if False else t) for t in ts], reward, state_test)
        args = list(args)
        if reward is not None:
            args.append(f"--state.reward={reward}")
        if state_test:
            args.append("--state-test")
        res = self.t8n(name or label(F), je if je is not None else jenv(F, env), al if al is not None else jalloc(acc, sto), self.notation(F, ts, marks, style), args, files)
        body = self.body(F, ts) if not o["rejected"] else None
        return self.compare(F, env, o, res, state_test=state_test, body=body)

    # ------------------------------------------------------------- families
    def r_txs(self, F, names, style):
        ts, marks = self.txlist(F, names)
        env, acc = base_env(F), world(F)
        mt = [dict(t, gas=1) if m else t for t, m in zip(ts, marks)]   # malformed entries are rejected whatever they say
        o = model(F, env, acc, {}, mt, None, False)
        res = self.t8n(label(F), jenv(F, env), jalloc(acc, {}), self.notation(F, ts, marks, style))
        return self.compare(F, env, o, res, body=self.body(F, ts) if not o["rejected"] else None)

    def r_statetest(self, F, name):
        ts, marks = self.txlist(F, (name,))
        env, acc = base_env(F), world(F)
        if F >= CANCUN:
            env["beacon"] = ROOT0
        mt = [dict(t, gas=1) if m else t for t, m in zip(ts, marks)]
        o = model(F, env, acc, {}, mt, None, True)
        res = self.t8n(label(F), jenv(F, env, drop=("parentBeaconBlockRoot", "parentHash")), jalloc(acc, {}), self.notation(F, ts, marks, 0), ["--state-test"])
        return self.compare(F, env, o, res, state_test=True)

    def r_prot(self, F, k):
        """Signing by the tool: replay protection on or off, and mixtures."""
        digs, n = [], 0
        for p1, p2 in itertools.product((None, True, False), repeat=2):
            if (p1 is True or p2 is True) and F < SPURIOUS:
                continue
            ts, _ = mk(F, [dict(to=STO, value=1), dict(to=LOG, data=b"\x01")])
            for t, p in zip(ts, (p1, p2)):
                if p is not None:
                    t["protected"] = p
            ts[1]["key"] = K1
            env, acc = base_env(F), world(F)
            a, b = self.go(F, env, acc, {}, ts, style=(2, 3, 0, 1, 4, 2)[k])
            digs += a
            n += b
        return digs, n

    def r_reward(self, F, rw, om):
        env, acc = base_env(F), world(F)
        who = [NOBODY, A(77), COIN]
        env["ommers"] = [(dl, who[i % 3]) for i, dl in enumerate(om)]
        ts, _ = mk(F, [dict(to=STO, value=1), dict(to=LOG, data=b"\x01")])
        a1 = self.go(F, env, acc, {}, ts, reward=rw)
        if om:
            env["ommers"] = [(dl, COIN) for dl in om]
        a2 = self.go(F, env, acc, {}, [], reward=rw, je=jenv(F, env, style=2) if F < PRAGUE else None)
        return a1[0] + a2[0], a1[1] + a2[1]

    def r_style(self, F, style, al):
        env, acc = base_env(F), world(F)
        sto = {STO: {0: 9, 5: 2**256 - 1, 2**256 - 1: 1}, LOG: {1: 1}}
        acc[A(50)] = (2**64 - 2, 10**18 + 1, b"")
        acc[A(51)] = (0, 1, b"\xef\x01\x00" + A(1))
        acc[A(52)] = (0, 0, b"\x60")
        if F < PARIS:
            acc[A(53)] = (0, 0, b"")
        ts, _ = mk(F, [dict(to=STO, value=1), dict(to=LOG, data=b"\x01"), dict(to=BH, key=K2)])
        got = [self.go(F, env, acc, sto, ts, je=jenv(F, env, style), al=jalloc(acc, sto, al), files=files) for files in range(8)]
        return sum((g[0] for g in got), []), sum(g[1] for g in got)

    def r_hashes(self, F, k):
        env, acc = base_env(F), world(F)
        acc[BH] = (1, 0, b"".join(asm(off, "NUMBER", "SUB", "BLOCKHASH", i, "SSTORE") for i, off in enumerate([0, 257, 258, 2**64] + [o for o in (1, 2, 3, 254, 255, 256) if o <= k])))
        env["hashes"] = [None] * (256 - k) + [bytes([i % 255 + 1]) * 32 for i in range(k)]
        if F >= PRAGUE and not k:
            env["hashes"][-1] = b"\x44" * 32
        ts, _ = mk(F, [dict(to=BH, key=K2, gas=600_000)])
        je = jenv(F, env, style=k % 3)
        # hashes outside the window are ignored
        je["blockHashes"][hex(env["number"])] = "0x" + "99" * 32
        je["blockHashes"][hex(env["number"] - 257)] = "0x" + "98" * 32
        if k == 0 and F < PRAGUE:
            del je["blockHashes"]
        return self.go(F, env, acc, {}, ts, je=je)

    def r_number(self, F, num):
        env, acc = base_env(F), world(F)
        if F >= PRAGUE and num == 0:
            return [], 1, 0
        env["number"] = num
        env["hashes"] = env["hashes"][:min(num, 256)]
        acc[BH] = (1, 0, b"".join(asm(i, "BLOCKHASH", i, "SSTORE") for i in (0, 1, 3, 4, 5, 6, 255, 256, 257)))
        ts, _ = mk(F, [dict(to=BH, key=K2, gas=600_000), dict(to=STO)])
        return self.go(F, env, acc, {}, ts)

    def r_out(self, F, outs):
        env, acc = base_env(F), world(F)
        ts, _ = mk(F, [dict(to=STO, value=1), dict(to=NOBODY, dn=9)])
        ts = ts[:1]
        o = model(F, env, acc, {}, ts, None, False)
        args = [f"--output.{k}=" + ("stdout" if s else k + ".json") for k, s in zip(("result", "alloc", "body"), outs)]
        res = self.t8n(label(F), jenv(F, env), jalloc(acc, {}), self.notation(F, ts, [False], 0), args, files=7 if outs[0] == 1 else 0)
        for k, s in zip(("result", "alloc", "body"), outs):
            if not s:
                if k in res:
                    raise Mismatch(f"{k} was asked for in a file but is in the stream")
                res[k] = res.get("file:" + k + ".json")
            elif "file:" + k + ".json" in res:
                raise Mismatch(f"{k} was asked for in the stream but is in a file")
        return self.compare(F, env, o, res, body=self.body(F, ts))

    def seer(self):
        return asm(b"\x44", 1, "SSTORE", "NUMBER", 2, "SSTORE", "TIMESTAMP", 3, "SSTORE", "GASLIMIT", 4, "SSTORE", "COINBASE", 5, "SSTORE")

    def r_diff(self, F, dt, pd, om, num):
        env, acc = base_env(F), world(F)
        env["number"] = num
        env["hashes"] = [b"\x01" * 32] * min(num, 256)
        env["difficulty"] = chain.difficulty(F, num, env["time"], env["time"] - dt, pd, bool(om))
        acc[A(40)] = (1, 0, self.seer())
        ts, _ = mk(F, [dict(to=A(40))])
        ex = {"parentTimestamp": hex(env["time"] - dt), "parentDifficulty": str(pd)}
        if om is not None:
            ex["parentUncleHash"] = h(b"\x12" * 32 if om else chain.NO_OMMERS)
        return self.go(F, env, acc, {}, ts, je=jenv(F, env, drop=("currentDifficulty",), extra=ex))

    def r_bfee(self, F, pl, pu, pb):
        env, acc = base_env(F), world(F)
        env["base_fee"] = chain.base_fee(pl, pu, pb)
        ts, _ = mk(F, [dict(to=NOBODY, value=1, p=max(10**10, 2 * pb))])
        ex = {"parentGasUsed": hex(pu), "parentGasLimit": str(pl), "parentBaseFee": hex(pb)}
        a = self.go(F, env, acc, {}, ts, je=jenv(F, env, drop=("currentBaseFee",), extra=ex))
        # the explicit value wins over the parent's
        e2 = dict(env, base_fee=11)
        b = self.go(F, e2, acc, {}, ts, je=jenv(F, e2, extra=ex))
        return a[0] + b[0], a[1] + b[1]

    def r_rand(self, F, r):
        env, acc = base_env(F), world(F)
        env["randao"] = int(r, 16).to_bytes(32, "big")
        acc[A(40)] = (1, 0, self.seer())
        ts, _ = mk(F, [dict(to=A(40))])
        return self.go(F, env, acc, {}, ts, je=jenv(F, env, extra={"currentRandom": r}))

    def r_blob(self, F, ex, us, pb):
        env, acc = base_env(F), world(F)
        p = dict(excess_blob_gas=ex or 0, blob_gas_used=us or 0, base_fee=pb)
        env["excess"] = chain.excess_blob(F, p)
        extra = {"parentBaseFee": hex(pb), "parentGasUsed": "0x0", "parentGasLimit": "0x1c9c380"}
        if ex is not None:
            extra["parentExcessBlobGas"] = hex(ex)
        if us is not None:
            extra["parentBlobGasUsed"] = str(us)
        ts, _ = mk(F, [dict(to=STO, kind=3, blobs=(H0,) * 2, max_blob_fee=10**9), dict(to=STO)])
        a = self.go(F, env, acc, {}, ts, je=jenv(F, env, drop=("currentExcessBlobGas",), extra=extra))
        e2 = dict(env, excess=131072 * 5)
        b = self.go(F, e2, acc, {}, ts, je=jenv(F, e2, extra=extra))
        return a[0] + b[0], a[1] + b[1]

    def r_wd(self, F, ws):
        al = [(0, 3, NOBODY, 1), (7, 2**64 - 1, S1, 32 * 10**9), (2**64 - 1, 0, A(60), 0), (1, 1, COIN, 2**64 - 1), (5, 6, STO, 9)]
        env, acc = base_env(F), world(F)
        env["wds"] = [al[i] for i in ws]
        ts, _ = mk(F, [dict(to=STO, value=1)])
        return self.go(F, env, acc, {}, ts)

    def r_req(self, F, k):
        import c19
        env, acc = base_env(F), world(F)
        acc[chain.DEPOSIT] = (1, 0, c19.DEP)
        specs = []
        put = lambda a, c: acc.__setitem__(a, (1, 5, c19.CODES[c]))
        if k == 1:
            put(chain.WREQ, "ret76")
        elif k == 2:
            put(chain.CREQ, "ret33")
        elif k == 3:
            put(chain.WREQ, "ret76"), put(chain.CREQ, "ret1000")
            specs = [dict(to=chain.DEPOSIT, data=b"\x00" + c19.deposit(3), gas=400_000), dict(to=chain.DEPOSIT, data=b"\x00" + c19.deposit(8), gas=400_000)]
        elif k == 4:
            specs = [dict(to=chain.DEPOSIT, data=b"\x00" + c19.deposit(3)[:-1], gas=400_000)]
        elif k == 5:
            acc.pop(chain.WREQ)
        elif k == 6:
            put(chain.CREQ, "revert")
        elif k == 7:
            put(chain.BEACON, "c4788"), put(chain.HISTORY, "c2935")
        elif k == 8:
            put(chain.BEACON, "env"), put(chain.HISTORY, "env")
        elif k == 9:
            put(chain.BEACON, "env"), put(chain.HISTORY, "env"), put(chain.WREQ, "env"), put(chain.CREQ, "env")
        ts, _ = mk(F, specs + [dict(to=STO)])
        return self.go(F, env, acc, {}, ts)

    def r_phash(self, F, k):
        """Only the parent hash is given, not the table of earlier hashes."""
        import c19
        env, acc = base_env(F), world(F)
        env["hashes"] = [None] * 255 + [b"\x5a" * 32]
        acc[chain.HISTORY] = (1, 5, c19.CODES["env" if k else "c2935"])
        je = jenv(F, env)
        if k:
            acc[chain.HISTORY] = (1, 5, asm(0, "CALLDATALOAD", 0, "SSTORE", "CALLDATASIZE", 1, "SSTORE"))
            del je["blockHashes"]
        ts, _ = mk(F, [dict(to=STO)])
        return self.go(F, env, acc, {}, ts, je=je)

    def r_names(self, F):
        digs, n = [], 0
        nm = [ALIAS[F]] if F in ALIAS else []
        if F in ALIAS:
            nm.append("".join(x.title() for x in NAMES[F].split("_")))
        for x in nm:
            env, acc = base_env(F), world(F)
            ts, _ = mk(F, [dict(to=STO, value=1), dict(to=b"", data=b"\x00", key=K2)])
            a, b = self.go(F, env, acc, {}, ts, name=x)
            digs += a
            n += b
        return digs, n

    def r_mixed(self, nm, num):
        F = MIXED[nm][num >= 5]
        env = base_env(F)
        env["number"], env["hashes"] = num, [b"\x05" * 32] * num
        acc = world(F)
        D = __import__("ethereum.dao_fork.dao", fromlist=["x"])
        acc[bytes(D.DAO_ACCOUNTS[0])] = (0, 5, b"")
        # gas-schedule and rule differences: repricing, delegate call, revert, chain id, base fee
        acc[A(40)] = (1, 10, self.seer() + asm(0, 0, 0, 0, 0, push(NOBODY), 5000, "CALL", 7, "SSTORE", 9, 0, "SSTORE", 0, 0, "SSTORE", push(NOBODY), "BALANCE", 8, "SSTORE", 0, 0, 0, 0, push(LOG), 50000, "DELEGATECALL", "POP"))
        acc[A(41)] = (1, 0, asm(1, 1, "SHL", 0, "SSTORE"))
        acc[A(42)] = (1, 0, asm("CHAINID", 0, "SSTORE"))
        acc[A(43)] = (1, 0, asm("BASEFEE", 0, "SSTORE"))
        acc[A(44)] = (1, 0, asm(0, 0, "REVERT"))
        ts, _ = mk(F, [dict(to=A(i), gas=300_000) for i in (40, 41, 42, 43, 44)] + [dict(to=b"", data=b"\x60\x00\x56", gas=54_000, key=K2)])
        return self.go(F, env, acc, {}, ts, name=nm)

    def r_unsup(self):
        F = LONDON
        for nm in ("Constantinople", "constantinople", "Nowhere", "london", "Dao", ""):
            try:
                self.t8n(nm, jenv(F, base_env(F)), jalloc(world(F), {}), [])
            except SystemExit:
                continue
            raise Mismatch(f"fork label {nm!r} was accepted")
        return [], 6

    # --------------------------------------------------------- block builder
    def r_b11r(self, ntx, nom, nwd, mask):
        """mask bits: 0 base fee given, 1 withdrawals root given, 2 defaults left out, 3 notation."""
        digs = []
        F = SHANGHAI
        ts, _ = mk(F, [dict(to=STO), dict(to=LOG, kind=1, access=((STO, (1,)),)), dict(to=NOBODY, kind=2)][:ntx])
        enc = []
        for t in ts:
            tx, sig = diff.make_tx(F, t)
            e = real.encode_signed(tx, sig)
            enc.append(chain.Raw(e) if tx.kind == 0 else e)
        n = (lambda x: str(x)) if mask & 8 else (lambda x: hex(x))
        # distinct values in every field
        V = {k: bytes([0x10 + i]) * 32 for i, k in enumerate(("parentHash", "ommersHash", "stateRoot", "transactionsRoot", "receiptsRoot", "mixHash", "withdrawalsRoot"))}
        W = dict(V, miner=b"\x77" * 20, logsBloom=bytes(range(256)), difficulty=131073, number=[0, 1, 15_000_000, 2**64][nom % 4], gasLimit=30_000_001, gasUsed=21_000 * ntx,
                 timestamp=[1, 2**63, 2**64 + 1][nom % 3], extraData=[b"", b"\x00", b"vf" * 16][nom % 3], nonce=b"\x01\x02\x03\x04\x05\x06\x07\x08", baseFeePerGas=[0, 7, 10**20][nom % 3])
        hd = {k: (h(v) if isinstance(v, bytes) else n(v)) for k, v in W.items()}
        if not mask & 1:
            hd.pop("baseFeePerGas")
        if not mask & 2:
            hd.pop("withdrawalsRoot")
        sub = []
        for i in range(nom):
            sub.append([bytes([0x40 + i]) * 32, bytes([0x50 + i]) * 32, b"\x33" * 20, b"\x01" * 32, b"\x02" * 32, b"\x03" * 32, bytes(256), 5 + i, 9, 10, 11, 12, b"x", bytes(32), bytes(8)])
        omm = [h(prim.rlp([x, [], []])) for x in sub]
        if mask & 4:
            for k in ("ommersHash", "miner", "transactionsRoot", "receiptsRoot", "difficulty", "extraData", "nonce"):
                hd.pop(k)
            W.update(ommersHash=prim.keccak(prim.rlp(sub)), miner=bytes(20), transactionsRoot=prim.EMPTY_ROOT, receiptsRoot=prim.EMPTY_ROOT, difficulty=0, extraData=b"", nonce=bytes(8))
        order = ["parentHash", "ommersHash", "miner", "stateRoot", "transactionsRoot", "receiptsRoot", "logsBloom", "difficulty", "number", "gasLimit", "gasUsed", "timestamp", "extraData",
                 "mixHash", "nonce"]
        hl = [W[k] for k in order]
        if mask & 1:
            hl.append(W["baseFeePerGas"])
        elif mask & 2:
            hl.append(0)
        if mask & 2:
            hl.append(W["withdrawalsRoot"])
        wl = [(1, 2, b"\x09" * 20, 10**9), (2**64 - 1, 0, NOBODY, 0)][:nwd or 0]
        items = [hl, enc, sub]
        if nwd is not None:
            items.append([list(w) for w in wl])
        want = {"rlp": h(chain.rlp_raw(items)), "hash": h(prim.keccak(prim.rlp(hl)))}
        txs = "" if not ntx and mask & 4 else h(chain.rlp_raw(enc))
        jw = [{"index": n(w[0]), "validatorIndex": n(w[1]), "address": h(w[2]), "amount": n(w[3])} for w in wl]
        for mode in range(3):
            d = tempfile.mkdtemp(dir=self.dir)
            try:
                P = lambda k: os.path.join(d, k)
                sin = {"header": hd, "txs": txs, "ommers" if mode == 0 else "uncles": omm, "withdrawals": jw}
                if nwd == 0 and mode == 1:
                    del sin["withdrawals"]
                a = ["b11r", "--input.header", "stdin", "--input.ommers", "stdin", "--input.txs", "stdin"]
                if nwd is not None:
                    a += ["--input.withdrawals", "stdin"]
                if mode == 2:
                    for k in ("header", "txs", "uncles", "withdrawals"):
                        with open(P(k), "w") as f:
                            json.dump(sin[k], f)
                    a = ["b11r", "--input.header", P("header"), "--input.ommers", P("uncles"), "--input.txs", P("txs")] + (["--input.withdrawals", P("withdrawals")] if nwd is not None else [])
                a += ["--output.block", "stdout" if mode != 2 else P("o.json")]
                out = io.StringIO()
                rc = B11R(parser().parse_args(a), out, io.StringIO(json.dumps(sin))).run()
                got = json.loads(out.getvalue() if mode != 2 else open(P("o.json")).read())
                if rc or got != want:
                    raise Mismatch(f"block builder (mode {mode}): {[k for k in want if got.get(k) != want[k]]} differ\n got  {got.get('rlp', '')[:600]}\n want {want['rlp'][:600]}")
                if mode == 2 and mask == 3:
                    # every way to split the inputs between the standard input and files, output below a directory or not
                    names = ("header", "uncles", "txs", "withdrawals")[:4 if nwd is not None else 3]
                    for pick in itertools.product((0, 1), repeat=len(names)):
                        for base in (0, 1):
                            os.makedirs(P("below"), exist_ok=True)
                            a = ["b11r", "--output.block", "o2.json" if base else P("o2.json")] + (["--output.basedir", P("below")] if base else [])
                            for k, files in zip(names, pick):
                                a += ["--input." + {"uncles": "ommers"}.get(k, k), P(k) if files else "stdin"]
                            cwd = os.getcwd()
                            os.chdir(d)
                            try:
                                rc = B11R(parser().parse_args(a), io.StringIO(), io.StringIO(json.dumps({k: sin[k] for k, files in zip(names, pick) if not files}))).run()
                            finally:
                                os.chdir(cwd)
                            o2 = os.path.join(P("below") if base else d, "o2.json")
                            if rc or not os.path.exists(o2) or json.loads(open(o2).read()) != want:
                                raise Mismatch(f"block builder with inputs {dict(zip(names, pick))} (0: standard input, 1: file), output directory given: {base}: a different block")
                            os.remove(o2)
                back = codec.rlp_decode(bytes.fromhex(got["rlp"][2:]))
                if prim.rlp(back) != bytes.fromhex(want["rlp"][2:]) or prim.keccak(prim.rlp(back[0])) != bytes.fromhex(got["hash"][2:]):
                    raise Mismatch("block does not decode to its hash")
                digs.append(diff.digest((mask, ntx, nom, nwd, got["hash"])))
            finally:
                shutil.rmtree(d, ignore_errors=True)
        return digs, 3

    # ----------------------------------------------------------- other tools
    def r_stool(self, F):
        """The state-test runner on a file with all index combinations."""
        env, acc = base_env(F), world(F)
        env["hashes"] = []
        fork_label = label(F)
        gases, vals, datas = [200_000, 21_000], [0, 3], [b"", b"\x01\x00\x02"]
        posts, wants = [], []
        k = 0
        for di, gi, vi in itertools.product(range(2), repeat=3):
            t = dict(key=K1, to=LOG, data=datas[di], value=vals[vi], gas=gases[gi], kind=0, nonce=0, gas_price=5000)
            o = model(F, env, acc, {}, [t], None, True)
            root = o["st"].root()
            good = k % 3 != 2
            posts.append({"hash": h(root if good else bytes(32)), "indexes": {"data": di, "gas": gi, "value": vi}})
            wants.append({"stateRoot": h(root), "fork": fork_label, "name": "t", "pass": good})
            k += 1
        txj = {"nonce": "0x0", "gasPrice": "0x1388", "gasLimit": [hex(g) for g in gases], "to": h(LOG), "value": [hex(v) for v in vals], "data": [h(x) for x in datas], "secretKey": "0x%064x" % K1}
        je = jenv(F, env)
        for x in ("withdrawals", "blockHashes", "parentBeaconBlockRoot", "parentHash"):
            je.pop(x, None)
        je["previousHash"] = "0x" + "5e" * 32
        d = tempfile.mkdtemp(dir=self.dir)
        old, olderr = trace._evm_trace, sys.stderr
        n = 0
        try:
            p = os.path.join(d, "f.json")
            with open(p, "w") as f:
                json.dump({"t": {"env": je, "pre": jalloc(acc, {}), "transaction": txj, "post": {fork_label: posts, "NoSuchFork": posts}}}, f)
            for extra, many in (([], False), (["--json"], False), (["--json", "--nomemory", "--nostack", "--noreturndata"], False), ([], True)):
                out, err = io.StringIO(), io.StringIO()
                sys.stderr = err
                opts = parser().parse_args(["statetest"] + extra + ([] if many else [p]))
                try:
                    rc = statetest.StateTest(opts, out, io.StringIO(p + "\n")).run()
                finally:
                    sys.stderr = olderr
                    logging.getLogger("T8N").handlers.clear()
                    trace.set_evm_trace(old)
                got = json.loads(out.getvalue())
                if rc or len(got) != len(wants):
                    raise Mismatch(f"state-test runner: {rc}, {len(got)} results for {len(wants)} cases")
                for g, w in zip(got, wants):
                    diffs(w, g, "state-test runner")
                    if ("error" in g) != (not w["pass"]):
                        raise Mismatch(f"state-test runner: {g}")
                roots = [json.loads(x)["stateRoot"] for x in err.getvalue().splitlines() if x.startswith('{"stateRoot"')]
                if roots != [w["stateRoot"] for w in wants]:
                    raise Mismatch("state-test runner: roots on the error stream differ")
                n += len(got)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return [diff.digest((F, w["stateRoot"], w["pass"])) for w in wants], n, 4

    def r_daemon(self):
        """Requests over a socket give what the tool gives."""
        import http.client
        import socket
        import threading
        from ethereum_spec_tools.evm_tools import daemon
        d = tempfile.mkdtemp(dir=self.dir)
        digs = []
        n = 0
        try:
            path = os.path.join(d, "s")
            srv = daemon._UnixSocketHttpServer(path, daemon._EvmToolHandler, shutdown_timeout=0)
            srv.handle_error = lambda *a: None   # the handler closes its own stream, which the server then reports
            th = threading.Thread(target=srv.serve_forever, daemon=True)
            th.start()
            try:
                for F in (FRONTIER, BYZANTIUM, LONDON, SHANGHAI, OSAKA):
                    for rw in (-1, 0, 10**18):
                        env, acc = base_env(F), world(F)
                        ts, marks = self.txlist(F, ("sto", "nonce+", "log"))
                        o = model(F, env, acc, {}, ts, rw, False)
                        req = json.dumps({"input": {"env": jenv(F, env), "alloc": jalloc(acc, {}), "txs": self.notation(F, ts, marks, 0)},
                                          "state": {"fork": label(F), "chainid": 1, "reward": rw}, "count-opcodes": rw == 0})
                        for q in ("/", "/?arg=--state.reward%3D5"):
                            s = socket.socket(socket.AF_UNIX)
                            s.settimeout(120)
                            s.connect(path)
                            s.sendall(f"POST {q} HTTP/1.0\r\nContent-Length: {len(req)}\r\n\r\n".encode() + req.encode())
                            r = http.client.HTTPResponse(s)
                            r.begin()
                            got = json.loads(r.read())
                            s.close()
                            oo = o if q == "/" else model(F, env, acc, {}, ts, 5, False)
                            if r.status != 200 or ("opcodeCount" in got) != (rw == 0):
                                raise Mismatch(f"daemon: status {r.status}, fields {sorted(got)}")
                            digs += self.compare(F, env, oo, got)[0]
                            n += oo["steps"]
            finally:
                srv.shutdown()
                srv.server_close()
                trace.set_evm_trace(trace.discard_evm_trace)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return digs, n, 30


if __name__ == "__main__":
    raise SystemExit(main(C()))
