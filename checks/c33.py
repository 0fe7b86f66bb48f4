"""C33: the fixture, transaction and fork loaders say exactly what the JSON and the fork modules say."""
import importlib
import itertools
import pkgutil

from checkbase import *
from drv import blocks as B
from drv.diff import Mismatch, digest
from ref import chain, codec
from ref.prim import keccak, rlp

from ethereum_rlp import rlp as irlp
from ethereum.exceptions import StateWithEmptyAccount
from ethereum_spec_tools.evm_tools.loaders.fixture_loader import Load
from ethereum_spec_tools.evm_tools.loaders.fork_loader import ForkLoad
from ethereum_spec_tools.evm_tools.loaders.transaction_loader import TransactionLoad

hexb = lambda b: "0x" + bytes(b).hex()
KEYS = {"parent_hash": ["parentHash"], "ommers_hash": ["uncleHash", "sha3Uncles"], "coinbase": ["coinbase", "miner"], "state_root": ["stateRoot"],
        "transactions_root": ["transactionsTrie", "transactionsRoot"], "receipt_root": ["receiptTrie", "receiptsRoot"], "bloom": ["bloom", "logsBloom"],
        "difficulty": ["difficulty"], "number": ["number"], "gas_limit": ["gasLimit"], "gas_used": ["gasUsed"], "timestamp": ["timestamp"], "extra_data": ["extraData"],
        "mix": ["mixHash"], "nonce": ["nonce"], "base_fee": ["baseFeePerGas"], "withdrawals_root": ["withdrawalsRoot"], "blob_gas_used": ["blobGasUsed"],
        "excess_blob_gas": ["excessBlobGas"], "beacon_root": ["parentBeaconBlockRoot"], "requests_hash": ["requestsHash"]}
U64M, U256M = 2**64 - 1, 2**256 - 1
INTS = {"difficulty": [0, 1, 2**64, U256M, 2**300], "number": [0, 1, 255, 256, U64M, 2**64], "gas_limit": [0, 5000, 2**64], "gas_used": [0, 21000, 2**64], "timestamp": [0, 1, U64M, 2**64, U256M],
        "base_fee": [0, 7, 2**64, 2**256], "blob_gas_used": [0, 131072, U64M], "excess_blob_gas": [0, 1, U64M]}
SIZE = {"coinbase": 20, "bloom": 256, "nonce": 8}


def choices(k):
    if k in INTS:
        return INTS[k]
    if k == "extra_data":
        return [b"", b"\0", b"\x01", bytes(31) + b"\xff", bytes(range(33))]
    n = SIZE.get(k, 32)
    return [bytes(n), bytes(n - 1) + b"\x01", b"\x80" + bytes(n - 1), bytes((7 * i + 3) & 255 for i in range(n))]


def jv(v, alt=0):
    if isinstance(v, int):
        return (hex(v), "0x0" + hex(v)[2:], "0x" + hex(v)[2:].upper())[alt]
    s = bytes(v).hex()
    return ("0x" + s, s, "0x" + s.upper())[alt]


def jheader(h, names=0, alt=0):
    return {KEYS[k][min(names, len(KEYS[k]) - 1)]: jv(v, alt if alt != 1 or isinstance(v, int) else 0) for k, v in h.items() if k in KEYS}


def strip(h):
    return {k: h[k] for k in chain.HFIELDS if k in h}


TXK = {0: "nonce gasPrice gasLimit to value data v r s", 1: "chainId nonce gasPrice gasLimit to value data accessList v r s",
       2: "chainId nonce maxPriorityFeePerGas maxFeePerGas gasLimit to value data accessList v r s",
       3: "chainId nonce maxPriorityFeePerGas maxFeePerGas gasLimit to value data accessList maxFeePerBlobGas blobVersionedHashes v r s",
       4: "chainId nonce maxPriorityFeePerGas maxFeePerGas gasLimit to value data accessList authorizationList v r s"}
AD = [bytes(20), bytes(19) + b"\x01", b"\xff" * 20, bytes(range(1, 21))]
H32 = [bytes(32), b"\x01" + bytes(31), bytes(31) + b"\x02"]
TXV = {"nonce": [0, 1, 127, 128, 2**63, U256M], "gasPrice": [0, 1, 2**70], "gasLimit": [0, 21000, 2**64], "value": [0, 1, U256M], "data": [b"", b"\0", b"\x7f", b"\x80", bytes(60)],
       "to": AD, "maxPriorityFeePerGas": [0, 3, 2**70], "maxFeePerGas": [0, 5, 2**70], "maxFeePerBlobGas": [0, 9, U256M], "v": [0, 1, 27, 28, 37, 38], "r": [0, 1, U256M], "s": [0, 1, U256M],
       "accessList": [(), ((AD[1], ()),), ((AD[1], (H32[1],)), (AD[1], (H32[0], H32[2], H32[2]))), ((AD[2], (H32[2], H32[1])), (AD[0], ()))],
       "blobVersionedHashes": [(), (H32[1],), (H32[2], H32[1], H32[2])],
       "authorizationList": [((1, AD[1], 0, 0, 1, 1),), ((0, AD[2], U64M, 1, U256M, 2), (U256M, AD[0], 3, 255, 5, U256M)), ()]}


def tops(F):
    return [0] + ([1] if F >= BERLIN else []) + ([2] if F >= LONDON else []) + ([3] if F >= CANCUN else []) + ([4] if F >= PRAGUE else [])


def jtx(kind, f, style):
    """style bits: 1 explicit type, 2 y_parity name, 4 decimal-free short forms."""
    d = {}
    for k, v in zip(TXK[kind].split(), f):
        if k == "accessList":
            d[k] = [dict(address=hexb(a), storageKeys=[hexb(x) for x in ks]) for a, ks in v]
        elif k == "blobVersionedHashes":
            d[k] = [hexb(x) for x in v]
        elif k == "authorizationList":
            d[k] = [dict(chainId=hex(c), address=hexb(a), nonce=hex(n), v=hex(y), r=hex(r), s=hex(s)) for c, a, n, y, r, s in v]
        elif k == "to" and v == b"":
            d[k] = ""
        elif k == "value" and v == 0 and style & 4:
            d[k] = "0x"
        else:
            d[k] = jv(v, 1 if style & 4 and isinstance(v, int) else 0)
    if style & 1:
        d["type"] = hex(kind)
    if style & 2 and kind:
        d["y_parity"] = d["v"]
        d["v"] = "0x99"
    return d


def txs_of(kind):
    """Base fields, then every single and every pair of boundary values."""
    ks = TXK[kind].split()
    base = [1 if k == "chainId" else TXV[k][1] for k in ks]
    yield tuple(base)
    free = [i for i, k in enumerate(ks) if k != "chainId"]
    opt = lambda i: TXV[ks[i]] + ([b""] if ks[i] == "to" and kind < 3 else [])
    for i in free:
        for v in opt(i):
            yield tuple(base[:i] + [v] + base[i + 1:])
    for i, j in itertools.combinations(free, 2):
        for v, w in itertools.product((opt(i)[0], opt(i)[-1]), (opt(j)[0], opt(j)[-1])):
            t = list(base)
            t[i], t[j] = v, w
            yield tuple(t)


ACC = [dict(), dict(nonce=0), dict(balance=0, nonce=0, code=b""), dict(nonce=1), dict(balance=1), dict(balance=U256M, nonce=2**64), dict(code=b"\x00"), dict(code=bytes(range(40)), nonce=3, balance=2**128)]
STO = [{}, {0: 1}, {0: 0}, {1: U256M, U256M: 1}, {2: 0, 3: 5, 2**255: 2**248}]


class C(DiffCheck):
    pid = "C33"
    rule = ("every fork: headers with every single and every pair of field values from boundary sets, under both key names and several hexadecimal notations, every missing and every foreign field; "
            "transactions of every type with every single and pair of boundary values in eight notations; account lists of up to two (thorough: three) entries over all shapes and storages; "
            "blocks over lists of transactions, ommers and withdrawals, by RLP and by JSON, and every truncation; every fork loader attribute against the module that defines it; every pair of forks for the ordering test; "
            "every fork's own list of modules against its files.  A state is a distinct (input, result)")
    bounds = {"quick": "pairs of field values (first and last of each set); up to two accounts; up to two items per block list", "thorough": "all pairs of field values; up to three accounts and items"}
    assumptions = ["the tools read JSON transactions of chain id 1 (documented in the source)", "JSON numbers are hexadecimal strings"]

    def cases(self, tier):
        for F in ALL:
            for i in range(len(chain.hfields(F))):
                yield ("header", tier, F, i)
            yield ("fields", F)
            for k in tops(F):
                yield ("tx", F, k)
            for i in range(len(ACC)):
                yield ("state", tier, F, i)
            for k in range(4):
                yield ("block", tier, F, k)
            yield ("fork", F)

    def run(self, d):
        self.digs, self.n = [], 0
        getattr(self, d[0])(*d[1:])
        return Result(self.digs, self.n, self.n)

    def ok(self, *x):
        self.n += 1
        self.digs.append(digest(x))

    def load(self, F):
        return Load("x", NAMES[F])

    def base(self, F):
        return {k: choices(k)[-1] if k not in INTS else INTS[k][1] for k in chain.hfields(F)}

    # ------------------------------------------------------------------ headers
    def header(self, tier, F, i):
        L, b, ks = self.load(F), self.base(F), chain.hfields(F)

        def one(h, names, alt):
            got = L.json_to_header(jheader(h, names, alt))
            if bytes(irlp.encode(got)) != chain.header_rlp(h) or type(got) is not B.real.fork(F).blocks.Header:
                raise Mismatch(f"{NAMES[F]} header {h}: loaded as {got}")
            self.ok(F, chain.header_rlp(h), names, alt)
        for v in choices(ks[i]):
            for names, alt in itertools.product((0, 1), (0, 1, 2)):
                one({**b, ks[i]: v}, names, alt)
        for j in range(i):
            c1, c2 = choices(ks[i]), choices(ks[j])
            if tier == "quick":
                c1, c2 = (c1[0], c1[-1]), (c2[0], c2[-1])
            for v, w in itertools.product(c1, c2):
                one({**b, ks[i]: v, ks[j]: w}, 0, 0)

    def fields(self, F):
        L, b = self.load(F), self.base(F)
        full = {k: choices(k)[-1] if k not in INTS else INTS[k][1] for k in chain.HFIELDS}
        good = jheader(b)
        for drop in good:
            self.refused(lambda: L.json_to_header({k: v for k, v in good.items() if k != drop}), f"{NAMES[F]} header without {drop}")
        # a field group of a later fork is not silently ignored
        for ks in (("base_fee",), ("withdrawals_root",), ("blob_gas_used", "excess_blob_gas", "beacon_root"), ("requests_hash",)):
            if ks[0] not in b:
                self.refused(lambda: L.json_to_header({**good, **jheader({k: full[k] for k in ks})}), f"{NAMES[F]} header with {ks}")
        for k, v in b.items():
            if not isinstance(v, int) and k not in ("extra_data",):
                self.refused(lambda: L.json_to_header({**good, KEYS[k][0]: hexb(v + b"\1")}), f"{NAMES[F]} header with a long {k}")
        for k in INTS:
            if k in b and k in ("timestamp", "blob_gas_used", "excess_blob_gas"):
                self.refused(lambda: L.json_to_header({**good, KEYS[k][0]: hex(INTS[k][-1] + 1)}), f"{NAMES[F]} header with a too large {k}")

    def refused(self, f, what):
        try:
            got = f()
        except Exception:
            self.ok(what)
            return
        raise Mismatch(f"{what} is accepted as {got}")

    # ------------------------------------------------------------------ transactions
    def tx(self, F, kind):
        fl = ForkLoad(NAMES[F])
        fk = real.fork(F)
        T = importlib.import_module(f"ethereum.{NAMES[F]}.transactions")
        want = [getattr(T, "LegacyTransaction", None) or T.Transaction] + [getattr(T, n, None) for n in ("AccessListTransaction", "FeeMarketTransaction", "BlobTransaction", "SetCodeTransaction")]
        for f in txs_of(kind):
            e = codec.encode(kind, f)
            for style in range(8):
                got = TransactionLoad(jtx(kind, f, style), fl).read()
                b = bytes(irlp.encode(got))
                if type(got) is not want[kind] or (bytes([kind]) if kind else b"") + b != e:
                    raise Mismatch(f"{NAMES[F]} type {kind} transaction {jtx(kind, f, style)}: loaded as {got}")
                self.ok(F, kind, f, style)
        d = jtx(kind, next(txs_of(kind)), 1)
        for k in d:
            if k in ("chainId", "type", "accessList"):
                continue
            self.refused(lambda: TransactionLoad({x: y for x, y in d.items() if x != k}, fl).read(), f"{NAMES[F]} type {kind} transaction without {k}")
        for t in ("0x5", "0x7f"):
            self.refused(lambda: TransactionLoad({**d, "type": t}, fl).read(), f"{NAMES[F]} transaction of type {t}")
        for t in range(1, 5):
            if t not in tops(F):
                self.refused(lambda: TransactionLoad(jtx(t, next(txs_of(t)), 1), fl).read(), f"{NAMES[F]} transaction of type {t}")

    # ------------------------------------------------------------------ states
    def state(self, tier, F, i):
        L, fk = self.load(F), real.fork(F)
        S, A = importlib.import_module(f"ethereum.{NAMES[F]}.state"), fk.types.Address

        def one(entries):
            raw, acc, sto, bad = {}, {}, {}, False
            for (a, (x, s)) in zip((AD[3], AD[1], AD[0]), entries):
                j = {k: jv(v) for k, v in x.items()}
                if s:
                    j["storage"] = {jv(k): jv(v) for k, v in s.items()}
                raw[hexb(a)] = j
                full = (x.get("nonce", 0), x.get("balance", 0), x.get("code", b""))
                if full == (0, 0, b""):
                    bad = True
                acc[a] = full
                sto[a] = {k: v for k, v in s.items() if v}
            try:
                st = L.json_to_state(raw)
            except StateWithEmptyAccount:
                if not (bad and F >= PARIS):
                    raise Mismatch(f"{NAMES[F]} state {raw} refused")
                self.ok(F, repr(raw), "refused")
                return
            if bad and F >= PARIS:
                raise Mismatch(f"{NAMES[F]} state {raw} with an empty account accepted")
            if bytes(S.state_root(st)) != prim.state_root(acc, sto):
                raise Mismatch(f"{NAMES[F]} state {raw}: wrong root")
            for a in AD:
                g = S.get_account_optional(st, A(a))
                if (None if g is None else (int(g.nonce), int(g.balance), bytes(g.code))) != acc.get(a):
                    raise Mismatch(f"{NAMES[F]} state {raw}: account {hexb(a)} is {g}")
            self.ok(F, repr(raw))
        z = (ACC[i], {})
        one([])
        for s in STO:
            one([(ACC[i], s)])
            for y in ACC:
                for t in STO if tier == "thorough" else (STO[0], STO[4]):
                    one([(ACC[i], s), (y, t)])
                    if tier == "thorough":
                        for w in ACC[3:]:
                            one([(ACC[i], s), (y, t), (w, STO[1])])

    # ------------------------------------------------------------------ blocks
    def block(self, tier, F, part):
        L, fk = self.load(F), real.fork(F)
        h = self.base(F)
        n = 3 if tier == "thorough" else 2
        pool = [(k, next(txs_of(k))) for k in tops(F)]
        pool.append((0, list(txs_of(0))[9]))
        seqs = [s for k in range(n + 1) for s in itertools.product(pool, repeat=k)]
        oms = [{**h, "number": 3}, {**h, "extra_data": b""}]
        wds = [(0, 0, AD[0], 0), (U64M, 5, AD[2], U256M)]
        lists = lambda x: [list(s) for k in range(n + 1) for s in itertools.product(x, repeat=k)]
        for c, ts in enumerate(seqs):
            if c % 4 != part:
                continue
            for os_, ws in itertools.product(lists(oms), lists(wds) if F >= SHANGHAI else [None]):
                if len(ts) + len(os_) + len(ws or ()) > n + 1:
                    continue
                items = [list(h.values()), [chain.Raw(codec.encode(k, f)) if not k else codec.encode(k, f) for k, f in ts], [list(o.values()) for o in os_]]
                if ws is not None:
                    items.append([list(w) for w in ws])
                raw = chain.rlp_raw(items)
                js = dict(blockHeader={**jheader(h), "hash": hexb(chain.hhash(h))}, transactions=[jtx(k, f, c % 8 & 5) for k, f in ts], uncleHeaders=[jheader(o) for o in os_])
                if ws is not None:
                    js["withdrawals"] = [dict(index=hex(i), validatorIndex=hex(v), address=hexb(a), amount=hex(m)) for i, v, a, m in ws]
                for how, j in (("rlp", dict(js, rlp=hexb(raw))), ("only rlp", dict(rlp=hexb(raw))), ("json", js)):
                    blk, hh, enc = L.json_to_block(j)
                    if bytes(irlp.encode(blk)) != raw or bytes(enc) != raw or bytes(hh) != chain.hhash(h) or type(blk) is not fk.blocks.Block:
                        raise Mismatch(f"{NAMES[F]} block by {how}: {j} loaded as {blk}")
                    for it, (k, f) in zip(blk.transactions, ts):
                        if (bytes(it) if isinstance(it, bytes) else bytes(irlp.encode(it))) != codec.encode(k, f) or isinstance(it, bytes) != (k > 0):
                            raise Mismatch(f"{NAMES[F]} block by {how}: transaction {it}")
                    self.ok(F, raw, how)
                if len(ts) == len(os_) == 1:
                    for cut in range(0, len(raw), 7):
                        self.refused(lambda: L.json_to_block(dict(rlp=hexb(raw[:cut]))), f"{NAMES[F]} block cut at {cut}")
                    self.refused(lambda: L.json_to_block(dict(rlp=hexb(raw + b"\0"))), f"{NAMES[F]} block with a trailing byte")

    # ------------------------------------------------------------------ forks
    HOME = {"fork": "BEACON_ROOTS_ADDRESS HISTORY_STORAGE_ADDRESS BLOCK_REWARD process_general_purpose_requests process_unchecked_system_transaction process_withdrawals calculate_block_difficulty "
                    "calculate_base_fee_per_gas BlockChain state_transition pay_rewards process_transaction MAX_BLOB_GAS_PER_BLOCK", "bloom": "logs_bloom",
            "transactions": "signing_hash signing_hash_pre155 signing_hash_155 signing_hash_2930 signing_hash_1559 signing_hash_7702 signing_hash_4844 get_transaction_hash Transaction LegacyTransaction Access "
                            "AccessListTransaction FeeMarketTransaction BlobTransaction SetCodeTransaction encode_transaction decode_transaction", "blocks": "Block decode_receipt Header Withdrawal",
            "requests": "compute_requests_hash", "fork_types": "Bloom EMPTY_ACCOUNT Account Authorization", "state": "State set_account set_storage state_root close_state create_ether", "trie": "root copy_trie trie_get",
            "utils.hexadecimal": "hex_to_address hex_to_root", "vm": "BlockEnvironment BlockOutput", "vm.gas": "TARGET_BLOB_GAS_PER_BLOCK GAS_PER_BLOB BLOB_BASE_COST BLOB_SCHEDULE_MAX BLOB_SCHEDULE_TARGET calculate_blob_gas_price",
            "dao": "apply_dao"}

    def fork(self, F):
        fl = ForkLoad(NAMES[F])
        if fl.fork_module != NAMES[F] or fl.proof_of_stake is not (F >= PARIS):
            raise Mismatch(f"{NAMES[F]}: {fl.fork_module} {fl.proof_of_stake}")
        self.ok(F)
        for G in range(len(NAMES)):
            if fl.is_after_fork("ethereum." + NAMES[G]) is not (F >= G):
                raise Mismatch(f"{NAMES[F]} after {NAMES[G]}: {fl.is_after_fork('ethereum.' + NAMES[G])}")
            self.ok(F, G)
        for m, names in self.HOME.items():
            for n in names.split():
                try:
                    want = getattr(importlib.import_module(f"ethereum.{NAMES[F]}.{m}"), n)
                except (ImportError, AttributeError):
                    want = None
                try:
                    got = getattr(fl, n)
                except (ImportError, AttributeError):
                    got = None
                if got is not want:
                    raise Mismatch(f"{NAMES[F]}: fork loader's {n} is {got}, the fork's is {want}")
                if hasattr(want, "__module__") and callable(want) and want.__module__.startswith("ethereum.") and want.__module__.split(".")[1] != NAMES[F] and want.__module__.split(".")[1] in NAMES:
                    raise Mismatch(f"{NAMES[F]}: {n} is another fork's")
                self.ok(F, n)
        self.modules(F)

    def modules(self, F):
        """The fork's own listing of its modules."""
        import os
        from ethereum_spec_tools.forks import Hardfork
        fk = [f for f in Hardfork.discover() if f.short_name == NAMES[F]]
        if len(fk) != 1:
            raise Mismatch(f"{NAMES[F]} discovered {len(fk)} times")
        root = os.path.join(real.SRC, "ethereum", NAMES[F])
        deep = set()
        for p, _, fs in os.walk(root):
            rel = os.path.relpath(p, root).replace(os.sep, ".").lstrip(".")
            for f in fs:
                if f.endswith(".py"):
                    deep.add(".".join(x for x in ("ethereum", NAMES[F], rel, f[:-3] if f != "__init__.py" else "") if x))
        if root != fk[0].path:
            raise Mismatch(f"{NAMES[F]}: path {fk[0].path}")
        deep.discard("ethereum." + NAMES[F])
        top = {m for m in deep if m.count(".") == 2}
        for what, got, want in (("iter_modules", [m.name for m in fk[0].iter_modules()], top), ("walk_packages", [m.name for m in fk[0].walk_packages()], deep)):
            if sorted(got) != sorted(want):
                raise Mismatch(f"{NAMES[F]}.{what}: {sorted(set(got) ^ set(want))}")
            self.ok(F, what)
        for n in ("fork", "vm.gas", "state"):
            if fk[0].module(n) is not importlib.import_module(f"ethereum.{NAMES[F]}.{n}"):
                raise Mismatch(f"{NAMES[F]}: module {n}")
            self.ok(F, n)
        t = " ".join(w.capitalize() for w in NAMES[F].split("_"))
        if fk[0].title_case_name != t or fk[0].name != "ethereum." + NAMES[F]:
            raise Mismatch(f"{NAMES[F]}: named {fk[0].title_case_name}")


if __name__ == "__main__":
    raise SystemExit(main(C()))
