"""C25: genesis, irregular transitions and the fork schedule."""
import hashlib
import itertools
import json
import os

from explore import Check, Result, main
from drv import blocks as B
from drv import diff, real
from drv.diff import Mismatch
from ref import chain, prim
from ref.forks import *  # noqa
from ethereum import genesis as G
from ethereum.fork_criteria import ByBlockNumber, ByTimestamp, ForkCriteria, Unscheduled
from ethereum_spec_tools.forks import Hardfork
from ethereum_types.bytes import Bytes, Bytes8
from ethereum_types.numeric import U64, U256, Uint

# the main network's schedule: (kind, value), kind 0 by number, 1 by time, 2 never
MAINNET = [("frontier", 0, 0), ("homestead", 0, 1150000), ("dao_fork", 0, 1920000), ("tangerine_whistle", 0, 2463000), ("spurious_dragon", 0, 2675000),
           ("byzantium", 0, 4370000), ("constantinople", 0, 7280000), ("istanbul", 0, 9069000), ("muir_glacier", 0, 9200000), ("berlin", 0, 12244000),
           ("london", 0, 12965000), ("arrow_glacier", 0, 13773000), ("gray_glacier", 0, 15050000), ("paris", 0, 15537394), ("shanghai", 1, 1681338455),
           ("cancun", 1, 1710338135), ("prague", 1, 1746612311), ("osaka", 2, 0)]
HASHES = {"mainnet": "d4e56740f876aef8c010b86a40d5f56745a118d0906a34e69aec8c0db1cb8fa3", "sepolia": "25a5cc106eea7138acab33231d7160d69cb777ee0c2c553fcddf5138993e6dd9"}
DAO_DIGEST = "23e9ef13c75f842760dcf17bc7bf5171b4fb444d78485bf25bdb28f00ff54fd2"
RECOVERY = bytes.fromhex("bf4ed7b27f1d666546e30d74d50d173d20bca754")


def num(s):
    return int(s, 16) if s.startswith("0x") else int(s)


def unhex(s, n=None):
    h = s[2:] if s.startswith("0x") else s
    return bytes.fromhex(h.rjust(2 * n, "0") if n else h)


# allocation entries: JSON text form -> what they mean
ENTRIES = [
    {"balance": "0x5"}, {"balance": "7"}, {"balance": "0x0"}, {"balance": "0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"}, {},
    {"balance": "0x1", "nonce": "5"}, {"balance": "0", "nonce": "0x10"}, {"nonce": "0"}, {"balance": "1", "code": "0x6001"}, {"code": "6002", "balance": "0x0a"},
    {"balance": "1", "code": "0x"}, {"balance": "1", "nonce": "18446744073709551615", "code": "0xef"},
    {"balance": "1", "storage": {"0x0000000000000000000000000000000000000000000000000000000000000001": "0x02", "0x02": "0x0", "3": "ff"}},
    {"balance": "2", "code": "0x00", "storage": {"0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff": "0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "0x0": "0x80"}},
]
ADDRS = ["0x" + "00" * 20, "0x" + "00" * 19 + "01", "a1" * 20, "0x" + "Bc" * 20, "0x" + "ff" * 20]


def meaning(e):
    return (num(e.get("nonce", "0")), num(e.get("balance", "0")), unhex(e.get("code", "0x"))), \
        {int(k, 16): int(v, 16) for k, v in e.get("storage", {}).items() if int(v, 16)}


def gfork(F):
    fk = real.fork(F)
    import importlib
    hx = importlib.import_module(f"ethereum.{fk.name}.utils.hexadecimal")
    return G.GenesisFork(Address=fk.types.Address, Account=fk.types.Account, Trie=fk.trie.Trie, Bloom=fk.types.Bloom, Header=fk.blocks.Header, Block=fk.blocks.Block,
                         hex_to_address=hx.hex_to_address, set_account=fk.state.set_account, set_storage=fk.state.set_storage, state_root=fk.state.state_root, root=fk.trie.root)


def key(c):
    return {0: (0, c[1]), 1: (1, c[1]), 2: (2, 0)}[c[0]]


def mk(c):
    return ByBlockNumber(c[1]) if c[0] == 0 else ByTimestamp(c[1]) if c[0] == 1 else Unscheduled()


CRIT = [(0, 0), (0, 1), (0, 2), (0, 1150000), (0, 2**64), (1, 0), (1, 1), (1, 1150000), (1, 2**64 - 1), (1, 2**256 - 1), (2, 0)]


class C(Check):
    pid = "C25"
    rule = ("genesis: every fork x every allocation of up to two entries from 14 entry shapes (number forms, missing fields, storage with zero values) x header field sets, and the "
            "bundled networks, against an independently built header and state root; DAO transition: every listed account alone and paired, recovery present or not, then every header "
            "around the marked window x marker variants through state_transition; fork schedule: all pairs and triples of criteria against tuple order, every boundary of the main "
            "network, every monotone schedule over {0, 1, 5}; every other fork's transition leaves the chain as it is")
    bounds = {"quick": "single entries and pairs; 116 DAO accounts", "thorough": "triples of entries"}

    def cases(self, tier):
        th = tier == "thorough"
        for F in ALL:
            for e in range(len(ENTRIES)):
                yield ("alloc", F, e, th)
            yield ("fields", F)
            yield ("same", F)
        for n in ("mainnet", "sepolia", "zhejiang"):
            yield ("asset", n)
        for i in range(0, 116, 4):
            yield ("dao", i, th)
        yield ("daoall",)
        for n in range(-3, 14):
            yield ("window", n)
        for a in range(len(CRIT)):
            yield ("order", a)
        yield ("mainnet",)
        for i in range(0, 66, 3):
            yield ("sched", i)

    def run(self, d):
        self.seen, self.n, self.k = set(), 0, 0
        getattr(self, d[0])(*d[1:])
        return Result(self.seen, self.n, self.k)

    def eq(self, got, want, what):
        self.k += 1
        self.n += 1
        self.seen.add(hash((repr(want), str(what)[:40])))
        if got != want:
            raise Mismatch(f"{what}: implementation {got!r} expected {want!r}"[:1500])

    # ------------------------------------------------------------ genesis
    def genesis(self, F, alloc, conf, what):
        fk = real.fork(F)
        cfg = G.GenesisConfiguration(chain_id=U64(conf["chain_id"]), difficulty=Uint(conf["difficulty"]), extra_data=Bytes(conf["extra"]), gas_limit=Uint(conf["gas"]),
                                     nonce=Bytes8(conf["nonce"]), timestamp=U256(conf["time"]), initial_accounts=alloc)
        ch = fk.fork.BlockChain([], fk.state.State(), U64(99))
        G.add_genesis_block(gfork(F), ch, cfg)
        self.judge(F, alloc, conf, ch, what)

    def judge(self, F, alloc, conf, ch, what):
        acc, sto = {}, {}
        for a, e in alloc.items():
            v, s = meaning(e)
            acc[unhex(a)] = v
            if s:
                sto[unhex(a)] = s
        fk = real.fork(F)
        iacc, isto = fk.dump(ch.state)
        self.eq(iacc, acc, f"{NAMES[F]} genesis accounts of {what}")
        self.eq(isto, sto, f"{NAMES[F]} genesis storage of {what}")
        h = dict(F=F, parent_hash=bytes(32), ommers_hash=chain.NO_OMMERS, coinbase=bytes(20), state_root=prim.state_root(acc, sto), transactions_root=prim.EMPTY_ROOT,
                 receipt_root=prim.EMPTY_ROOT, bloom=bytes(256), difficulty=conf["difficulty"], number=0, gas_limit=conf["gas"], gas_used=0, timestamp=conf["time"],
                 extra_data=conf["extra"], mix=bytes(32), nonce=conf["nonce"], base_fee=10**9, withdrawals_root=prim.EMPTY_ROOT, blob_gas_used=0, excess_blob_gas=0,
                 beacon_root=bytes(32), requests_hash=bytes(32))
        h = {k: h[k] for k in ["F"] + chain.hfields(F)}
        self.eq(len(ch.blocks), 1, f"{NAMES[F]} blocks after genesis")
        from ethereum_rlp import rlp
        self.eq(bytes(rlp.encode(ch.blocks[0].header)), chain.header_rlp(h), f"{NAMES[F]} genesis header of {what}")
        want = prim.rlp([[h[k] for k in chain.hfields(F)], [], []] + ([[]] if F >= SHANGHAI else []))
        self.eq(bytes(rlp.encode(ch.blocks[0])), want, f"{NAMES[F]} genesis block of {what}")
        self.eq(int(ch.chain_id), conf["chain_id"], f"{NAMES[F]} chain id")
        return prim.keccak(chain.header_rlp(h))

    CONF = dict(chain_id=1, difficulty=17, extra=b"ab", gas=5000, nonce=b"\0" * 7 + b"\x42", time=3)

    def alloc(self, F, e, th):
        self.genesis(F, {ADDRS[e % 5]: ENTRIES[e]}, self.CONF, f"one account {ENTRIES[e]}")
        for f in range(len(ENTRIES)):
            self.genesis(F, {ADDRS[e % 5]: ENTRIES[e], ADDRS[(e + 1 + f % 4) % 5]: ENTRIES[f]}, self.CONF, f"accounts {ENTRIES[e]} {ENTRIES[f]}")
            if th:
                for g in range(len(ENTRIES)):
                    self.genesis(F, {ADDRS[0]: ENTRIES[g], ADDRS[2]: ENTRIES[e], ADDRS[3]: ENTRIES[f]}, self.CONF, f"accounts {g} {e} {f}")

    def fields(self, F):
        self.genesis(F, {}, self.CONF, "empty allocation")
        for k, vs in dict(chain_id=(0, 2, 2**64 - 1), difficulty=(0, 1, 0x20000, 2**255), extra=(b"", b"x" * 32, b"\0"), gas=(0, 2**63 - 1), nonce=(bytes(8), b"\xff" * 8), time=(0, 2**64 - 1, 2**255)).items():
            for v in vs:
                self.genesis(F, {ADDRS[0]: ENTRIES[0]}, dict(self.CONF, **{k: v}), f"{k}={v}")

    def asset(self, name):
        path = os.path.join(real.SRC, "ethereum", "assets", name + ".json")
        d = json.load(open(path))
        cfg = G.get_genesis_configuration(name + ".json")
        conf = dict(chain_id=d["config"]["chainId"], difficulty=num(d["difficulty"]), extra=unhex(d["extraData"]), gas=num(d["gasLimit"]), nonce=unhex(d["nonce"], 8), time=num(d["timestamp"]))
        self.eq(dict(chain_id=int(cfg.chain_id), difficulty=int(cfg.difficulty), extra=bytes(cfg.extra_data), gas=int(cfg.gas_limit), nonce=bytes(cfg.nonce), time=int(cfg.timestamp)), conf, f"{name} configuration")
        self.eq(cfg.initial_accounts, d["alloc"], f"{name} allocation")
        F = {"mainnet": FRONTIER, "sepolia": BERLIN, "zhejiang": SHANGHAI}[name]
        if name == "sepolia":
            F = LONDON
        fk = real.fork(F)
        ch = fk.fork.BlockChain([], fk.state.State(), U64(99))
        G.add_genesis_block(gfork(F), ch, cfg)
        hsh = self.judge(F, d["alloc"], conf, ch, name)
        if name in HASHES:
            self.eq(hsh.hex(), HASHES[name], f"{name} genesis hash")

    # ------------------------------------------------------------ irregular transition
    def world(self, subset, rec):
        dao = real.fork(DAO).name and __import__("ethereum.dao_fork.dao", fromlist=["x"])
        listed = [bytes(a) for a in dao.DAO_ACCOUNTS]
        acc, sto = {bytes([0xA1]) * 20: (3, 1000, b"\x01")}, {}
        for j, i in enumerate(subset):
            acc[listed[i]] = [(0, 10**18 + i, b""), (1, 5 + i, b"\x60\x00"), (7, 0, b"\x00"), (0, 2**200 + i, b"")][(i + j) % 4]
            if (i + j) % 4 == 1:
                sto[listed[i]] = {1: 2}
        if rec:
            acc[RECOVERY] = (1, rec, b"\xfe")
            sto[RECOVERY] = {9: 9}
        return listed, acc, sto

    def apply(self, subset, rec):
        listed, acc, sto = self.world(subset, rec)
        fk = real.fork(DAO)
        old = real.fork(HOMESTEAD)
        gen = B.genesis(HOMESTEAD, number=1919999)
        ch = old.fork.BlockChain(blocks=[B.iblock(HOMESTEAD, gen, [], [], [])], state=old.mkstate(acc, sto), chain_id=U64(1))
        # the new fork works on its own types: rebuild the old chain with them, as the chain is handed over
        ch = fk.fork.BlockChain(blocks=[B.iblock(DAO, dict(gen, F=DAO), [], [], [])], state=fk.mkstate(acc, sto), chain_id=U64(1))
        blocks = list(ch.blocks)
        new = fk.fork.apply_fork(ch)
        want = dict(acc)
        total = 0
        for a in listed:
            if a in want:
                n, b, c = want[a]
                total += b
                want[a] = (n, 0, c)
            else:
                want[a] = (0, 0, b"")     # touched by the move: created empty (before empty accounts were forbidden)
        n, b, c = acc.get(RECOVERY, (0, 0, b""))
        want[RECOVERY] = (n, b + total, c)
        iacc, isto = fk.dump(new.state)
        self.eq({a: v for a, v in iacc.items() if v != (0, 0, b"")}, {a: v for a, v in want.items() if v != (0, 0, b"")}, f"accounts after the DAO transition of {subset}")
        self.eq(isto, sto, f"storage after the DAO transition of {subset}")
        self.eq(sum(v[1] for v in iacc.values()), sum(v[1] for v in acc.values()), "ether after the DAO transition")
        self.eq((list(new.blocks) == blocks, int(new.chain_id)), (True, 1), "chain after the DAO transition")

    def dao(self, i, th):
        for j in range(i, i + 4):
            for rec in (0, 77):
                self.apply([j], rec)
                self.apply([j, (j + 1) % 116], rec)
            if th:
                for k in range(116):
                    if k != j:
                        self.apply([j, k], 1)

    def daoall(self):
        listed, _, _ = self.world([], 0)
        dao = __import__("ethereum.dao_fork.dao", fromlist=["x"])
        self.eq(len(listed), 116, "DAO account list length")
        self.eq(hashlib.sha256(b"".join(sorted(listed))).hexdigest(), DAO_DIGEST, "digest of the sorted DAO account list")
        self.eq(bytes(dao.DAO_RECOVERY), RECOVERY, "DAO recovery contract")
        for rec in (0, 5):
            self.apply(list(range(116)), rec)
            self.apply([], rec)

    def window(self, n):
        """Blocks around the fork, with and without the marker."""
        marks = [b"dao-hard-fork", b"", b"dao-hard-for", b"dao-hard-fork\0", b"DAO-hard-fork", b"x" * 32]
        for mk_ in marks:
            pn = chain.DAO_BLOCK + n - 1
            gen = B.genesis(DAO, number=pn)
            p = B.Pair(DAO, {bytes([0xA1]) * 20: (0, 5, b"")}, {}, [(gen, [], [], [])], first=0)
            b = p.build(extra_data=mk_)
            err, _ = p.add(b)
            self.eq(err is None, (mk_ == b"dao-hard-fork") or not 0 <= n < 10, f"DAO block {pn + 1} marked {mk_}")
        # a run through the window
        if n == -1:
            gen = B.genesis(DAO, number=chain.DAO_BLOCK - 2)
            p = B.Pair(DAO, {bytes([0xA1]) * 20: (0, 5, b"")}, {}, [(gen, [], [], [])])
            for i in range(14):
                err, _ = p.add(p.build())
                self.eq(err, None, f"block {i} of a chain through the window")

    def same(self, F):
        if F in (FRONTIER, DAO):
            return
        fk = real.fork(F)
        acc = {bytes([0xA1]) * 20: (3, 1000, b"\x01"), RECOVERY: (1, 2, b"")}
        for a in self.world([0, 1], 1)[1]:
            acc[a] = (1, 9, b"")
        gen = B.genesis(F)
        ch = fk.fork.BlockChain(blocks=[B.iblock(F, gen, [], [], [])], state=fk.mkstate(acc, {RECOVERY: {1: 1}}), chain_id=U64(7))
        blocks = list(ch.blocks)
        new = fk.fork.apply_fork(ch)
        self.eq((fk.dump(new.state), list(new.blocks) == blocks, int(new.chain_id)), ((acc, {RECOVERY: {1: 1}}), True, 7), f"{NAMES[F]}: chain after the fork transition")

    # ------------------------------------------------------------ schedule
    def order(self, i):
        a = CRIT[i]
        x = mk(a)
        for b in CRIT:
            y = mk(b)
            ka, kb = key(a), key(b)
            self.eq((x < y, x <= y, x == y, x != y, x > y, x >= y), (ka < kb, ka <= kb, ka == kb, ka != kb, ka > kb, ka >= kb), f"order of {x} and {y}")
            if ka == kb:
                self.eq(hash(x) == hash(y), True, f"hash of equal criteria {x}")
            for c in CRIT:
                got = [repr(z) for z in sorted([mk(b), x, mk(c)])]
                self.eq(got, [repr(mk(z)) for z in sorted([b, a, c], key=key)], f"sort of {a} {b} {c}")
        for o in (None, 0, a, "x"):
            self.eq(x == o, False, f"{x} == {o!r}")
        for n in (0, 1, a[1] - 1, a[1], a[1] + 1):
            for t in (0, 1, a[1] - 1, a[1], a[1] + 1, 2**256 - 1):
                if n < 0 or t < 0 or t >= 2**256:
                    continue
                self.eq(bool(x.check(Uint(n), U256(t))), a[0] == 0 and n >= a[1] or a[0] == 1 and t >= a[1], f"{x}.check({n}, {t})")

    def mainnet(self):
        fs = Hardfork.discover()
        self.eq([f.short_name for f in fs], [m[0] for m in MAINNET], "discovered forks in order")
        for f, (name, k, v) in zip(fs, MAINNET):
            self.eq(f.criteria, mk((k, v)), f"criteria of {name}")
            self.eq(f.consensus.is_pow(), INDEX[name] < PARIS, f"{name} is proof of work")
            self.eq(f.consensus.is_pos(), INDEX[name] >= PARIS, f"{name} is proof of stake")
            self.eq(f.name, "ethereum." + name, "name")
            self.eq(f.title_case_name, name.replace("_", " ").title(), "title")
            self.eq(os.path.realpath(f.path), os.path.realpath(os.path.join(real.SRC, "ethereum", name)), "path")
            for attr, kk in (("block", 0), ("timestamp", 1)):
                try:
                    got = int(getattr(f, attr))
                except AttributeError:
                    got = None
                self.eq(got, v if k == kk else None, f"{name}.{attr}")
        marks = sorted({m[2] + d for m in MAINNET if m[1] == 0 for d in (-1, 0, 1)} - {-1})
        times = sorted({m[2] + d for m in MAINNET if m[1] == 1 for d in (-1, 0, 1)} | {0, 2**256 - 1})
        for n in marks:
            for t in times:
                if t > 10**9 and n < MAINNET[13][2]:
                    continue      # no such block
                self.pick(fs, [(m[1], m[2]) for m in MAINNET], [m[0] for m in MAINNET], n, t)

    def pick(self, fs, crit, names, n, t):
        on = [f.short_name for f in fs if f.has_activated(Uint(n), U256(t))]
        want = [nm for nm, (k, v) in zip(names, crit) if (k == 0 and n >= v) or (k == 1 and t >= v)]
        self.eq(on, want, f"forks active at block {n} time {t}")

    def sched(self, i):
        fields = ["homesteadBlock", "eip150Block", "eip155Block", "byzantiumBlock", "constantinopleBlock", "istanbulBlock", "berlinBlock", "londonBlock", "mergeForkBlock"]
        names = ["homestead", "tangerine_whistle", "spurious_dragon", "byzantium", "constantinople", "istanbul", "berlin", "london", "paris"]
        combos = list(itertools.combinations_with_replacement((0, 1, 5), 10))
        for vs in combos[i:i + 3]:
            cfg = dict(zip(fields, vs[:9]), shanghaiTime=vs[9])
            table = {(0, 0): "frontier"}
            for nm, v in zip(names, vs):
                table[(0, v)] = nm           # a later fork at the same block replaces the earlier one
            table[(1, vs[9])] = "shanghai"
            want = sorted(table.items())
            mods = {nm: __import__("ethereum." + nm, fromlist=["x"]) for nm in ["frontier", "shanghai"] + names}
            saved = {nm: m.FORK_CRITERIA for nm, m in mods.items()}
            try:
                fs = Hardfork.load_from_json({"config": cfg})
                self.eq([(f.short_name, f.criteria) for f in fs], [(nm, mk(c)) for c, nm in want], f"forks of {cfg}")
                for n in (0, 1, 2, 4, 5, 6):
                    for t in (0, 1, 4, 5, 6):
                        self.pick(fs, [c for c, _ in want], [nm for _, nm in want], n, t)
                try:
                    Hardfork.load_from_json({"config": dict(cfg, daoForkBlock=3)})
                    self.eq("accepted", "refused", "a configuration with a DAO fork")
                except Exception as e:
                    if isinstance(e, Mismatch):
                        raise
                    self.k += 1
            finally:
                for nm, m in mods.items():
                    m.FORK_CRITERIA = saved[nm]


if __name__ == "__main__":
    raise SystemExit(main(C()))
