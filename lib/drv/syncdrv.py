"""Drives the chain synchronisation tool in a fresh child process against an in-process RPC provider."""
import json
import os
import pickle
import queue
import shutil
import signal
import sys
import tempfile
import threading

from ref import chain, evm, prim
from ref.chain import hhash
from ref.forks import *  # noqa
from . import blocks as B
from . import diff, real
from .diff import Mismatch

NEVER = 10**9
CONFIG_KEYS = {"homestead": "homesteadBlock", "tangerine_whistle": "eip150Block", "spurious_dragon": "eip155Block", "byzantium": "byzantiumBlock",
               "constantinople": "constantinopleBlock", "istanbul": "istanbulBlock", "berlin": "berlinBlock", "london": "londonBlock", "paris": "mergeForkBlock",
               "shanghai": "shanghaiTime"}
T0 = 1_700_000_000


# ------------------------------------------------------------------ the provider's chain
def hx(v):
    return hex(v) if isinstance(v, int) else "0x" + bytes(v).hex()


HNAMES = {"parent_hash": "parentHash", "ommers_hash": "sha3Uncles", "coinbase": "miner", "state_root": "stateRoot", "transactions_root": "transactionsRoot",
          "receipt_root": "receiptsRoot", "bloom": "logsBloom", "difficulty": "difficulty", "number": "number", "gas_limit": "gasLimit", "gas_used": "gasUsed",
          "timestamp": "timestamp", "extra_data": "extraData", "mix": "mixHash", "nonce": "nonce", "base_fee": "baseFeePerGas", "withdrawals_root": "withdrawalsRoot",
          "blob_gas_used": "blobGasUsed", "excess_blob_gas": "excessBlobGas", "beacon_root": "parentBeaconBlockRoot", "requests_hash": "requestsHash"}


def jheader(h):
    j = {HNAMES[k]: hx(h[k]) for k in chain.hfields(h["F"])}
    j.update(hash=hx(hhash(h)), size="0x220", totalDifficulty="0x1")
    return j


def jtx(tx, sig, F):
    v, r, s = sig
    j = {"nonce": hx(tx.nonce), "gas": hx(tx.gas), "to": hx(tx.to) if tx.to else None, "value": hx(tx.value), "input": hx(tx.data), "v": hx(v), "r": hx(r), "s": hx(s),
         "type": hx(tx.kind), "hash": "0x" + "11" * 32, "from": hx(tx.sender)}
    if tx.kind:
        j["chainId"] = hx(tx.chain_id)
        j["yParity"] = hx(v)
        j["accessList"] = [{"address": hx(a), "storageKeys": ["0x" + k.to_bytes(32, "big").hex() for k in ks]} for a, ks in tx.access]
    if tx.kind < 2:
        j["gasPrice"] = hx(tx.gas_price)
    else:
        j.update(maxFeePerGas=hx(tx.max_fee), maxPriorityFeePerGas=hx(tx.max_prio), gasPrice=hx(tx.max_fee))
    if tx.kind == 3:
        j.update(maxFeePerBlobGas=hx(tx.max_blob_fee), blobVersionedHashes=[hx(b) for b in tx.blobs])
    if tx.kind == 4:
        j["authorizationList"] = [{"chainId": hx(c), "address": hx(a), "nonce": hx(n), "yParity": hx(y), "r": hx(r_), "s": hx(s_)} for c, a, n, y, r_, s_ in tx.raw_auths]
    return j


class Provider:
    """A chain over a fork schedule, built with the model; blocks by number, as raw RLP and as JSON."""

    def __init__(self, schedule, acc, sto, chain_id=1337803, gas_limit=8_000_000, time=T0):
        """schedule: [(fork index, kind, value)] ascending; kind 0 by number, 1 by time."""
        self.schedule = schedule
        self.acc, self.sto, self.chain_id = acc, sto, chain_id
        # the tool starts with the fork active at block 0 and time 0
        F = self.at(0, 0)
        st = evm.State(acc, sto)
        h = dict(F=F, parent_hash=bytes(32), ommers_hash=chain.NO_OMMERS, coinbase=bytes(20), state_root=prim.state_root(acc, sto), transactions_root=prim.EMPTY_ROOT,
                 receipt_root=prim.EMPTY_ROOT, bloom=bytes(256), difficulty=0x20000, number=0, gas_limit=gas_limit, gas_used=0, timestamp=time, extra_data=b"v", mix=bytes(32),
                 nonce=bytes(7) + b"\x42", base_fee=10**9, withdrawals_root=prim.EMPTY_ROOT, blob_gas_used=0, excess_blob_gas=0, beacon_root=bytes(32), requests_hash=bytes(32))
        self.genesis = {k: h[k] for k in ["F"] + chain.hfields(F)}
        self.m = chain.Chain(F, st, [(self.genesis, [], [], [])], chain_id)
        self.london = next((v for f, k, v in schedule if f == LONDON), None)
        self.blocks = [None]
        self.roots = [self.genesis["state_root"]]
        self.config = {"config": {"chainId": chain_id}, "nonce": hx(self.genesis["nonce"]), "timestamp": hx(time), "extraData": "0x76", "gasLimit": hx(gas_limit),
                       "difficulty": "0x20000", "alloc": {a.hex(): {"balance": hx(b), "nonce": hx(n), "code": hx(c), "storage": {hx(k): hx(v) for k, v in sto.get(a, {}).items()}}
                                                          for a, (n, b, c) in acc.items()}}

    def at(self, number, time):
        F = None
        for f, k, v in self.schedule:
            if (number if k == 0 else time) < v:
                break
            F = f
        return F

    def txs(self, F, ts):
        out = []
        for t in ts:
            t = dict(t)
            if t.get("kind", 0) or F >= SPURIOUS:
                t.setdefault("chain_id", self.chain_id)
            tx, sig = diff.make_tx(F, t)
            out.append((tx, sig, real.encode_signed(tx, sig)))
        return out

    def add(self, txs=(), ommers=(), wds=(), **kw):
        """txs: function F, next number -> tx dicts, or list.  The block's commitments come from the model."""
        p = self.m.blocks[-1][0]
        n, t = p["number"] + 1, kw.pop("timestamp", p["timestamp"] + 12)
        F = self.at(n, t)
        L = chain.LONDON_BLOCK
        if self.london is not None:
            chain.LONDON_BLOCK = self.london
        try:
            self.m.F = F
            txs = self.txs(F, txs(F) if callable(txs) else txs)
            h = B.child(F, p, timestamp=t, **kw)
            B.derive(F, p, h, skip=kw)
            if ommers:
                h["ommers_hash"] = prim.keccak(prim.rlp([[o[k] for k in chain.HFIELDS if k in o] for o in ommers]))
            out, _ = self.m.execute(h, txs, list(ommers), list(wds))
            for k in chain.COMMIT:
                if k in out:
                    h[k] = out[k]
            self.m.add(h, txs, list(ommers), list(wds))
        finally:
            chain.LONDON_BLOCK = L
        self.push(h, txs, ommers, wds)
        return h

    def push(self, h, txs, ommers, wds):
        self.m.F = h["F"]
        j = jheader(h)
        j["transactions"] = [jtx(tx, sig, h["F"]) for tx, sig, e in txs]
        j["uncles"] = [hx(hhash(o)) for o in ommers]
        if h["F"] >= SHANGHAI:
            j["withdrawals"] = [{"index": hx(i), "validatorIndex": hx(v), "address": hx(a), "amount": hx(m)} for i, v, a, m in wds]
        self.blocks.append({"raw": hx(self.m.block_rlp(h, txs, list(ommers), list(wds))), "json": j, "ommers": [jheader(o) for o in ommers], "hash": hhash(h),
                            "F": h["F"], "time": h["timestamp"], "header": h})
        self.roots.append(h["state_root"])

    def ommer(self, depth=1, **kw):
        """A sibling of the block `depth` below the next one."""
        b = self.m.blocks[-depth][0]
        par = self.m.blocks[-depth - 1][0]
        L = chain.LONDON_BLOCK
        if self.london is not None:
            chain.LONDON_BLOCK = self.london
        try:
            return B.child(b["F"], par, coinbase=bytes([0xC0]) + bytes(18) + b"\x77", extra_data=b"om", **kw)
        finally:
            chain.LONDON_BLOCK = L


# ------------------------------------------------------------------ child process
class Server:
    """Answers the tool's HTTP requests.  order: 'asc', 'desc', 'rot', or a tuple (permutation applied to small batches)."""

    def __init__(self, blocks, order="asc", head=None, grow=0, fault=None):
        self.blocks, self.order, self.head, self.grow, self.fault = blocks, order, head or len(blocks) - 1, grow, fault or {}
        self.log = []
        self.sleeps = 0
        self.count = 0

    def arrange(self, xs):
        o = self.order
        if o == "asc":
            return xs
        if o == "desc":
            return xs[::-1]
        if o == "rot":
            return xs[1:] + xs[:1]
        if o == "odd":
            return xs[1::2] + xs[::2]
        return [xs[i] for i in o if i < len(xs)] + xs[len(o):]

    def one(self, c):
        m, p, i = c["method"], c["params"], c["id"]
        n = int(p[0], 16)
        assert p[0] == hex(n)
        f = self.fault.get(n)
        if f and f[0] == "error":
            return {"jsonrpc": "2.0", "id": i, "error": {"code": f[1], "message": "x"}}
        if m == "debug_getRawBlock":
            if n > self.head:
                return {"jsonrpc": "2.0", "id": i, "error": {"code": -32000, "message": "block not found"}}
            r = self.blocks[n]["raw"]
        elif m == "eth_getBlockByNumber":
            assert p[1] is True
            r = None if n > self.head else self.blocks[n]["json"]
            if f and f[0] == "late" and self.sleeps < f[1]:
                r = None
        elif m == "eth_getUncleByBlockNumberAndIndex":
            r = self.blocks[n]["ommers"][int(p[1], 16)]
        else:
            raise Exception(m)
        if f and f[0] == "swap":
            r = self.blocks[f[1]]["raw" if m[0] == "d" else "json"]
        if f and f[0] == "id":
            i = hex(f[1])
        return {"jsonrpc": "2.0", "id": i, "result": r}

    def sleep(self, s):
        self.sleeps += 1
        if self.sleeps > 400:
            raise RuntimeError("slept too often")
        self.head = min(len(self.blocks) - 1, self.head + self.grow)

    def urlopen(self, req):
        calls = json.loads(req.data)
        self.count += 1
        self.log.append((calls[0]["method"], len(calls)))
        if self.fault.get("at") == self.count:
            raise OSError("connection refused")
        rep = self.arrange([self.one(c) for c in calls])
        rep = [r for r in rep if self.fault.get(int(r["id"], 16)) != ("drop",)]

        class R:
            def __enter__(s):
                return s

            def __exit__(s, *a):
                pass

            def read(s, *a):
                return json.dumps(rep).encode()
        return R()


class Killed(BaseException):
    pass


KILL_EVENTS = {"begin_mutable", "commit_mutable", "set_metadata", "set_account", "set_storage", "destroy_storage", "state_root"}


def dbproxy(kill, counts):
    import rust_pyspec_glue as R
    Real = R.DB

    class DB:
        def __init__(self, path):
            object.__setattr__(self, "_db", Real(path))

        def __getattr__(self, name):
            f = getattr(self._db, name)
            if name not in KILL_EVENTS:
                return f

            def g(*a):
                counts.append(name)
                if kill is not None and len(counts) == kill[0] and kill[1] == 0:
                    os._exit(99)
                r = f(*a)
                if kill is not None and len(counts) == kill[0]:
                    os._exit(99)
                return r
            return g
    DB.delete = staticmethod(Real.delete)
    R.DB = DB


def setup_child(scn):
    """Argument vector, configuration, schedule; returns (sync module, server)."""
    import pkgutil
    import ethereum_spec_tools.sync as S
    from ethereum_spec_tools.forks import Hardfork
    from ethereum.fork_criteria import ByBlockNumber, ByTimestamp
    from ethereum_types.numeric import U256, Uint
    get = pkgutil.get_data
    conf = scn["config"]
    sched = scn["schedule"]
    crit = lambda k, v: ByTimestamp(U256(v)) if k else ByBlockNumber(Uint(v))
    if all(NAMES[f] in CONFIG_KEYS or f == 0 for f, _, _ in sched) and sched[0] == (0, 0, 0):
        c = dict(conf["config"])
        for i, k in enumerate(CONFIG_KEYS.values()):
            c[k] = NEVER + i if k != "shanghaiTime" else 2**40
        for f, k, v in sched:
            if f:
                c[CONFIG_KEYS[NAMES[f]]] = v
        conf = dict(conf, config=c)
    else:
        Hardfork.load_from_json = classmethod(lambda cls, j: cls.load({crit(k, v): NAMES[f] for f, k, v in sched}))
    pkgutil.get_data = lambda pkg, res: json.dumps(conf).encode() if res == "assets/zhejiang.json" else get(pkg, res)
    sys.argv = ["sync", "--zhejiang"] + scn["args"]
    srv = Server(**scn["server"])
    S.request.urlopen = srv.urlopen
    S.time = type(sys)("time")
    import time as T
    S.time.monotonic = T.monotonic
    S.time.sleep = srv.sleep
    T.sleep = srv.sleep
    if scn.get("q"):
        Real = queue.Queue
        S.Queue = queue.Queue = lambda maxsize=0: Real(maxsize=scn["q"])
    return S, srv


def relax(sync, sched):
    """Proof of work is not part of this check; the first London block is where the schedule puts it."""
    import importlib
    from ethereum.fork_criteria import ByBlockNumber
    from ethereum_types.numeric import Uint
    for f, k, v in sched:
        m = importlib.import_module(f"ethereum.{NAMES[f]}.fork")
        if f < PARIS:
            m.validate_proof_of_work = lambda header: None
        if f == LONDON:
            m.FORK_CRITERIA = ByBlockNumber(Uint(v))


def summary(sync):
    from ethereum_rlp import rlp
    return {"hashes": [prim.keccak(bytes(rlp.encode(b.header))) for b in sync.chain.blocks], "root": bytes(sync.module("state").state_root(sync.chain.state)),
            "number": int(sync.block_number), "fork": sync.active_fork.short_name, "chain_id": int(sync.chain.chain_id)}


def child(scn):
    counts = []
    if scn.get("persisted"):
        # look at the database only
        import ethereum_optimized.state_db  # noqa
        import rust_pyspec_glue as R
        db = R.DB(scn["persisted"])
        db.begin_mutable()
        g = lambda k: (lambda v: None if v is None else bytes(v))(db.get_metadata(k))
        return {"number": g(b"block_number"), "time": g(b"block_timestamp"), "chain_id": g(b"chain_id"), "root": bytes(db.state_root())}
    S, srv = setup_child(scn)
    if "--unoptimized" not in scn["args"]:
        dbproxy(scn.get("kill"), counts)
    r = {"exc": None}
    sync = None
    try:
        sync = S.Sync()
        relax(sync, scn["schedule"])
        sync.process_blocks()
    except (Exception, SystemExit) as e:
        r["exc"] = f"{type(e).__name__}: {e}"
    r["events"] = counts[:]
    r["log"] = srv.log
    if sync is not None and hasattr(sync, "chain") and not scn.get("nosum"):
        r.update(summary(sync))
    return r


def run(scn, fn=child, timeout=120):
    """Run fn(scn) in a forked child; returns its result, or {'killed': status}."""
    rd, wr = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(timeout)
            nul = os.open(os.devnull, os.O_RDWR)
            for k in (0, 1, 2):
                os.dup2(nul, k)
            try:
                out = fn(scn)
            except BaseException as e:
                import traceback
                out = {"crash": traceback.format_exc()}
            with os.fdopen(wr, "wb") as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return {"killed": -os.WTERMSIG(st)}
    if os.WEXITSTATUS(st) == 99:
        return {"killed": 99}
    if not data:
        return {"killed": os.WEXITSTATUS(st)}
    out = pickle.loads(data)
    if "crash" in out:
        raise RuntimeError("harness child failed:\n" + out["crash"])
    return out


# ------------------------------------------------------------------ controlled scheduler
class Sched:
    """Runs the two threads of the tool one at a time; every queue operation and request is a scheduling point.

    choices: list of indices taken so far; beyond it the first option is taken.  options[i] records how many there were."""

    def __init__(self, choices, timeouts):
        self.choices, self.options = list(choices), []
        self.timeouts = timeouts  # how many queue time-outs may fire
        self.steps = {}  # moves each thread has made
        self.threads = {}  # name -> dict(sem, ready: fn -> list of outcomes)
        self.done = set()
        self.dead = False

    def register(self, name):
        self.threads[name] = {"sem": threading.Semaphore(0), "ready": lambda: ["go"], "out": None}

    def pick(self):
        """Choose the next (thread, outcome); None on deadlock."""
        opts = []
        for n in sorted(self.threads):
            if n in self.done:
                continue
            for o in self.threads[n]["ready"]():
                opts.append((n, o))
        if not opts:
            return None
        k = len(self.options)
        c = self.choices[k] if k < len(self.choices) else 0
        if k >= len(self.choices):
            self.choices.append(0)
        self.options.append(len(opts))
        return opts[c]

    def switch(self, me, ready):
        """Scheduling point of thread me; returns the outcome chosen for it."""
        t = self.threads[me]
        t["ready"] = ready
        self.hand()
        t["sem"].acquire()
        if self.dead:
            raise Killed()
        t["ready"] = lambda: []
        return t["out"]

    def hand(self):
        p = self.pick()
        if p is None:
            self.dead = True
            for t in self.threads.values():
                t["sem"].release()
            return
        n, o = p
        if o == "timeout":
            self.timeouts -= 1
        self.steps[n] = self.steps.get(n, 0) + 1
        self.threads[n]["out"] = o
        self.threads[n]["sem"].release()

    def finish(self, me):
        self.done.add(me)
        if "main" not in self.done:
            self.hand()


RealThread = threading.Thread


def one_schedule(S, scn, trace):
    sc = Sched(trace, scn["timeouts"])
    srv = Server(**scn["server"])
    who = threading.local()
    started = []

    class Q:
        def __init__(self, maxsize=0):
            self.maxsize = scn["q"]
            self.items = []

        def put(self, x, block=True, timeout=None):
            o = sc.switch(who.name, lambda: ["go"] if len(self.items) < self.maxsize else ["timeout"] if sc.timeouts > 0 else [])
            if o == "timeout":
                raise queue.Full
            self.items.append(x)

        def get(self, block=True, timeout=None):
            o = sc.switch(who.name, lambda: ["go"] if self.items else ["timeout"] if sc.timeouts > 0 else [])
            if o == "timeout":
                raise queue.Empty
            return self.items.pop(0)

    class Th:
        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
            self.target = lambda: target(*args, **(kwargs or {}))

        def join(self, timeout=None):
            pass

        def start(self):
            sc.register("down")

            def body():
                who.name = "down"
                t = sc.threads["down"]
                t["sem"].acquire()
                t["ready"] = lambda: []
                try:
                    if not sc.dead:
                        self.target()
                except BaseException:
                    pass
                finally:
                    if not sc.dead:
                        sc.finish("down")
            self.th = RealThread(target=body, daemon=True)
            self.th.start()
            started.append(self.th)

    def urlopen(req):
        sc.switch(who.name, lambda: ["go"])
        return srv.urlopen(req)
    S.Queue = queue.Queue = Q
    S.Thread = threading.Thread = Th
    S.request.urlopen = urlopen

    def sleep(s):
        # a thread that polls sleeps until the other thread has moved
        me = who.name
        other = lambda: {n: k for n, k in sc.steps.items() if n != me}
        before = other()
        srv.sleep(s)
        sc.switch(me, lambda: ["go"] if other() != before else [])
    S.time.sleep = sleep
    who.name = "main"
    sc.register("main")
    sc.threads["main"]["ready"] = lambda: []
    r = {"exc": None}
    sync = None
    try:
        sync = S.Sync()
        relax(sync, scn["schedule"])
        sync.process_blocks()
    except Killed:
        r["exc"] = "DEADLOCK"
    except (Exception, SystemExit) as e:
        r["exc"] = f"{type(e).__name__}: {e}"
    sc.done.add("main")
    sc.dead = True
    for t in sc.threads.values():
        t["sem"].release()
    for t in started:
        t.join(30)
    if sync is not None and hasattr(sync, "chain"):
        r.update(summary(sync))
    return sc, r


def scheduled_child(scn):
    """Explore every interleaving of downloader and importer; returns outcomes."""
    S, srv0 = setup_child(dict(scn, args=scn["args"]))
    outcomes = {}
    n = 0
    trace = []
    while True:
        sc, r = one_schedule(S, scn, trace)
        key = pickle.dumps(r)
        outcomes.setdefault(key, list(sc.choices[:len(sc.options)]))
        n += 1
        # next trace: depth-first
        ch, op = sc.choices[:len(sc.options)], sc.options
        while ch and ch[-1] + 1 >= op[len(ch) - 1]:
            ch.pop()
        if not ch or n >= scn["cap"]:
            break
        ch[-1] += 1
        trace = ch
    return {"n": n, "complete": not ch, "outcomes": [(pickle.loads(k), v) for k, v in outcomes.items()]}
