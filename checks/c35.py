"""C35: a block's outcome depends on its chain, state and transactions alone."""
import itertools
import json
import os
import subprocess
import sys

from explore import Check, Result, main
from asm import asm
from c17 import SYSACC, WORLD, kinds, mk, LOG, FAIL, OOG, SD, BH, STO, CREA
from drv import blocks, diff, real
from drv.blocks import Pair, genesis, seal
from drv.diff import Mismatch
from scen import A, ETH, S1, S2, K1, K2, NOBODY, block, case, tx, world
from ref import chain, evm, prim
from ref.forks import *  # noqa
from ethereum_rlp import rlp as irlp

CODES = (LOG, FAIL, OOG, SD, STO, CREA)
T = tuple(A(0x20 + i) for i in range(3))        # contracts that end themselves
Z = tuple(A(0x30 + i) for i in range(3))        # empty accounts
W = A(0x40)
COIN = block(FRONTIER)["coinbase"]


def turned(world):
    """The same addresses with each other's code and other balances."""
    w = dict(world)
    for a, b in zip(CODES, CODES[1:] + CODES[:1]):
        w[a] = (world[a][0] + 3, world[a][1] + 11, world[b][2])
    w[S1], w[S2] = (0, 7 * ETH, b""), (0, 9 * ETH, b"")
    return w


def order(seed):
    """The order in which a set of the three contracts is walked in a process with that hash seed."""
    c = f"print(*[x[-1] for x in {{bytes.fromhex(y) for y in {[t.hex() for t in T]!r}}}])"
    r = subprocess.run([sys.executable, "-S", "-c", c], env={**os.environ, "PYTHONHASHSEED": str(seed)}, capture_output=True, text=True, check=True)
    return tuple(int(x) - 0x20 for x in r.stdout.split())


_SEEDS = {}


def seeds():
    s = 1
    while len(_SEEDS) < 6 and s < 400:
        _SEEDS.setdefault(order(s), s)
        s += 1
    if len(_SEEDS) < 6:
        raise AssertionError("harness: no seed for some order")
    return _SEEDS


def init(dst, at, push=False):
    """32 bytes of init code: a jump to dst, with a destination (or push data that looks like one) at `at`, which leaves a mark."""
    c = bytearray(asm(dst, "JUMP") + bytes(29))
    if push:
        c[at - 1] = 0x60
    c[at:at + 6] = b"\x5b" + asm(at, 1, "SSTORE")
    return bytes(c)


INITS = (init(5, 5), init(9, 9), init(9, 9, True), init(14, 9), init(9, 14))


def killer(n):
    """Ends itself in favour of the address in its call data."""
    return asm(0, "CALLDATALOAD", "SELFDESTRUCT")


def call(to, arg, value):
    return asm(int.from_bytes(arg, "big"), 0, "MSTORE", 0, 0, 32, 0, value, int.from_bytes(to, "big"), 90_000, "CALL", "POP")


def programs(F, th):
    """Transactions whose end walks several sets."""
    bens = T + (NOBODY, COIN, W)
    for bs in itertools.product(bens, repeat=3):
        if th or bs[0] <= bs[2] or bs[1] in T:
            yield [call(t, b, v) for t, b, v in zip(T, bs, (0, 1, 2))], ()
    for zs in itertools.product((None, 0, 1), repeat=3):
        for k in range(2):
            yield [call(z, z, v) for z, v in zip(Z, zs) if v is not None] + ([call(T[0], Z[0], 0), call(T[1], Z[2], 1)] if k else []), ()
    if F >= BERLIN:
        for ks in itertools.permutations(range(3)):
            yield [call(T[0], T[1], 0)], tuple((T[k], (0, 1, 2)[:k + 1]) for k in ks)


class C(Check):
    pid = "C35"
    rule = ("two chains of one or two forks in one process, with the same addresses but other code and balances: every interleaving P Q P (thorough also P Q P Q and P Q Q P) over a block alphabet "
            "(storage, destruction, logs, creation, block hashes, refused blocks), each chain against its own model and the blocks handed in unchanged.  Every iteration order of sets of three addresses "
            "(realised by hash seeds): transactions that end every assignment of three contracts to six beneficiaries, touch every combination of empty accounts, and list accounts in every order, "
            "compared with the model after each.  Every sequence of four (thorough five) creations in one call over five init codes of one length that "
            "differ in where they jump and where a destination is (so that later codes take the place of earlier ones in the process's memory).  A state is a distinct (header, verdict) or post-state")
    bounds = {"quick": "two chains, three steps, six block kinds; six orders, half of the assignments; 625 creation sequences", "thorough": "four steps; all assignments; 3125 creation sequences"}
    assumptions = ["proof of work replaced by a stand-in (decided by C24)"]

    def cases(self, tier):
        th = tier == "thorough"
        for F in ALL:
            G = ALL[(ALL.index(F) + 1) % len(ALL)]
            for a in self.names(F):
                yield ("inter", F, F, a, th)
                yield ("inter", F, G, a, th)
            for p in itertools.permutations(range(3)):
                yield ("order", F, p, th)
            for k in range(len(INITS)):
                yield ("reuse", F, k, th)

    def run(self, d):
        return getattr(self, "r_" + d[0])(*d[1:])

    def names(self, F):
        return ("sto", "sd", "crea", "bh", "bad", "head")

    # ---------------------------------------------------------- two chains
    def step(self, P, k, nonces):
        F = P.F
        if k == "bad":          # an invalid transaction
            ts, _ = mk(F, [dict(to=NOBODY, dn=5)], nonces)
            P.add(P.build(P.txs(ts)), expect=False)
            return nonces
        if k == "head":
            h, *r = P.build()
            h = dict(h, number=h["number"] + 1)
            P.add((seal(h) if F < PARIS else h, *r), expect=False)
            return nonces
        ts, nn = mk(F, [dict(kinds(F)[k], gas=400_000), kinds(F)["log"]], nonces)
        P.add(P.build(P.txs(ts)), expect=True)
        return nn

    def r_inter(self, F, G, a, th):
        digs, n = [], 0
        pats = ("PQP",) if not th else ("PQP", "PQPQ", "PQQP", "PPQP")
        for pat in pats:
            for ks in itertools.product(self.names(F), repeat=len(pat) - 1):
                ks = (a,) + ks
                ch, nn = {}, {"P": {}, "Q": {}}
                for who, X, w in (("P", F, lambda x: x), ("Q", G, turned)):
                    ch[who] = Pair(X, w({**WORLD, **(SYSACC if X >= PRAGUE else {})}), {}, [(genesis(X, number=0, extra_data=who.encode()), [], [], [])])
                try:
                    for who, k in zip(pat, ks):
                        nn[who] = self.step(ch[who], k, nn[who])
                except Mismatch as e:
                    raise Mismatch(f"chains of {NAMES[F]} (P) and {NAMES[G]} (Q), steps {list(zip(pat, ks))}: {e}")
                for P in ch.values():
                    for ib, b in zip(P.i.blocks[1:], P.m.blocks[1:]):
                        if bytes(irlp.encode(ib)) != P.m.block_rlp(*b):
                            raise Mismatch(f"{NAMES[P.F]}: a block was changed by importing it")
                    digs += P.digs
                    n += P.n
        return Result(digs, n, n)

    # ---------------------------------------------------------- short-lived codes
    def r_reuse(self, F, k, th):
        digs, n, c = [], 0, 0
        for ks in itertools.product(range(len(INITS)), repeat=4 if th else 3):
            ks = (k,) + ks
            code = b"".join(asm(int.from_bytes(INITS[x], "big"), 0, "MSTORE", 32, 0, i, "CREATE", "POP") for i, x in enumerate(ks))
            try:
                d, s, _ = diff.run_case(case(F, world({W: (1, 1000, code + b"\x00")}), [tx(F, W, gas=1_000_000)]))
            except Mismatch as e:
                raise Mismatch(f"{NAMES[F]}: one call creates contracts from {[INITS[x].hex() for x in ks]} in turn: {e}")
            digs += d
            n += s
            c += 1
        return Result(digs, n, c)

    # ---------------------------------------------------------- set orders
    def r_order(self, F, p, th):
        env = {**os.environ, "PYTHONHASHSEED": str(seeds()[tuple(p)])}
        r = subprocess.run([sys.executable, os.path.abspath(__file__), "--orders", str(F), json.dumps(list(p)), str(int(th))], env=env, capture_output=True, text=True, timeout=1500)
        if r.returncode:
            raise Mismatch(f"{NAMES[F]}, sets walked in order {p}: the process failed: {r.stderr[-1500:]}")
        o = json.loads(r.stdout)
        if "mismatch" in o:
            raise Mismatch(f"{NAMES[F]}, sets walked in order {p}: {o['mismatch']}")
        return Result([bytes.fromhex(x) if isinstance(x, str) else x for x in o["digests"]], o["n"], o["cases"])


def orders(F, p, th):
    """Runs in its own process with its own hash seed."""
    fk = real.fork(F)
    got = tuple(bytes(x)[-1] - 0x20 for x in {fk.types.Address(t) for t in T})
    if got != p:
        raise AssertionError(f"harness: order {got}, wanted {p}")
    digs, n, k = [], 0, 0
    for code, access in programs(F, th):
        acc = {t: (1, 5 + i, killer(i)) for i, t in enumerate(T)}
        acc.update({z: (0, 0, b"") for z in Z} if F < PARIS else {})
        acc[W] = (1, 1000, b"".join(code) + b"\x00")
        sto = {t: {0: 1, 1: 2} for t in T}
        kw = dict(kind=1, access=access) if access else {}
        try:
            d, s, _ = diff.run_case(case(F, world(acc), [tx(F, W, **kw), tx(F, T[2], data=bytes(12) + T[0], value=3, nonce=1)], sto=sto))
        except Mismatch as e:
            return {"mismatch": f"{b''.join(code).hex()} access {access}: {e}"}
        digs += d
        n += s
        k += 1
    return {"digests": [x.hex() if isinstance(x, bytes) else x for x in digs], "n": n, "cases": k}


if __name__ == "__main__":
    if sys.argv[1:2] == ["--orders"]:
        print(json.dumps(orders(int(sys.argv[2]), tuple(json.loads(sys.argv[3])), bool(int(sys.argv[4])))))
        raise SystemExit
    raise SystemExit(main(C()))
