"""C34: what a tool run gives depends only on its own request; the daemon serves until it is idle."""
import contextlib
import gc
import importlib
import io
import itertools
import json
import os
import pickle
import pkgutil
import shutil
import socket
import socketserver
import sys
import tempfile
import threading
import time

from http.server import BaseHTTPRequestHandler

from explore import Check, Result, main
from drv import diff
from drv.diff import Mismatch
import c26
from c26 import base_env, jalloc, jenv, label, world, h, model
from ref.forks import *  # noqa
from ethereum import trace
from ethereum_spec_tools import evm_tools as tools
from ethereum_spec_tools.evm_tools import daemon

T8 = c26.C()
FEW = (FRONTIER, LONDON, OSAKA)
FORKS = (FRONTIER, BYZANTIUM, BERLIN, LONDON, SHANGHAI, CANCUN, PRAGUE, OSAKA)
TXS = {"a": ("sto", "fail", "log"), "b": ("new", "nonce+", "xfer")}
# symbol: (how, fork, transactions, what the client does afterwards)
T8N = ["plain", "trace", "trace-", "count", "both", "count+file", "missing"]
DMN = ["plain", "trace", "count", "both", "query", "json", "key", "fork", "nobase", "length", "arg"]


class Ambient:
    """A tracer the caller installed before."""

    def __init__(self):
        self.n = 0

    def __call__(self, evm, event):
        self.n += 1


def inputs(F, txs):
    env, acc = base_env(F), world(F)
    ts, marks = T8.txlist(F, TXS[txs])
    return {"env": jenv(F, env), "alloc": jalloc(acc, {}), "txs": T8.notation(F, ts, marks, 0)}


def tree(d):
    out = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(p, f), "rb") as x:
                out[os.path.relpath(os.path.join(p, f), d)] = x.read()
    return out


def perform(sym, d):
    """One request; d: its own directory.  Gives everything the client sees."""
    how, F, txs = sym[:3]
    out, err = io.StringIO(), io.StringIO()
    olderr, sys.stderr = sys.stderr, err
    try:
        try:
            if how.startswith("t8n "):
                m = how[4:]
                base = d if m != "missing" else os.path.join(d, "none")
                a = ["t8n", "--state.fork", label(F), "--input.alloc=stdin", "--input.env=stdin", "--input.txs=stdin", "--output.alloc=stdout", "--output.result=stdout", "--output.body=stdout",
                     "--output.basedir", base]
                a += {"trace": ["--trace", "--trace.memory", "--trace.returndata"], "trace-": ["--trace", "--trace.nostack"], "count": ["--opcode.count", "stdout"], "count+file": ["--opcode.count", "n.json"],
                      "both": ["--trace", "--opcode.count", "stdout"], "missing": ["--trace"]}.get(m, [])
                rc = tools.main(a, out, io.StringIO(json.dumps(inputs(F, txs))))
            elif how.startswith("daemon "):
                rc, t = request(how[7:], F, txs, d)
                out.write(t)
            elif how.startswith("st"):
                i = inputs(F, "a")
                env, acc = base_env(F), world(F)
                env["hashes"] = []
                je = jenv(F, env)
                for x in ("withdrawals", "blockHashes", "parentBeaconBlockRoot", "parentHash"):
                    je.pop(x, None)
                je["previousHash"] = "0x" + "5e" * 32
                tx = {"nonce": "0x0", "gasPrice": "0x1388", "gasLimit": ["0x30d40", "0x5208"], "to": h(c26.LOG), "value": ["0x0"], "data": ["0x0100"], "secretKey": "0x%064x" % c26.K1}
                p = os.path.join(d, "in.json")
                with open(p, "w") as f:
                    json.dump({"t": {"env": je, "pre": jalloc(acc, {}), "transaction": tx, "post": {label(F): [{"hash": "0x" + "00" * 32, "indexes": {"data": 0, "gas": g, "value": 0}} for g in (0, 1)]}}}, f)
                rc = tools.main(["statetest", p] + (["--json"] if how == "stj" else []), out, io.StringIO())
            elif how == "b11r":
                hd = {"parentHash": "0x" + "11" * 32, "stateRoot": "0x" + "22" * 32, "number": "0x1", "gasLimit": "0x1000", "difficulty": "0x20000", "extraData": "0x", "timestamp": "0x5",
                      "receiptsRoot": "0x" + "33" * 32, "transactionsRoot": "0x" + "44" * 32, "gasUsed": "0x0", "logsBloom": "0x" + "00" * 256, "miner": "0x" + "55" * 20, "mixHash": "0x" + "00" * 32, "nonce": "0x" + "00" * 8}
                rc = tools.main(["b11r", "--input.header=stdin", "--input.ommers=stdin", "--input.txs=stdin", "--output.block=stdout", "--output.basedir", d], out,
                                io.StringIO(json.dumps({"header": hd, "ommers": [], "uncles": [], "txs": "0xc0", "withdrawals": []})))
            else:
                raise AssertionError(how)
        except (Exception, SystemExit) as e:
            rc = type(e).__name__
    finally:
        sys.stderr = olderr
    return rc, out.getvalue(), err.getvalue()


def request(m, F, txs, d):
    req = {"input": inputs(F, txs), "state": {"fork": label(F), "chainid": 1, "reward": 7}}
    if m in ("trace", "both"):
        req.update({"trace": True, "output-basedir": d})
    if m == "nobase":
        req["trace"] = True
    if m in ("count", "both"):
        req["count-opcodes"] = True
    if m == "key":
        del req["input"]
    if m == "fork":
        req["state"]["fork"] = "Nowhere"
    body = json.dumps(req)
    if m == "json":
        body = body[:-1]
    q = "/?arg=--state.reward%3D5&arg=--output.basedir%3D" + d.replace("/", "%2F") if m == "query" else "/?arg=--state.reward%3Dx" if m == "arg" else "/"
    head = f"POST {q} HTTP/1.0\r\n" + (f"Content-Length: {len(body)}\r\n" if m != "length" else "") + "\r\n"
    a, b = socket.socketpair()
    a.settimeout(60)
    b.settimeout(60)
    got = []

    b.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 20)
    a.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 1 << 20)
    a.sendall(head.encode() + body.encode())

    def client():
        while True:
            x = a.recv(65536)
            if not x:
                return
            got.append(x)
    th = threading.Thread(target=client)
    th.start()
    exc = None
    try:
        own_class(BaseHTTPRequestHandler)(b, ["local", 0], None)
    except Exception as e:
        exc = type(e).__name__
    except SystemExit:
        exc = "END"         # the server lets this through: the daemon is gone
    finally:
        b.setblocking(False)
        with contextlib.suppress(OSError):
            while b.recv(65536):    # what the handler left unread
                pass
        b.close()
        th.join()
        a.close()
    t = b"".join(got).decode()
    return exc, "\n".join(x for x in t.split("\r\n") if not x.startswith(("Date:", "Server:")))


def history(syms, top):
    """Runs a sequence of requests in this process; what each gives, and whether it touched anything else."""
    amb = Ambient()
    trace.set_evm_trace(amb)
    cwd = os.path.join(top, "cwd")
    os.mkdir(cwd)
    os.chdir(cwd)
    outs, kept = [], {}
    for i, s in enumerate(syms):
        d = os.path.join(top, "d%d" % i)
        os.mkdir(d)
        n0 = amb.n
        r = perform(s, d)
        mine = tree(d)
        text = lambda x: x.replace(d, "<dir>") if isinstance(x, str) else x
        for j, t in kept.items():
            p = os.path.join(top, "d%d" % j)
            now = tree(p) if os.path.isdir(p) else None
            if now != t:
                return ("touched", i, j, sorted(k for k in set(now or ()) | set(t or ()) if (now or {}).get(k) != (t or {}).get(k)))
        outs.append((tuple(text(x) for x in r), mine, tree(cwd), amb.n - n0))
        if s[3] == "rm":
            shutil.rmtree(d)
            kept[i] = None
        else:
            kept[i] = mine
        for f in os.listdir(cwd):
            os.unlink(os.path.join(cwd, f))
    return ("ok", outs)


def child(f, *a):
    """f in a forked copy of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            try:
                x = pickle.dumps(f(*a))
            except BaseException as e:
                x = pickle.dumps(("error", f"{type(e).__name__}: {e}"))
            os.close(r)
            with os.fdopen(w, "wb") as o:
                o.write(x)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as i:
        x = i.read()
    os.waitpid(pid, 0)
    if not x:
        return ("error", "the process ended")
    return pickle.loads(x)


def own_class(base):
    """The daemon module's class of this kind, whatever its name."""
    found = [v for v in vars(daemon).values() if isinstance(v, type) and issubclass(v, base) and v.__module__ == daemon.__name__]
    return [v for v in found if not any(v in w.__mro__[1:] for w in found)][0]


# ---------------------------------------------------------------- the daemon's life
class Clock:
    """Virtual time and a scheduler for the threads that use it; every call is a scheduling point."""
    END = 1000.0

    def __init__(self, script):
        self.now, self.cv, self.wake, self.turn, self.script, self.taken = 1000.0, threading.Condition(), {}, threading.current_thread(), list(script), []
        self.main, self.widths = self.turn, []

    def pick(self):
        live = {t: w for t, w in self.wake.items() if t.is_alive()}
        if not live:
            return None
        lo = min(live.values())
        if lo > self.now:
            self.now = lo
        ready = sorted((t for t, w in live.items() if w <= self.now), key=lambda t: t is not self.main)
        k = len(self.widths)
        c = self.script[k] if k < len(self.script) else 0
        self.widths.append(len(ready))
        return ready[c]

    def point(self, dt):
        me = threading.current_thread()
        with self.cv:
            self.wake[me] = self.now + dt
            if self.turn is me:
                self.turn = self.pick()
            else:
                self.turn = self.turn      # a thread that only starts
            self.cv.notify_all()
            while self.turn is not me:
                self.cv.wait(0.0005)
                if self.turn is not None and not self.turn.is_alive():
                    self.wake.pop(self.turn, None)
                    self.turn = self.pick()
                    self.cv.notify_all()
        if self.now > 1000 + self.END and me is not self.main:
            raise SystemExit

    def sleep(self, dt):
        self.point(dt)

    def monotonic(self):
        x = self.now
        if self.wake:
            self.point(0)
        return x


def life(T, reqs, script):
    """The daemon with the given arrivals [(gap, duration, fails)]; gives (events, branching)."""
    top = tempfile.mkdtemp(prefix="c34-")
    ck = Clock(script)
    ev, died = [], []
    S = own_class(socketserver.BaseServer)
    saved = (S.serve_forever, S.shutdown, time.sleep, time.monotonic, S.__dict__.get("process_request"), threading.excepthook)
    own_sr = S.__dict__.get("shutdown_request")
    stop, idle = threading.Event(), []
    before = set(threading.enumerate())

    class Handler:
        def __init__(self, request, addr, server):
            ck.sleep(request[0])
            if request[1]:
                raise ValueError("a failing request")

    def serve(self, *a, **k):
        """Stands in for the accept loop: one request at a time, ends when told to."""
        new = [t for t in threading.enumerate() if t not in before]
        t0 = time_real()
        while any(t.is_alive() and t not in ck.wake for t in new) and time_real() - t0 < 20:
            sleep_real(0.0002)
        self.RequestHandlerClass = Handler
        at = ck.now
        for gap, dur, fails in reqs:
            arrival = at = at + gap
            if ck.now < arrival:
                wait(arrival - ck.now)
            if stop.is_set():
                break
            ev.append(("start", ck.now))
            try:
                self.process_request((dur, fails), ["local", 0])
            except ValueError:
                pass
            ev.append(("end", ck.now))
            at = max(at, ck.now)
        if not stop.is_set():
            wait(1000 + ck.END - ck.now)
        ev.append(("closed", ck.now))

    def wait(dt):
        idle.append(1)
        ck.sleep(dt)
        idle.clear()

    def shutdown(self):
        ev.append(("shutdown", ck.now))
        stop.set()
        if idle:
            ck.wake[ck.main] = ck.now

    time_real, sleep_real = time.monotonic, time.sleep
    fake = {id(time.sleep): ck.sleep, id(time.monotonic): ck.monotonic}
    mods = [(daemon, k, v) for k, v in vars(daemon).items() if id(v) in fake]
    try:
        S.serve_forever, S.shutdown = serve, shutdown
        S.shutdown_request = lambda self, request: None     # requests are stand-ins
        threading.excepthook = lambda a: died.append(a.exc_type.__name__) if a.exc_type is not SystemExit else None
        # only the daemon's own calls see the virtual clock
        class Time:
            sleep, monotonic = staticmethod(ck.sleep), staticmethod(ck.monotonic)

            def __getattr__(self, k):
                return getattr(time, k)
        swaps = [(k, v) for k, v in vars(daemon).items() if v is time]
        for k, _ in swaps:
            setattr(daemon, k, Time())
        for m, k, v in mods:
            setattr(m, k, fake[id(v)])
        try:
            p = os.path.join(top, "s")
            with open(p, "w"):
                pass                # a stale socket file is replaced
            args = ["daemon", "--uds", p] + ([] if T is None else ["--timeout", str(T)])
            rc = tools.main(args, io.StringIO(), io.StringIO())
        finally:
            for k, v in swaps:
                setattr(daemon, k, v)
            for m, k, v in mods:
                setattr(m, k, v)
        # release the timer
        with ck.cv:
            ck.now = 1001 + ck.END
        for t in [t for t in threading.enumerate() if t not in before]:
            while t.is_alive():
                with ck.cv:
                    ck.turn = t
                    ck.now = max(ck.now, 1001 + ck.END)
                    ck.cv.notify_all()
                t.join(0.001)
    finally:
        S.serve_forever, S.shutdown = saved[:2]
        if own_sr is None:
            del S.shutdown_request
        else:
            S.shutdown_request = own_sr
        threading.excepthook = saved[5]
        shutil.rmtree(top, ignore_errors=True)
    if rc:
        raise Mismatch(f"the daemon returned {rc}")
    return ev, ck.widths, died


def judge(T, reqs, ev, died):
    what = f"timeout {T}, requests (gap, duration, fails) {reqs}: {ev}"
    if died:
        raise Mismatch(f"{what}: the timer ended with {died}")
    busy, last = False, None
    for k, t in ev:
        if k == "start":
            busy = True
        elif k == "end":
            busy, last = False, t
        elif k == "shutdown":
            if not T:
                raise Mismatch(f"{what}: stopped without a timeout")
            if busy:
                raise Mismatch(f"{what}: told to stop while answering a request")
            if t - (last or 1000) <= T:
                raise Mismatch(f"{what}: stopped after {t - (last or 1000)} s")
        elif k == "closed" and T:
            if not any(x[0] == "shutdown" for x in ev):
                raise Mismatch(f"{what}: never stopped")
            idle = t - (last if last is not None else 1060.0)
            if idle > T + 25:
                raise Mismatch(f"{what}: stopped only after {idle} s without requests")
    served = sum(k == "end" for k, _ in ev)
    if served < len(reqs) and not any(k == "shutdown" for k, _ in ev):
        raise Mismatch(f"{what}: served {served} requests")


class C(Check):
    pid = "C34"
    rule = ("every sequence of up to N requests in one process over the request alphabet (transition tool: plain, traced, counted, both, into a missing directory; state-test runner with and without trace; "
            "block builder; daemon requests: plain, traced, counted, with arguments, and five malformed ones; forks; the client keeping or removing its directory): every request gives the output, "
            "the error, the files, and the events to a tracer installed by the caller, that it gives alone in a fresh process, and touches nothing of the requests before.  Daemon: every sequence of up to "
            "M requests over gaps, durations and failures, every timeout, and every interleaving of its timer with the serving loop in virtual time.  A state is a distinct (request, outcome) or (events)")
    bounds = {"quick": "N = 2 over the alphabet at three forks (3 over the six telling ones at two); M = 2, six timeouts, one departure from the default order", "thorough": "N = 2 at eight forks, 3 over the full alphabet at one fork; M = 3, two departures"}
    assumptions = ["requests are judged alone by C26 and C27", "log lines are not compared", "the accept loop of the standard library serves one request at a time and stops when told to"]

    def alphabet(self, forks, small=False):
        for F in forks:
            for tx in ("a", "b"):
                if small and tx == "b":
                    continue
                for m in T8N if not small else ("plain", "trace", "count"):
                    yield ("t8n " + m, F, tx, "")
                    if m in ("trace", "both"):
                        yield ("t8n " + m, F, tx, "rm")
                for m in DMN if not small else ("plain", "trace"):
                    if tx == "a" or m in ("plain", "trace"):
                        yield ("daemon " + m, F, tx, "")
                if tx == "a":
                    yield ("st", F, tx, "")
                    if not small:
                        yield ("stj", F, tx, "")
                        yield ("b11r", F, tx, "")

    def cases(self, tier):
        th = tier == "thorough"
        big = list(self.alphabet(FORKS if th else FEW[1:2])) + list(self.alphabet(FEW[::2], True))
        for s in big:
            yield ("seq2", th, s)
        one = list(self.alphabet((SHANGHAI,), not th))
        for s in one:
            for t in one:
                yield ("seq3", th, s, t)
        for T in (None, 0, 1, 10, 30, 100):
            for r in self.reqs(th, True):
                yield ("life", T, r, th)

    def reqs(self, th, first=False):
        g, d = ((0, 11, 33, 66), (0, 1, 22, 45, 130))
        return [(a, b, c) for a in g for b in d for c in ((0, 1) if b in (1, 45) else (0,))]

    def run(self, d):
        self.digs, self.n = [], 0
        getattr(self, "r_" + d[0])(*d[1:])
        return Result(self.digs, self.n, self.n)

    _fresh = {}

    def setup(self):
        for F in FORKS:     # so that the forked processes need not
            p = importlib.import_module("ethereum." + NAMES[F])
            for m in pkgutil.walk_packages(p.__path__, p.__name__ + "."):
                importlib.import_module(m.name)
        tools.create_parser()
        gc.collect()
        gc.freeze()

    def go(self, syms):
        top = tempfile.mkdtemp(prefix="c34-")
        try:
            r = child(history, syms, top)
        finally:
            shutil.rmtree(top, ignore_errors=True)
        if r[0] == "touched":
            raise Mismatch(f"request {r[1]} of {syms} changed files of request {r[2]}: {r[3]}")
        if r[0] != "ok":
            raise Mismatch(f"requests {syms}: {r[1]}")
        return r[1]

    def fresh(self, s):
        if s not in self._fresh:
            o = self.go([s])[0]
            how = s[0].split()[-1]
            if how in ("plain", "count", "both", "trace", "query") and s[0] != "b11r":
                ok = o[0][0] in (0, None, "ValueError" if s[0].startswith("daemon") else 0) and '"stateRoot"' in o[0][1]
                if not ok or ("trace" in s[0] or "both" in s[0]) != any("trace-" in k for k in o[1]):
                    raise Mismatch(f"request {s} alone: {o[0][0]}, {o[0][1][:300]}, files {sorted(o[1])}")
            if o[0][0] == "END":
                raise Mismatch(f"request {s} ends the daemon")
            if s[0] in ("daemon json", "daemon key", "daemon nobase", "daemon length") and not o[0][1].startswith("HTTP/1.0 500"):
                raise Mismatch(f"request {s} alone: {o[0][1][:300]}")
            self._fresh[s] = o
        return self._fresh[s]

    def check(self, syms):
        got = self.go(syms)
        for i, (s, o) in enumerate(zip(syms, got)):
            w = self.fresh(s)
            for part, a, b in zip(("result", "own files", "files in the working directory", "events for the caller's tracer"), o, w):
                if a != b:
                    what = [k for k in set(a) | set(b) if a.get(k) != b.get(k)] if isinstance(a, dict) else f"{a!r:.400} against {b!r:.400}"
                    raise Mismatch(f"after {syms[:i]}, request {s}: {part} differ from a fresh process: {what}")
            self.digs.append(diff.digest((s, repr(o))))
        self.n += len(syms)

    def r_seq2(self, th, s):
        fk = FORKS if th else FEW[1:2]
        self.check([s, s])
        for t in list(self.alphabet(fk if not th else (s[1], FORKS[(FORKS.index(s[1]) + 3) % 8]))) if th or s[1] == FEW[1] else list(self.alphabet(FEW, True)):
            self.check([s, t])

    def r_seq3(self, th, s, t):
        for u in self.alphabet((SHANGHAI,), True):
            self.check([s, t, u])

    def r_life(self, T, r, th):
        seqs = [[r]] + [[r, x] for x in self.reqs(th)] + ([[]] if r[:2] == (0, 0) else [])
        if th:
            seqs += [[r, x, y] for x in self.reqs(th)[::2] for y in self.reqs(th)[::3]]
        for q in seqs:
            script = []
            while True:
                ev, widths, died = life(T, q, script)
                judge(T, q, ev, died)
                self.digs.append(diff.digest((T, repr(ev))))
                self.n += len(widths) + 1
                # next schedule: depth first over the scheduling points
                ch = script + [0] * (len(widths) - len(script))
                k = len(ch) - 1
                while k >= 0 and not (ch[k] + 1 < widths[k] and sum(map(bool, ch[:k])) < (2 if th else 1)):
                    k -= 1
                if k < 0:
                    break
                script = ch[:k] + [ch[k] + 1]


if __name__ == "__main__":
    raise SystemExit(main(C()))
