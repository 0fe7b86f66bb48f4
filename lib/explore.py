"""Bounded exhaustive explorer: strided parallel enumeration, evidence, replay, findings."""
import argparse
import hashlib
import itertools
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(ROOT, "evidence")
MAXV = 5
CRASH = (-4, -6, -8, -11)


def enc(x):
    if isinstance(x, (bytes, bytearray)):
        return {"b": bytes(x).hex()}
    if isinstance(x, tuple):
        return {"t": [enc(y) for y in x]}
    if isinstance(x, list):
        return [enc(y) for y in x]
    if isinstance(x, (set, frozenset)):
        return {"s": [enc(y) for y in sorted(x, key=repr)]}
    if isinstance(x, dict):
        return {"d": [[enc(k), enc(v)] for k, v in x.items()]}
    if x is None or isinstance(x, (int, str, float, bool)):
        return x
    return repr(x)


def dec(x):
    if isinstance(x, list):
        return [dec(y) for y in x]
    if isinstance(x, dict):
        (k, v), = x.items()
        if k == "b":
            return bytes.fromhex(v)
        if k == "t":
            return tuple(dec(y) for y in v)
        if k == "s":
            return set(dec(y) for y in v)
        return {dec(a): dec(b) for a, b in v}
    return x


class Result:
    """What running one case reports."""
    __slots__ = ("digests", "transitions", "traces")

    def __init__(self, digests, transitions, traces=1):
        self.digests, self.transitions, self.traces = digests, transitions, traces


class Hang(BaseException):
    """A case did not finish in time."""


FAST = bool(os.environ.get("VERIF_FAILFAST"))
HANG_S = int(os.environ.get("VERIF_HANG", "0"))


def _alarm(signum, frame):
    raise Hang()


class Violation(Exception):
    """Raised by a case runner; sig identifies the failing input for known findings."""

    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.sig = sig


class Check:
    """Subclass: pid, cases(tier) generator of picklable-by-enc cases, run(case) -> Result."""
    pid = "C00"
    level = "model_checking"
    rule = ""
    assumptions = []
    bounds = {}

    def cases(self, tier):
        raise NotImplementedError

    def run(self, case):
        raise NotImplementedError

    def setup(self):
        pass

    def sample(self, case):
        return json.dumps(enc(case))[:600]


def _worker(check, tier, k, n, chunk, q, deadline, cur, stop):
    try:
        signal.signal(signal.SIGALRM, _alarm)
        check.setup()
        seen = set()
        ev = tr = traces = 0
        total = 0
        viol = []
        nviol = 0
        samples = []
        capped = False
        groups = {}
        for i, case in enumerate(check.cases(tier)):
            total += 1
            if (i // chunk) % n != k:
                continue
            if FAST and (viol or stop.value):  # development aid
                stop.value = 1
                break
            if time.time() > deadline:
                capped = True
                break
            cur.value = i
            try:
                signal.alarm(HANG_S or (300 if tier == "quick" else 1500))
                r = check.run(case)
                signal.alarm(0)
                ev += 1
                tr += r.transitions
                traces += r.traces
                seen.update(r.digests)
                if len(samples) < 1 or (ev in (50, 400) and len(samples) < 3):
                    samples.append(check.sample(case))
            except Hang:
                ev += 1
                nviol += 1
                viol.append((i, enc(case), "the implementation did not finish this case", None))
            except Violation as e:
                signal.alarm(0)
                ev += 1
                nviol += 1
                if len(viol) < 200:
                    viol.append((i, enc(case), str(e), e.sig))
            except Exception as e:
                # every exception that is not a Violation: attribute it
                signal.alarm(0)
                from drv.diff import Mismatch
                ev += 1
                nviol += 1
                msg = str(e) if isinstance(e, Mismatch) else "unexpected " + traceback.format_exc(limit=-6)
                if len(viol) < 200:
                    viol.append((i, enc(case), msg, None))
                if nviol > 500:
                    break
        q.put((k, ev, tr, traces, seen, viol, nviol, samples, capped, total))
    except BaseException:
        q.put((k, traceback.format_exc()))


def load_findings():
    p = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(p):
        return json.load(open(p))
    return []


def main(check):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1))
    ap.add_argument("--replay")
    ap.add_argument("--chunk", type=int, default=1)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.replay:
        return replay(check, a.replay)
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    budget = 780 if tier == "quick" else float(os.environ.get("VERIF_BUDGET", "3300"))
    q = mp.Queue()
    n = max(1, a.jobs)
    cur = [mp.Value("q", -1) for _ in range(n)]
    stop = mp.Value("b", 0)
    ps = [mp.Process(target=_worker, args=(check, tier, k, n, a.chunk, q, t0 + budget, cur[k], stop)) for k in range(n)]
    for p in ps:
        p.start()
    got = []
    while len(got) < n:
        try:
            got.append(q.get(timeout=5))
        except Exception:
            for k, p in enumerate(ps):
                if p.exitcode not in (None, 0):
                    print(f"ERROR: worker died with {p.exitcode}")
                    for x in ps:
                        x.kill()
                    if p.exitcode in CRASH and cur[k].value >= 0:
                        # the code under test took the process down: the case it was running is the witness
                        case = next(c for i, c in enumerate(check.cases(tier)) if i == cur[k].value)
                        return report(check, tier, seed, t0, [(cur[k].value, enc(case), f"process killed by signal {-p.exitcode} while running this case", None)],
                                      0, 0, 0, set(), [], True, 1)
                    return 3
    for p in ps:
        p.join()
    bad = [g for g in got if len(g) == 2]
    if bad:
        # a failure outside any case (import error, setup): the code under test
        # could not even be driven
        print(bad[0][1])
        if os.environ.get("VERIF_SETUP_STRICT"):
            return 3
        return report(check, tier, seed, t0, [(0, None, "harness could not drive the implementation:\n" + bad[0][1], None)],
                      0, 0, 0, set(), [], False, 1)
    ev = sum(g[1] for g in got)
    tr = sum(g[2] for g in got)
    traces = sum(g[3] for g in got)
    seen = set().union(*[g[4] for g in got])
    viol = sorted((v for g in got for v in g[5]), key=lambda v: v[0])
    nviol = sum(g[6] for g in got)
    samples = [s for g in got for s in g[7]][:6]
    capped = any(g[8] for g in got)
    return report(check, tier, seed, t0, viol, ev, tr, traces, seen, samples, capped, nviol)


def report(check, tier, seed, t0, viol, ev, tr, traces, seen, samples, capped, nviol):
    known = [f for f in load_findings() if f.get("property") == check.pid and f.get("status") == "known"]
    left = []
    hit = {}
    for v in viol:
        f = next((f for f in known if v[3] is not None and f["sig"] == v[3]), None)
        if f:
            hit[f["sig"]] = f
        else:
            left.append(v)
    for f in known:
        if f["sig"] in hit:
            print(f"KNOWN-FINDING: property={check.pid} {f['what']}")
    cov = {
        "evaluations": ev,
        "distinct_nontrivial": len(seen),
        "states": len(seen),
        "transitions": tr,
        "traces_validated_against_impl": traces,
        "rule": check.rule,
        "samples": samples,
        "exhaustive": not capped,
        "bounds": check.bounds.get(tier, check.bounds) if isinstance(check.bounds, dict) else check.bounds,
    }
    evd = {"property": check.pid, "tier": tier, "seed": seed, "level": check.level, "coverage": cov,
           "assumptions": list(check.assumptions), "wall_s": round(time.time() - t0, 2), "violations": len(left)}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, f"{check.pid}.json"), "w") as f:
        json.dump(evd, f, indent=1)
    print(f"{check.pid} tier={tier} cases={ev} states={len(seen)} transitions={tr} traces={traces} "
          f"capped={capped} wall={evd['wall_s']}s violations={len(left)} (raw {nviol})")
    if not left:
        return 0
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    for j, v in enumerate(left[:MAXV]):
        p = os.path.join(d, f"{check.pid}-{j}.json")
        with open(p, "w") as f:
            json.dump({"property": check.pid, "case": v[1], "message": v[2],
                       "replay": f"bash /verif/run.sh {check.pid} --replay {p}"}, f, indent=1)
        print("--", v[2][:1500])
        print(f"VIOLATION property={check.pid} replay={p}")
    return 1


def replay(check, path):
    check.setup()
    j = json.load(open(path))
    if j["case"] is None:
        print(j["message"])
        return 1
    try:
        check.run(dec(j["case"]))
    except Exception as e:
        print("reproduced:", e)
        print(f"VIOLATION property={check.pid} replay={path}")
        return 1
    print("did not reproduce")
    return 0
