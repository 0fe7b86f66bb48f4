"""Confirm seeded bugs in scratch copies: plant.py [--full] ID...   (development aid; no check uses it)

For each: the patch applies to /repo's HEAD, everything imports, the demo passes on a
clean copy and fails on the patched one, the stable tests still pass (without --full,
those that take no ethash dataset).
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ST = [t.split("::", 1) for t in json.load(open("/opt/vp/BASELINE.json"))["stable"]]


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **(env or {}))
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def one(i, full):
    d = os.path.join(ROOT, "seeded", i)
    t = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    try:
        r = os.path.join(t, "repo")
        sh(f"cp -a {os.environ.get('SDREPO', '/repo')} {r}", "/")
        sh("git checkout -q -- .", r)
        dd = os.path.join(t, "demo")
        os.makedirs(dd)
        for f in os.listdir(d):
            if f not in ("patch.diff", "meta.json"):
                shutil.copy(os.path.join(d, f), dd)
        env = {"PYTHONPATH": f"{r}/src:/opt/vp/plugins"}
        c = sh(f"bash {dd}/demo.sh", r, env)
        if c.returncode:
            return i, "demo fails on the clean tree: " + (c.stdout + c.stderr)[-600:]
        a = sh(f"git apply --whitespace=nowarn {d}/patch.diff", r)
        if a.returncode:
            return i, "patch does not apply: " + a.stderr
        c = sh(f"bash {dd}/demo.sh", r, env)
        if not c.returncode:
            return i, "demo passes with the patch"
        tail = (c.stdout + c.stderr).strip().splitlines()[-1:]
        files = "tests/json_infra/test_genesis.py tests/json_infra/test_optimized_state.py tests/json_infra/test_tools.py tests/json_infra/test_trace.py"
        if full:
            files += " tests/json_infra/test_ethash.py tests/json_infra/test_ethash_general.py"
        c = sh(f"/opt/venv/bin/python -m pytest -q --tb=no -p eels_offline -p no:cacheprovider -rA --basetemp={t}/bt {files}", r, env)
        ok = {l.split(" ", 1)[1].strip() for l in c.stdout.splitlines() if l.startswith("PASSED")}
        want = [f"{m.replace('.', '/')}.py::{n}" for m, n in ST if full or "ethash" not in m]
        bad = [w for w in want if w not in ok]
        if bad:
            return i, f"tests fail: {bad[:3]} " + c.stdout[-300:]
        m = sh("PYTHONPATH=src /opt/venv/bin/python -m compileall -q src/ethereum >/dev/null; git status --short | head", r)
        return i, "ok   " + " ".join(tail)
    finally:
        shutil.rmtree(t, ignore_errors=True)


full = "--full" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
with ThreadPoolExecutor(6) as ex:
    for i, r in ex.map(lambda i: one(i, full), ids):
        print(i, r, flush=True)
