"""Development aid: systematic small mutations of the implementation, to find what the checks miss.

mutate.py FILEGLOB... [--every K] [--offset O] [--out LOG] [--par P]
Each mutant is a scratch copy of src with one AST change; the checks for the file run on it, restricted to its fork.
"""
import argparse, ast, copy, glob, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src"
ATTR = [("caller", "current_target"), ("gas", "value"), ("nonce", "balance"), ("gas_left", "refund_counter"), ("gas_limit", "gas_used")]


def sites(tree):
    """Yield functions that mutate a fresh copy of the tree at one place (given node index)."""
    nodes = list(ast.walk(tree))
    out = []
    for i, n in enumerate(nodes):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            alt = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn],
                   ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}[type(n.ops[0])]
            for a in alt:
                out.append((i, f"cmp {type(n.ops[0]).__name__}->{a.__name__}", lambda m, a=a: m.ops.__setitem__(0, a())))
        elif isinstance(n, ast.BoolOp):
            out.append((i, "boolop", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And())))
            for k in range(len(n.values)):
                out.append((i, f"drop operand {k}", lambda m, k=k: m.values.pop(k)))
        elif isinstance(n, ast.BinOp):
            sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd,
                  ast.BitXor: ast.BitOr, ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.Pow: ast.Mult}.get(type(n.op))
            if sw:
                out.append((i, f"bin {type(n.op).__name__}->{sw.__name__}", lambda m, sw=sw: setattr(m, "op", sw())))
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            out.append((i, f"const {n.value}+1", lambda m: setattr(m, "value", m.value + 1)))
            if n.value > 0:
                out.append((i, f"const {n.value}-1", lambda m: setattr(m, "value", m.value - 1)))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            out.append((i, f"bool {n.value}", lambda m: setattr(m, "value", not m.value)))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append((i, "drop not", lambda m: setattr(m, "op", ast.UAdd()) or setattr(m, "operand", ast.Call(ast.Name("bool", ast.Load()), [m.operand], []))))
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            for a, b in ATTR:
                if n.attr in (a, b):
                    out.append((i, f"attr .{n.attr}", lambda m, a=a, b=b: setattr(m, "attr", b if m.attr == a else a)))
        if hasattr(n, "body") and isinstance(n.body, list) and isinstance(n, (ast.FunctionDef, ast.If, ast.For, ast.While, ast.Try)):
            for fld in ("body", "orelse"):
                for k, s in enumerate(getattr(n, fld, [])):
                    if isinstance(s, ast.AugAssign) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) or isinstance(s, ast.Raise) or isinstance(s, ast.If):
                        out.append((i, f"drop stmt: {ast.unparse(s)[:60]!r}", lambda m, fld=fld, k=k: getattr(m, fld).__setitem__(k, ast.Pass())))
            if isinstance(n, ast.If):
                out.append((i, "negate if", lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test))))
    return nodes, out


def checks_for(rel):
    b = os.path.basename(rel)
    d = rel.split("/")
    if d[0] == "ethereum_optimized":
        return ["C23", "C24"]
    if d[0] == "ethereum_spec_tools":
        return {"t8n": ["C26", "C27"], "b11r": ["C26"], "loaders": ["C33", "C26"]}.get(d[2] if len(d) > 3 else "", ["C29"] if "lint" in rel or "new_fork" in rel or "patch" in rel else ["C31"] if b == "sync.py" else ["C32"] if b == "docc.py" else ["C25", "C33"] if b == "forks.py" else ["C34", "C26"] if b == "daemon.py" else ["C26", "C27"])
    if len(d) == 2 or d[1] in ("utils", "crypto"):
        return {"trace.py": ["C27"], "ethash.py": ["C24"], "hash.py": ["C28"], "blake2.py": ["C28", "C11"], "alt_bn128.py": ["C11"], "kzg.py": ["C11"], "genesis.py": ["C25"], "fork_criteria.py": ["C25"]}.get(b, ["C28", "C11", "C24", "C14"])
    if "precompiled" in rel:
        return ["C11", "C03", "C30"]
    if "instructions" in rel:
        first = {"arithmetic.py": ["C01"], "bitwise.py": ["C01"], "comparison.py": ["C01"], "keccak.py": ["C01"], "block.py": ["C04"], "environment.py": ["C04", "C08", "C20"],
                 "storage.py": ["C07", "C10"], "system.py": ["C05", "C06", "C09", "C20"]}.get(b, [])
        return first + ["C03", "C02", "C05", "C08", "C30"]
    if "/vm/" in rel:
        return {"gas.py": ["C03", "C07", "C16", "C13", "C12", "C11"], "eoa_delegation.py": ["C20", "C08"], "interpreter.py": ["C05", "C06", "C09", "C02", "C03", "C20", "C13"],
                "runtime.py": ["C02"], "__init__.py": ["C05", "C07", "C08", "C09", "C17"], "memory.py": ["C02", "C03"], "stack.py": ["C02"]}.get(b, ["C02"]) + ["C30"]
    return {"fork.py": ["C12", "C13", "C15", "C16", "C17", "C18", "C19", "C20", "C09", "C07", "C08", "C25"], "state.py": ["C21", "C05", "C06", "C09", "C13", "C22", "C17"], "trie.py": ["C22", "C17"],
            "bloom.py": ["C17"], "transactions.py": ["C14", "C12", "C17"], "requests.py": ["C19"], "blocks.py": ["C17", "C14"], "dao.py": ["C25"]}.get(b, ["C06", "C12", "C05", "C25", "C14"])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("files", nargs="+")
    ap.add_argument("--every", type=int, default=1)
    ap.add_argument("--offset", type=int, default=0)
    ap.add_argument("--out", default="/tmp/mutate.log")
    ap.add_argument("--par", type=int, default=4)
    ap.add_argument("--jobs", type=int, default=2)
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    work = []
    for g in a.files:
        for f in sorted(glob.glob(os.path.join(SRC, g))):
            rel = os.path.relpath(f, SRC)
            tree = ast.parse(open(f).read())
            nodes, s = sites(tree)
            for k, (i, desc, fn) in enumerate(s):
                work.append((rel, k, i, desc, getattr(nodes[i], "lineno", 0)))
    work = work[a.offset::a.every]
    print(len(work), "mutants")
    if a.list:
        return
    T = tempfile.mkdtemp(prefix="mut-", dir="/tmp")

    def one(job):
        rel, k, i, desc, line = job
        tree = ast.parse(open(os.path.join(SRC, rel)).read())
        nodes, s = sites(tree)
        s[k][2](nodes[i])
        try:
            txt = ast.unparse(ast.fix_missing_locations(tree))
        except Exception as e:
            return
        R = tempfile.mkdtemp(dir=T)
        try:
            subprocess.run(["cp", "-a", SRC, R], check=True)
            open(os.path.join(R, "src", rel), "w").write(txt)
            env = dict(os.environ, VERIF_REPO=R, VERIF_FAILFAST="1", VERIF_JOBS=str(a.jobs), VERIF_EVIDENCE=os.path.join(R, "ev"), VERIF_HANG="60")
            d = rel.split("/")
            if d[0] == "ethereum" and len(d) > 2 and d[1] not in ("utils", "crypto"):
                env["VERIF_FORKS"] = d[1]
            res = "SURVIVED"
            for c in checks_for(rel):
                p = subprocess.run(["bash", os.path.join(ROOT, "run.sh"), c], env=env, capture_output=True, text=True)
                if p.returncode:
                    res = f"killed {c}" if "VIOLATION" in p.stdout else f"ERROR {c} rc={p.returncode}"
                    break
            with open(a.out, "a") as f:
                f.write(f"{res} | {rel}:{line} [{k}] {desc}\n")
        finally:
            shutil.rmtree(R, ignore_errors=True)

    with ThreadPoolExecutor(a.par) as ex:
        list(ex.map(one, work))
    shutil.rmtree(T, ignore_errors=True)


if __name__ == "__main__":
    main()
