"""C29: the repository's own tools (fork copy, patch tool, lints) do exactly what they claim."""
import ast
import contextlib
import importlib
import io
import itertools
import os
import re
import shutil
import subprocess
import sys
import tempfile
import types

from checkbase import *
from explore import Check

from ethereum_spec_tools import lint as lintmod, new_fork, patch_tool
from ethereum_spec_tools.forks import Hardfork
from ethereum_spec_tools.lint import Diagnostic, Lint, Linter, compare_ast
from ethereum_spec_tools.lint.lints.glacier_forks_hygiene import GlacierForksHygiene
from ethereum_spec_tools.lint.lints.import_hygiene import ImportHygiene
from ethereum_spec_tools.lint.lints.patch_hygiene import PatchHygiene

Mismatch = diff.Mismatch
TITLES = [n.replace("_", " ").title() for n in NAMES]
NEW = ["Verkle", "Big New Fork", "A"]
WORD = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"

SNIPPETS = ["x = 1", "x = 2", "y = 1", "x: int = 1", "x: str = 1", "x: int", "x += 1", "f()", "f(1)", "f(a=1)", "f(*a)", "f(**a)", "'doc'", "'other doc'", "5", "b'x'",
            "def f():\n  pass", "def f():\n  'doc'", "def f():\n  'other'", "def f():\n  'doc'\n  pass", "def f(a):\n  pass", "def f(a=1):\n  pass", "def f(a: int):\n  pass", "def f() -> int:\n  pass",
            "@d\ndef f():\n  pass", "def f():\n  return 1", "def f():\n  return 2", "def f():\n  return 1\n  return 2", "def g():\n  pass", "async def f():\n  pass", "class F:\n  pass", "class F(G):\n  pass",
            "class F:\n  x = 1", "class F:\n  'doc'\n  x = 1", "class F:\n  x = 2", "class F:\n  x = 1\n  y = 2", "class F:\n  y = 2\n  x = 1", "if x:\n  y = 1", "if x:\n  y = 1\nelse:\n  y = 2", "if x:\n  y = 2",
            "while x:\n  break", "while x:\n  continue", "for i in x:\n  pass", "for j in x:\n  pass", "x = (1, 2)", "x = [1, 2]", "x = {1: 2}", "x = {1: 3}", "x = a + b", "x = a - b", "x = b + a", "x = a < b", "x = a <= b", "x = a < b < c", "x = not a", "x = -a",
            "x = 'a'", "x = 'b'", "x = f'{a}'", "x = a.b", "x = a.c", "x = a[0]", "x = a[1]", "x = a[0:1]", "x = lambda: 1", "x = lambda: 2", "raise E", "raise E from F", "assert a", "assert a, b", "try:\n  a\nexcept E:\n  b", "try:\n  a\nexcept F:\n  b",
            "try:\n  a\nfinally:\n  b", "x = True", "x = 1.0", "x = None", "del x", "global x", "with a:\n  pass", "with a as b:\n  pass", "import a", "import b", "from a import b", "from a import c", "from .a import b", "return_ = 1", "x = yield_", "x = [i for i in a]", "x = [i for i in b]", "x = a if b else c", "x = c if b else a",
            "x = 1\ny = 1", "y = 1\nx = 1", "x = 1 # note", "x   =   1", "pass", ""]


def norm(tree):
    """Canonical text of a tree: standalone strings are comments."""
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            n.value = ast.Constant("comment")
    return ast.dump(tree)


def sub_words(text, pairs):
    """Replace each word-delimited occurrence, one pair after the other."""
    for a, b in pairs:
        out, i = [], 0
        while i < len(text):
            if text.startswith(a, i):
                before = i > 0 and text[i - 1] in WORD
                after = i + len(a) < len(text) and text[i + len(a)] in WORD
                if before != (a[0] in WORD) and after != (a[-1] in WORD):
                    out.append(b)
                    i += len(a)
                    continue
            out.append(text[i])
            i += 1
        text = "".join(out)
    return text


def tree(d):
    out = {}
    for p, ds, fs in os.walk(d):
        for x in ds:
            out[os.path.relpath(os.path.join(p, x), d) + "/"] = None
        for f in fs:
            q = os.path.join(p, f)
            out[os.path.relpath(q, d)] = open(q, "rb").read()
    return out


@contextlib.contextmanager
def scratch():
    d = os.path.realpath(tempfile.mkdtemp(prefix="c29-"))
    cwd = os.getcwd()
    argv = sys.argv
    try:
        os.chdir(d)
        yield d
    finally:
        sys.argv = argv
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def stub(name):
    f = Hardfork(types.ModuleType(name))
    return f


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


class C(Check):
    pid = "C29"
    rule = ("fork copy: every template fork x new names, every file compared with a rewritten copy, and probe transactions run on the copy; patch tool: every "
            "edit of a small alphabet x every combination of target deviations in a scratch git repository; lints: every (fork position x import form x imported fork), "
            "all orders/additions/removals of up to 5 identifiers, all ordered pairs of a snippet list for tree comparison, every mutation of a synthetic glacier fork; "
            "a state is a distinct (input, verdict)")
    bounds = {"quick": "18 templates x 3 names; 9 edits x 7 deviations; 5 identifiers; 98 x 98 snippets", "thorough": "as quick with 6 identifiers and pairs of edits"}
    assumptions = ["the new fork's name does not contain the template's name as a word", "import statements are absolute or stay inside the fork"]

    def cases(self, tier):
        q = tier == "quick"
        for F in ALL:
            for i in range(len(NEW)):
                yield ("fork", F, i)
            yield ("imports", F)
        yield ("forkedge",)
        n = 5 if q else 6
        for perm in itertools.permutations(range(3)):
            yield ("order", n, perm)
        yield ("members",)
        for i in range(0, len(SNIPPETS), 8):
            yield ("ast", i)
        for kind in ("muir_glacier", "arrow_glacier", "gray_glacier", "dao_fork", "istanbulx"):
            yield ("glacier", kind)
        for e in range(len(self.EDITS)):
            yield ("patch", (e,), False)
            if not q:
                for g in range(e + 1, len(self.EDITS)):
                    yield ("patch", (e, g), False)
        yield ("patch", (0,), True)
        yield ("patch", (2, 5), True)
        yield ("patchdao",)
        yield ("linter",)
        yield ("real",)

    def run(self, d):
        digs, n = getattr(self, "r_" + d[0])(*d[1:])
        return Result(list({diff.digest((d[0], x)) for x in digs}), n, n)

    # ------------------------------------------------------------- new fork
    def r_fork(self, F, i):
        name, new = TITLES[F], NEW[i]
        pkg, npkg = NAMES[F], new.replace(" ", "_").lower()
        with scratch() as d:
            src = os.path.join(real.SRC, "ethereum", pkg)
            shutil.copytree(src, f"src/ethereum/{pkg}", ignore=shutil.ignore_patterns("__pycache__"))
            write(f"src/ethereum/{pkg}/data.txt", f"{name} {pkg}\n")
            write(f"src/ethereum/other/x.py", f"{name} {pkg}\n")
            write(f"tests/{pkg}/test_a.py", f"{name} {pkg} {name.lower()} {pkg}x x{pkg} FixtureName _{name} {name}.{pkg} FixtureNames\n")
            write(f"tests/{pkg}/sub/__init__.py", "")
            write(f"tests/{pkg}/sub/d.json", f"{name}\n")
            before = tree(d)
            sys.argv = ["x", "--from_fork", name, "--to_fork", new]
            old, newt = name, new
            if i == 1:
                sys.argv += ["--from_test", "FixtureName", "--to_test", "Other Fixture"]
                old, newt = "FixtureName", "Other Fixture"
            with contextlib.redirect_stdout(io.StringIO()):
                new_fork.main()
            after = tree(d)
            pairs = [(name, new), (pkg, npkg), (name.lower(), new.lower())]
            want = dict(before)
            for root, ps in (("src/ethereum/", pairs), ("tests/", [(old, newt)] + pairs)):
                for p, c in before.items():
                    if p.startswith(root + pkg + "/"):
                        q = root + npkg + p[len(root + pkg):]
                        want[q] = sub_words(c.decode(), ps).encode() if p.endswith(".py") else c
            if set(want) != set(after):
                raise Mismatch(f"files: missing {sorted(set(want) - set(after))[:5]} extra {sorted(set(after) - set(want))[:5]}")
            for p in want:
                if want[p] != after[p]:
                    raise Mismatch(f"{p} differs: {first_diff(want[p], after[p])}")
            # the copy is a working fork: probe transactions agree with the model
            prog = ("import sys; sys.path[:0]=sys.argv[1:3]; import ethereum; ethereum.__path__.append(sys.argv[3])\n"
                    "from drv import real, diff; from scen import *; import ref.forks\n"
                    "F=int(sys.argv[4]); real.NAMES=dict(enumerate(real.NAMES)) if not isinstance(real.NAMES, dict) else real.NAMES; real.NAMES[F]=sys.argv[5]\n"
                    "assert real.fork(F).fork.__name__=='ethereum.'+sys.argv[5]+'.fork'\n"
                    "c=case(F, world({A(0):(1,5,asm(1,5,'SSTORE 7 0 MSTORE 32 0 LOG0')),A(1):(1,0,b'\\xfe')}),[tx(F,A(0),value=1),tx(F,A(1),nonce=1),tx(F,b'',data=initcode(b'\\x00'),nonce=2),tx(F,bytes(19)+b'\\x02',data=b'abc',nonce=3)])\n"
                    "diff.run_case(c)\n"
                    "for m in list(sys.modules):\n  assert not m.startswith('ethereum.'+sys.argv[6]), m\n")
            if i == 0:
                r = subprocess.run([sys.executable, "-c", prog, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"), real.SRC,
                                    d + "/src/ethereum", str(F), npkg, pkg + "."], capture_output=True, text=True)
                if r.returncode:
                    raise Mismatch("the new fork does not work: " + r.stderr[-800:])
            return {(F, new, len(want))}, len(want)

    def r_forkedge(self):
        n = 0
        cases = [("Foo", "Bar", "Foo foo FOO Foo_ _Foo Food xFoo Foo.foo foo_bar foo-bar (foo) \"foo\" foo's\n"),
                 ("Foo Bar", "Baz", "Foo Bar foo_bar foo bar foobar FooBar foo_bar_x foo bars Foo  Bar\n"),
                 ("Foo Bar", "Baz Qux", "`foo bar` ethereum.foo_bar.state FOO_BAR foo_Bar\n"), ("F1", "F2", "F1 F10 F1.F1 f1\nF1F1 é F1 ü\n"),
                 ("Foo", "Bar", ""), ("Foo", "Looooonger Name", "foo\n" * 50), ("A Very Long Name", "B", "a_very_long_name " * 20)]
        for f, t, text in cases:
            with scratch() as d:
                p, q = (x.replace(" ", "_").lower() for x in (f, t))
                write(f"src/ethereum/{p}/vm/a.py", text)
                write(f"src/ethereum/{p}/b.rst", text)
                write(f"src/ethereum/{p}/empty/x.pyx", text)
                write(f"tests/{p}/t.py", text)
                c = new_fork.ForkCreator(f, t, f, t)
                c.duplicate_fork()
                first = tree(d)
                for r in ("src/ethereum/", "tests/"):
                    a = {k[len(r + p):]: v for k, v in first.items() if k.startswith(r + p + "/")}
                    b = {k[len(r + q):]: v for k, v in first.items() if k.startswith(r + q + "/")}
                    if a != b:
                        raise Mismatch(f"duplicate_fork: {a} != {b}")
                c.update_new_fork_contents()
                after = tree(d)
                ps = [(f, t), (p, q), (f.lower(), t.lower())]
                for k, v in first.items():
                    w = sub_words(v.decode(), ps).encode() if k.endswith(".py") and (f"/{q}/" in k) else v
                    if after.get(k) != w:
                        raise Mismatch(f"{f} -> {t}: {k}: model {w!r} implementation {after.get(k)!r}")
                    n += 1
                if set(after) != set(first):
                    raise Mismatch("files changed")
                # copying onto an existing fork is refused and changes nothing
                try:
                    c.duplicate_fork()
                    raise Mismatch("an existing fork was overwritten")
                except FileExistsError:
                    pass
                if tree(d) != after:
                    raise Mismatch("a refused copy changed files")
                n += 1
        return {"edge"}, n

    # ------------------------------------------------------------- import lint
    def r_imports(self, pos):
        forks = [stub("ethereum." + n) for n in NAMES]
        li = ImportHygiene()
        n, out = 0, set()
        bodies = {}
        for t, nm in enumerate(NAMES):
            bad = t != pos - 1
            for form in ("import ethereum.{}", "import ethereum.{}.vm.gas", "import ethereum.{}.state as s", "from ethereum.{} import fork", "from ethereum.{}.vm.gas import x as y",
                         "def f():\n    from ethereum.{}.state import State", "class K:\n    import ethereum.{}.trie", "if True:\n    from ethereum.{} import vm",
                         "import os, ethereum.{}.state", "from ethereum import {}", "from ethereum import crypto, {} as z"):
                bodies[form.format(nm)] = bad
        for ok in ("import os", "from typing import List", "import ethereum", "from ethereum.crypto.hash import keccak256", "from ethereum import trace", "from . import vm", "from .state import State", "from .. import fork_types",
                   "from ..vm.gas import charge_gas", "x = 'import ethereum.osaka'", "# from ethereum.osaka import x", "from ethereum_types.numeric import Uint", "import ethereum_rlp", "from ethereum.exceptions import InvalidBlock"):
            bodies[ok] = False
        items = list(bodies.items())
        for src, bad in items:
            for pre in ("", "x = 1\n", "from ethereum.crypto.hash import Hash32\n\n"):
                got = li.check_import(forks, pos, ".m", pre + src + "\n")
                if len(got) != (1 if bad else 0):
                    raise Mismatch(f"{NAMES[pos]}: {src!r}: {len(got)} diagnostics, model {int(bad)}")
                n += 1
            out.add((pos, src, bad))
        # several statements: one diagnostic for each offender
        for k in range(0, len(items) - 4):
            part = items[k:k + 4]
            src = "\n".join(s for s, _ in part)
            got = li.check_import(forks, pos, ".m", src)
            if len(got) != sum(b for _, b in part):
                raise Mismatch(f"{NAMES[pos]}: {src!r}: {len(got)} diagnostics, model {sum(b for _, b in part)}")
            n += 1
        return out, n

    # ------------------------------------------------------------- order lint
    FORMS = ["{0} = 1", "{0}: int = 2", "def {0}():\n    q = 1", "class {0}:\n    pass", "async def {0}():\n    pass", "{0}: str"]

    def source(self, names, rot):
        out = []
        for k in names:
            out.append(self.FORMS[(k + rot) % len(self.FORMS)].format("abcdefg"[k]))
        return "\n\n".join(out) + "\n"

    @staticmethod
    def moved(cur, prev):
        """Items that come after an item they used to precede."""
        idx = {x: i for i, x in enumerate(prev)}
        seen, out = -1, []
        for x in cur:
            if x in idx:
                if idx[x] < seen:
                    out.append(x)
                seen = max(seen, idx[x])
        return out

    def r_order(self, n, head):
        li = PatchHygiene()
        k, out = 0, set()
        rest = range(3, n)
        base = list(range(n))
        for perm in itertools.permutations(base):
            if tuple(x for x in perm if x < 3) != tuple(head):
                continue
            for drop in (set(), {0}, {n - 1}, {1, 2}):
                for dropp in (set(), {2}, {0, n - 1}):
                    cur = [x for x in perm if x not in drop]
                    prev = [x for x in base if x not in dropp]
                    got = li.compare(".m", self.source(cur, 0), self.source(prev, 1 if len(drop) == 1 else 0))
                    want = self.moved(cur, prev)
                    if [re.search(r"`(\w+)`", g.message).group(1) for g in got] != ["abcdefg"[x] for x in want]:
                        raise Mismatch(f"order {prev} -> {cur}: model {want} implementation {[g.message for g in got]}")
                    if li.compare(".m", self.source(cur, 0), None):
                        raise Mismatch("a new file has diagnostics")
                    k += 2
                    out.add((tuple(cur), tuple(prev)))
        return out, k

    def r_members(self):
        li = PatchHygiene()
        n, out = 0, set()
        mem = ["x: int", "y = 2", "def f(self):\n        z = 1", "class In:\n        u = 1\n        v = 2"]
        names = [["K.x"], ["K.y"], ["K.f"], ["K.In", "K.In.u", "K.In.v"]]
        for p in itertools.permutations(range(4)):
            for q in itertools.permutations(range(4)):
                s = ["class K:\n" + "\n".join("    " + mem[i] for i in o) + "\n\nt, w = 1, 2\n" for o in (p, q)]
                cur, prev = (["K"] + [m for i in o for m in names[i]] + ["t", "w"] for o in (p, q))
                want = self.moved(cur, prev)
                got = [re.search(r"`([\w.]+)`", g.message).group(1) for g in li.compare(".m", s[0], s[1])]
                if got != want:
                    raise Mismatch(f"members {p} {q}: model {want} implementation {got}")
                n += 1
                out.add((p, q))
        for a, b, w in (("t, w = 1, 2", "w, t = 1, 2", 1), ("t = w = 1", "w = t = 1", 1), ("t = 1\nw = 1", "w, t = 2, 2", 1), ("t, w = 1, 2", "t = 1\nw = 2", 0)):
            if len(li.compare(".m", a, b)) != w:
                raise Mismatch(f"{a!r} {b!r}")
            n += 1
        return out, n

    # ------------------------------------------------------------- glacier lint
    def r_ast(self, lo):
        n, out = 0, set()
        T = [(s, norm(ast.parse(s))) for s in SNIPPETS]
        for i in range(lo, min(lo + 8, len(T))):
            for j in range(len(T)):
                want = T[i][1] == T[j][1]
                got = compare_ast(ast.parse(T[i][0]), ast.parse(T[j][0]))
                if got != want:
                    raise Mismatch(f"compare_ast({T[i][0]!r}, {T[j][0]!r}) = {got}")
                # the same inside a function and in a list of statements
                w = ["def w():\n  a = 1\n" + "".join("  " + x + "\n" for x in T[k][0].split("\n")) + "  z = 3\n" for k in (i, j)]
                if compare_ast(ast.parse(w[0]), ast.parse(w[1])) != want:
                    raise Mismatch(f"nested compare_ast({T[i][0]!r}, {T[j][0]!r})")
                n += 2
                out.add((i, j, want))
        return out, n

    BASE = {"fork": "'''doc'''\nimport os\nBOMB_DELAY_BLOCKS = 5000000\nLIMIT = 7\nN: int = 3\n\n\ndef apply_fork(x):\n    '''d'''\n    return x + 1\n\n\ndef validate_header(h):\n    return h\n\n\nclass S:\n    a: int = 1\n\n    def m(self):\n        return 2\n",
            "vm/__init__": "'''vm'''\nZ = 1\n", "vm/gas": "G = 4\nif G:\n    H = 5\nelse:\n    K = 6\n\n\n@deco\ndef g(a, b=2):\n    while a:\n        a -= b\n    return a\n\n\nasync def w(c):\n    return c + 9\n"}

    def r_glacier(self, name):
        delay = {"muir_glacier": 9000000, "arrow_glacier": 10700000, "gray_glacier": 11400000, "dao_fork": None}.get(name)
        on = name != "istanbulx"
        B = self.BASE
        good = {"fork": B["fork"].replace("5000000", str(delay or 5000000))}
        if name == "dao_fork":
            # the DAO fork has no bomb: neither has its predecessor
            B = dict(B, fork=B["fork"].replace("BOMB_DELAY_BLOCKS = 5000000\n", ""))
            good = {"fork": B["fork"]}

        def edit(f, a, b):
            return {f: (good.get(f) or B[f]).replace(a, b)}
        exc = name == "dao_fork"
        exa = name == "arrow_glacier"
        muts = [("same", {}, 0), ("comment", edit("fork", "LIMIT = 7", "LIMIT = 7  # note"), 0), ("doc", edit("fork", "'''d'''", "'''e'''"), 0), ("moddoc", edit("fork", "'''doc'''", "'''other'''"), 0),
                ("import", edit("fork", "import os", "import sys, re"), 0), ("fromimport", edit("fork", "import os", "from os import path"), 0),
                ("const", edit("fork", "LIMIT = 7", "LIMIT = 8"), 1), ("ann", edit("fork", "N: int = 3", "N: int = 4"), 1), ("anntype", edit("fork", "N: int = 3", "N: str = 3"), 1),
                ("body", edit("fork", "x + 1", "x + 2"), 0 if exc else 1), ("args", edit("fork", "apply_fork(x)", "apply_fork(x, y)"), 0 if exc else 1),
                ("validate", edit("fork", "return h", "return None"), 0 if exc or exa else 1),
                ("method", edit("fork", "return 2", "return 3"), 1), ("attr", edit("fork", "a: int = 1", "a: int = 2"), 1), ("base", edit("fork", "class S:", "class S(T):"), 1),
                ("addfn", {"fork": good["fork"] + "\n\ndef extra():\n    pass\n"}, 1), ("addconst", {"fork": good["fork"] + "\nE = 1\n"}, 1),
                ("base_fee", {"fork": good["fork"] + "\nINITIAL_BASE_FEE = 1\n"}, 0 if exa else 1),
                ("delfn", edit("fork", "LIMIT = 7\n", ""), 1), ("delcls", {"fork": good["fork"][:good["fork"].index("class S")]}, 1),
                ("reorder", edit("fork", "LIMIT = 7\nN: int = 3", "N: int = 3\nLIMIT = 7"), 0),
                ("addfile", {"extra": "X = 1\n"}, 1), ("daofile", {"dao": "X = 1\n"}, 0 if exc else 1), ("delfile", {"vm/gas": None}, 1), ("two", {"fork": (good["fork"]).replace("LIMIT = 7", "LIMIT = 8").replace("return 2", "return 3")}, 2),
                ("deco", edit("vm/gas", "@deco", "@other"), 1), ("async", edit("vm/gas", "c + 9", "c - 9"), 1), ("asyncdel", {"vm/gas": B["vm/gas"].split("\n\n\nasync")[0] + "\n"}, 1), ("unasync", edit("vm/gas", "async def", "def"), 1), ("loop", edit("vm/gas", "a -= b", "a += b"), 1), ("default", edit("vm/gas", "b=2", "b=3"), 1), ("ifbody", edit("vm/gas", "H = 5", "H = 6"), 1), ("elsebody", edit("vm/gas", "K = 6", "K = 7"), 1),
                ("vmconst", edit("vm/__init__", "Z = 1", "Z = 2"), 1)]
        if delay:
            muts += [("wrongdelay", edit("fork", str(delay), str(delay + 1)), 1), ("olddelay", edit("fork", str(delay), "5000000"), 1), ("nodelay", edit("fork", f"BOMB_DELAY_BLOCKS = {delay}\n", ""), 1)]
        n, out = 0, set()
        for k, (lab, ch, want) in enumerate(muts):
            root = f"c29syn_{name}_{k}_{os.getpid()}"
            with scratch() as d:
                write(f"{root}/__init__.py", "")
                for fork, files in (("prevx", B), (name, {**B, **good, **ch})):
                    write(f"{root}/{fork}/__init__.py", "'''x'''\n")
                    for f, t in files.items():
                        if t is not None:
                            write(f"{root}/{fork}/{f}.py", t)
                sys.path.insert(0, d)
                importlib.invalidate_caches()
                try:
                    forks = [Hardfork(importlib.import_module(f"{root}.{x}")) for x in ("prevx", name)]
                    # names such as deco are undefined at run time: define them
                    import builtins
                    for x in ("deco", "other", "T"):
                        setattr(builtins, x, (lambda f: f) if x != "T" else object)
                    try:
                        with contextlib.redirect_stdout(io.StringIO()):
                            got = GlacierForksHygiene().lint(forks, 1)
                            first = GlacierForksHygiene().lint(forks, 0)
                            patch = PatchHygiene().lint(forks, 1)
                            imp = ImportHygiene().lint(forks, 1)
                    finally:
                        for x in ("deco", "other", "T"):
                            delattr(builtins, x)
                finally:
                    sys.path.remove(d)
                    for m in [m for m in sys.modules if m.split(".")[0] == root]:
                        del sys.modules[m]
            w = want if on else 0
            if (len(got) != w) or first:
                raise Mismatch(f"{name} {lab}: model {w} diagnostics, implementation {[g.message for g in got]} and {len(first)} for the first fork")
            if len(patch) != (1 if lab == "reorder" else 0) or imp:
                raise Mismatch(f"{name} {lab}: order lint {[g.message for g in patch]}, import lint {[g.message for g in imp]}")
            n += 1
            out.add((name, lab, w))
        return out, n

    # ------------------------------------------------------------- linter
    def r_linter(self):
        n, out = 0, set()
        real_discover = Hardfork.discover
        forks = [stub("ethereum.f%d" % i) for i in range(3)]

        class L(Lint):
            def __init__(self, tab):
                self.tab, self.asked = tab, []

            def lint(self, forks, position):
                self.asked.append((len(forks), position))
                return [Diagnostic(f"m{position}.{j}") for j in range(self.tab[position])]
        try:
            lintmod.Hardfork.discover = classmethod(lambda cls, base=None: list(forks))
            for tabs in itertools.product(itertools.product((0, 1, 2), repeat=3), repeat=2):
                ls = [L(t) for t in tabs]
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf):
                    rc = Linter(ls).run()
                total = sum(map(sum, tabs))
                txt = buf.getvalue()
                if rc != (1 if total else 0):
                    raise Mismatch(f"linter returns {rc} for {tabs}")
                for l in ls:
                    if l.asked != [(3, 0), (3, 1), (3, 2)]:
                        raise Mismatch(f"lint asked for {l.asked}")
                if len(re.findall(r"m\d\.\d", txt)) != total or (total and f"{total}" not in txt.splitlines()[-1]):
                    raise Mismatch(f"linter prints {txt!r} for {tabs}")
                n += 1
                out.add(tabs)
            try:
                Linter([])
                raise Mismatch("no lints accepted")
            except Exception as e:
                if isinstance(e, Mismatch):
                    raise
        finally:
            Hardfork.discover = real_discover
            del L
            import gc
            gc.collect()
        return out, n

    def r_real(self):
        """All three lints are found and answer for every fork of the tree (what they find depends on how the tree is written)."""
        found = {type(x).__name__ for x in Linter.discover_lints()}
        if not {"GlacierForksHygiene", "ImportHygiene", "PatchHygiene"} <= found:
            raise Mismatch(f"lints found: {found}")
        forks = Hardfork.discover()
        n = 0
        for li in (GlacierForksHygiene(), ImportHygiene(), PatchHygiene()):
            for p in range(len(forks)):
                with contextlib.redirect_stdout(io.StringIO()):
                    got = li.lint(forks, p)
                if not all(isinstance(g, Diagnostic) for g in got):
                    raise Mismatch(f"{type(li).__name__} on {forks[p].name}: {got!r}")
                n += 1
        return {"real"}, n

    # ------------------------------------------------------------- patch tool
    LINES = [f"line {i}\n" for i in range(40)]
    EDITS = [("change", lambda L: L[:10] + ["changed\n"] + L[11:]), ("add", lambda L: L[:20] + ["new a\n", "new b\n"] + L[20:]), ("delete", lambda L: L[:30] + L[32:]),
             ("first", lambda L: ["top\n"] + L), ("last", lambda L: L + ["end\n"]), ("names", lambda L: L[:15] + ["src/ethereum/aa/x --- a/src/ethereum/aa/y\n"] + L[16:]),
             ("blank", lambda L: L[:25] + ["\n"] + L[25:]), ("dash", lambda L: L[:5] + ["-- a/b\n", "++ b/c\n"] + L[6:]), ("uni", lambda L: L[:35] + ["é ü\n"] + L[36:])]
    DEV = [("same", lambda L: list(L)), ("shift", lambda L: ["x\n", "y\n", "z\n"] + L), ("tail", lambda L: L + ["more\n"] * 3), ("far", None), ("clash", None), ("already", None), ("missing", None)]

    def r_patch(self, es, tests):
        pre = "tests/" if tests else "src/ethereum/"
        n, out = 0, set()
        L = self.LINES
        new = list(L)
        for e in sorted(es, key=lambda e: -[10, 20, 30, 0, 40, 15, 25, 5, 35][e]):
            new = self.EDITS[e][1](new)
        touched = {i for e in es for i in {0: (10,), 1: (19, 20), 2: (30, 31), 3: (0,), 4: (39,), 5: (15,), 6: (24, 25), 7: (5,), 8: (35,)}[e]}
        for dev, f in self.DEV:
            with scratch() as d:
                def git(*a):
                    r = subprocess.run(["git", "-c", "user.name=x", "-c", "user.email=x@y", "-c", "commit.gpgsign=false", *a], capture_output=True, text=True, env={**os.environ, "GIT_CONFIG_NOSYSTEM": "1", "HOME": d})
                    if r.returncode:
                        raise RuntimeError(r.stderr)
                oth = pre if not tests else "src/ethereum/"
                want_rej = False
                if dev == "far":
                    free = [i for i in range(len(L)) if all(abs(i - t) > 5 for t in touched)]
                    if not free:
                        continue
                    tl = list(L)
                    tl[free[0]] = "deviates\n"
                    res = list(new)
                    res[res.index(L[free[0]])] = "deviates\n"
                elif dev == "clash":
                    tl = ["all other %d\n" % i for i in range(40)]
                    res, want_rej = tl, True
                elif dev == "already":
                    tl = None
                    res = None
                elif dev == "missing":
                    tl, res = None, None
                else:
                    tl = f(L)
                    res = f(new)
                    if dev == "shift" and 3 in es or dev == "tail" and 4 in es:
                        continue
                for fork in ("aa", "bb", "cc"):
                    write(f"{pre}{fork}/m.py", "".join(L))
                    write(f"{pre}{fork}/vm/deep/k.py", "".join(L))
                    write(f"{pre}{fork}/keep.py", "keep\n")
                write(f"{oth}zz.py", "z\n")
                if tl is not None:
                    write(f"{pre}cc/m.py", "".join(tl))
                git("init", "-q")
                git("add", "-A")
                git("commit", "-qm", "x")
                write(f"{pre}aa/m.py", "".join(new))
                deep = dev in ("same", "far")
                if deep:
                    write(f"{pre}aa/vm/deep/k.py", "".join(new))
                write(f"{oth}zz.py", "unrelated change\n")
                targets = ["bb", "cc"] if dev != "missing" else []
                sys.argv = ["x", "aa"] + targets + (["--tests"] if tests else [])
                before = tree(d)
                # the tool hands its own stdout and stderr to patch: give it real files
                with open(os.devnull, "w") as null:
                    so, se = patch_tool.stdout, patch_tool.stderr
                    patch_tool.stdout = patch_tool.stderr = null
                    try:
                        patch_tool.main()
                    finally:
                        patch_tool.stdout, patch_tool.stderr = so, se
                after = {k: v for k, v in tree(d).items() if not k.startswith(".git")}
                want = {k: v for k, v in before.items() if not k.startswith(".git")}
                for t in targets:
                    r = new if t == "bb" or res is None else res
                    want[f"{pre}{t}/m.py"] = "".join(r).encode()
                    if deep:
                        want[f"{pre}{t}/vm/deep/k.py"] = "".join(new).encode()
                if want_rej:
                    rej = [k for k in after if k.endswith(".rej")]
                    if rej != [f"{pre}cc/m.py.rej"]:
                        raise Mismatch(f"patch {es} {dev}: rejects {rej}")
                    del after[rej[0]]
                if after != want:
                    bad = sorted(k for k in set(after) | set(want) if after.get(k) != want.get(k))
                    raise Mismatch(f"patch {[self.EDITS[e][0] for e in es]} {dev}: {bad}: {first_diff(want.get(bad[0]) or b'', after.get(bad[0]) or b'')}")
                n += 1
                out.add((es, dev, tests))
        return out, n

    def r_patchdao(self):
        n = 0
        for targets in (["dao_fork"], ["bb", "dao_fork"], ["dao_fork", "bb"]):
            with scratch() as d:
                write("tests/bb/m.py", "x\n")
                sys.argv = ["x", "aa"] + targets + ["--tests"]
                try:
                    patch_tool.main()
                    raise Mismatch("tests of the DAO fork patched")
                except Exception as e:
                    if isinstance(e, Mismatch):
                        raise
                n += 1
        return {"dao"}, n


def first_diff(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"at {i}: model {a[max(0, i - 40):i + 40]!r} implementation {b[max(0, i - 40):i + 40]!r}"


if __name__ == "__main__":
    raise SystemExit(main(C()))
