"""C32: the documentation's fork differences are complete and faithful."""
import glob
import itertools
import logging
import os
import tempfile
from pathlib import Path

from checkbase import *
from drv import diff
from drv.diff import Mismatch, digest

logging.disable(logging.CRITICAL)
N = ("ethereum.aa", "ethereum.bb")
SRC = os.environ.get("VERIF_REPO", "/repo") + "/src/ethereum"


def fdef(params="()", ret="", doc="", body=("return 1",), deco="", name="f"):
    d = f'    """\n    {doc}\n    """\n' if doc else ""
    return f"{deco}def {name}{params}{ret}:\n{d}" + "".join(f"    {b}\n" for b in body) + "\n\n"


def functions(tier):
    T = tier == "thorough"
    for deco in ("", "@d\n") + (("@d\n@e(1)\n",) if T else ()):
        for par in ("()", "(a)", "(a: List[int], b)") + (("(a: int)", "(*a)", "(**b: A.B)", "(a=1)", "(a: int = 1)") if T else ()):
            for ret in ("", " -> int") + ((" -> Optional[int]", " -> int | None") if T else ()):
                for doc in ("", "one `two`", "other") if T or deco else ("", "other"):
                    for body in (("return 1",), ("x = 2", "return 1")):
                        yield fdef(par, ret, doc, body, deco)


def classes(tier):
    T = tier == "thorough"
    for deco in ("", "@d\n"):
        for base in ("", "(B)", "(B, metaclass=M)") + (("(B, C[int])", "(metaclass=M)") if T else ()):
            for doc in ("", "one") + (("two",) if T else ()):
                for mem in ("    pass\n", "    x: int\n", "    def g(self):\n        return 1\n", "    x: int\n\n    def g(self):\n        return 2\n") + (("    x: int\n    y = 3\n",) if T else ()):
                    yield f"{deco}class K{base}:\n" + (f'    """{doc}"""\n' if doc else "") + mem


def attributes(tier):
    for a in ("X = 1", "X: int", "X: int = 1", "X = Y = 2", "X = [\n    1,\n    2,\n]") + (("X: A.B = f(2)", "X = (\n    1\n)", "X: List[Tuple[int, ...]] = []") if tier == "thorough" else ()):
        for doc in ("", '"""\none\n"""\n', '"""\none `two`\n"""\n'):
            for pre in ("", '"""\nmodule\n"""\n', '"""\nmodule [text](z)\n"""\n'):
                yield f"{pre}{a}\n{doc}"


def members(tier):
    A_ = [fdef(name=n, body=b) for n, b in (("f", ("return 1",)), ("g", ("return 1",)), ("f", ("return 2",)))] + ["X = 1\n", "class K:\n    x: int\n"]
    for k in range(0, 3 if tier == "quick" else 4):
        for p in itertools.permutations(range(len(A_)), k):
            if 0 in p and 2 in p:
                continue
            yield "".join(A_[i] for i in p)


def bodies(tier):
    L = ("a = 1", "b(2)", "if c:\n        d()")
    for k in range(1, 5 if tier == "quick" else 6):
        for p in itertools.product(L[:3 if k < 4 else 2], repeat=k):
            yield fdef(body=p)


MARK = ["", "a", "a\n\n    b", "b\n\n    a", "a\n    b", "a  \n    b", "*a*", "**a**", "~~a~~", "`a`", "``a``", "[a](b)", "[a](c)", '[a](b "t")', '[a](b "u")', "[c](b)", "![a](b)", "![a](c)", '![a](b "t")',
        "<http://a>", "<http://b>", "a <b>c</b>", "a <b>d</b>", "<div>\n    a\n    </div>", "<div>\n    b\n    </div>", "# a", "## a", "# b", "a\n    ==", "a\n    --", "b\n    --", "---", "> a", "> b", "> a\n    >\n    > b",
        "```\n    a\n    ```", "```\n    b\n    ```", "```py\n    a\n    ```", "```py x\n    a\n    ```", "    a", "    b", "- a", "* a", "- b", "- a\n    - b", "- a\n\n    - b", "1. a", "2. a", "1. a\n    2. b", "- a\n      - b", "+ a",
        "| a | b |\n    |---|---|\n    | 1 | 2 |", "| a | c |\n    |---|---|\n    | 1 | 2 |", "| a | b |\n    |---|:-:|\n    | 1 | 2 |", "| a | b |\n    |---|---|\n    | 1 | 3 |",
        "| a | b |\n    |---|---|\n    | 1 | 2 |\n    | 3 | 4 |", "| *a* | b |\n    |---|---|\n    | 1 | 2 |", "| a |\n    |---|\n    | 1 |", "[a]: b\n\n    [a]", "[a][x]\n\n    [x]: b", "[a][x]\n\n    [x]: c"]


def docstrings(tier):
    for m in MARK:
        yield fdef(doc=m)
    for m in MARK[1:] if tier == "thorough" else MARK[1::3]:
        yield fdef(doc="z\n\n    " + m)


FAM = {"functions": functions, "classes": classes, "attributes": attributes, "members": members, "bodies": bodies, "docstrings": docstrings}
ROWS = 6
RENDER = {"quick": 41, "thorough": 1}


class C(DiffCheck):
    pid = "C32"
    rule = ("all ordered pairs of small modules within each family (function, class and attribute forms; member sequences; body line sequences; every markdown element) run through the "
            "real documentation pipeline; both sides of the minimised difference read back and compared with the two documents, also as rendered; every layout of files over forks for "
            "discovery and building; every file of every two successive forks of the repository.  A state is a distinct difference")
    bounds = {"quick": "at most 2 members, 4 body lines, 1-2 markdown elements; rendering of every 41st pair; repository files of 3 successive forks",
              "thorough": "more forms, 3 members, 5 body lines, rendering of every pair, the files of all forks"}
    assumptions = ["docc parses the sources correctly", "line numbers of unchanged lines are those of the newer document"]
    _t = {}

    def setup(self):
        from drv import doccdrv  # noqa

    def cases(self, tier):
        for fam in FAM:
            n = sum(1 for _ in FAM[fam](tier))
            for i in range(0, n, ROWS):
                yield ("pairs", fam, tier, i)
        for i in range(16):
            yield ("layout", tier, i)
        for i in range(len(ALL) - 1):
            for k in range(6):
                if tier == "thorough" or i in (len(ALL) - 2, 13, 8):
                    yield ("repo", i, k)

    def build(self, d):
        raise NotImplementedError

    def run(self, d):
        self.digs, self.n, self.k = [], 0, 0
        getattr(self, d[0])(*d[1:])
        return Result(self.digs, self.n, self.k)

    def trees(self, fam, tier):
        if (fam, tier) not in self._t:
            from drv import doccdrv as Y
            v = list(FAM[fam](tier))
            T = Y.trees({f"src/ethereum/aa/m{i}.py": s for i, s in enumerate(v)})
            fx = Y.fixnames(*N)
            A = [Y.rename(T[f"src/ethereum/aa/m{i}.py"], f"ethereum.aa.m{i}", f"{N[0]}.m") for i in range(len(v))]
            c = [Y.canon(t, fx) for t in A]
            B = [Y.rename(Y.clone(t), N[0], N[1]) for t in A]
            out = (A, B, c, [Y.canon(t, fx) for t in B], {})
            self._t.clear()
            self._t[fam, tier] = (v, out)
        return self._t[fam, tier]

    @staticmethod
    def rendered(Y, memo, t):
        if id(t) not in memo:
            try:
                memo[id(t)] = Y.text(Y.render(Y.clone(t)), "")
            except Exception:  # docc itself cannot render the document (hard line breaks)
                memo[id(t)] = None
        return memo[id(t)]

    def pairs(self, fam, tier, i0):
        from drv import doccdrv as Y
        v, (A, B, c, e, memo) = self.trees(fam, tier)
        for i in range(i0, min(i0 + ROWS, len(v))):
            for j in range(len(v)):
                what = f"{fam}: {v[i]!r} to {v[j]!r}"
                root = Y.minimise(Y.clone(A[i]), Y.clone(B[j]), N)
                n = Y.check(root, (c[i], e[j]), N, what)
                if (n == 1) != (c[i] == c[j]):  # the module's own name always differs
                    raise Mismatch(f"{what}: {n} differences")
                self.n += 1
                if (5 * i + j) % RENDER[tier] == 0:
                    want = [self.rendered(Y, memo, t) for t in (A[i], B[j])]
                    if None not in want:
                        h = Y.render(root)
                        for drop, w in zip(("diff-after", "diff-before"), want):
                            t = Y.text(h, drop)
                            if t != w:
                                raise Mismatch(f"{what}: rendered without {drop}: {t!r}, expected {w!r}")
                self.digs.append(digest((fam, i, j, n)))
        self.k += self.n

    # ------------------------------------------------------------ discovery and building
    def layout(self, tier, part):
        """Every distribution of two (thorough: three) files over three forks whose order differs from their names' order."""
        from drv import doccdrv as Y
        from docc.document import Document
        D = Y.D
        forks = ("cc", "aa", "bb")  # in order of activation
        paths = ("m.py", "sub/m.py", "n.py")
        if tier == "quick":
            paths = paths[:2]
        for bits in range(part, 8 ** len(paths), 16):
            have = [(f, p) for i, f in enumerate(forks) for k, p in enumerate(paths) if bits >> (3 * k + i) & 1]
            files = {"src/ethereum/__init__.py": "", "src/ethereum/other.py": "x = 1\n", "src/ethereum/utils/m.py": "y = 1\n"}
            for i, f in enumerate(forks):
                files[f"src/ethereum/{f}/__init__.py"] = f'"""Fork {f}."""\nfrom ethereum.fork_criteria import ByBlockNumber\nFORK_CRITERIA = ByBlockNumber({5 * i})\n'
            for f, p in have:
                files[f"src/ethereum/{f}/{p}"] = f"v_{f} = 1\n"
            P = Y.Project(files)
            try:
                known = P.known()
                got = {}
                for s in D.EthereumDiscover(P.s.for_plugin("x")).discover(frozenset(known)):
                    key = (s.before_name, s.after_name, str(s.output_path))
                    if key in got:
                        raise Mismatch(f"two differences for {key}")
                    if s.relative_path is not None or not s.show_in_listing:
                        raise Mismatch("a difference is not listed or claims a source file")
                    got[key] = s
                want = {}
                for x, y in zip(forks, forks[1:]):
                    for p in {"__init__.py"} | {p for f, p in have if f in (x, y)}:
                        side = lambda f: f"src/ethereum/{f}/{p}" if p == "__init__.py" or (f, p) in have else None
                        want[f"ethereum.{x}", f"ethereum.{y}", f"diffs/{x}/{y}/{p}"] = (side(x), side(y))
                rel = lambda s: str(s.relative_path) if s else None
                if {k: (rel(s.before), rel(s.after)) for k, s in got.items()} != want:
                    raise Mismatch(f"differences {sorted(got)}, expected {sorted(want)} for files {have}")
                self.n += 1
                docs = {}
                un = set(known) | set(got.values())
                D.EthereumBuilder(P.s.for_plugin("x")).build(un, docs)
                if un or set(docs) != set(known) | set(got.values()):
                    raise Mismatch("sources left unbuilt or built twice")
                roots = [d.root for d in docs.values()]
                seen = set()
                for r in roots:
                    for x in Y.walk(r):
                        if id(x) in seen:
                            raise Mismatch("two documents share a node")
                        seen.add(id(x))
                Tr = Y.trees({f: x for f, x in files.items() if f.split("/")[2] in forks})
                for k, s in got.items():
                    c = Y.Context({Document: docs[s], Y.Source: s})
                    for t in Y.transforms(P.s) + [D.FixIndexTransform(None), D.MinimizeDiffsTransform(None)]:
                        t.transform(c)
                    fx = Y.fixnames(k[0], k[1])
                    w = tuple(None if f is None else Y.canon(Tr[f], fx) for f in want[k])
                    Y.check(c[Document].root, w, k[:2], f"{k} with files {have}")
                    self.n += 1
                self.digs.append(digest(("layout", bits)))
                self.k += 1
            finally:
                P.close()

    # ------------------------------------------------------------ the repository's own forks
    def repo(self, i, k):
        from drv import doccdrv as Y
        names = [NAMES[ALL[i]], NAMES[ALL[i + 1]]]
        files = {}
        for f in names:
            for p in sorted(glob.glob(f"{SRC}/{f}/**/*.py", recursive=True)):
                files[f"src/ethereum/{f}/{os.path.relpath(p, f'{SRC}/{f}')}"] = Path(p).read_text()
        rels = sorted({p.split("/", 3)[3] for p in files})[k::6]
        files = {p: s for p, s in files.items() if p.split("/", 3)[3] in rels}
        T = Y.trees(files)
        N2 = tuple(f"ethereum.{f}" for f in names)
        fx = Y.fixnames(*N2)
        for r in rels:
            ts = [T.get(f"src/ethereum/{f}/{r}") for f in names]
            w = tuple(None if t is None else Y.canon(t, fx) for t in ts)
            root = Y.minimise(*[None if t is None else Y.clone(t) for t in ts], N2)
            n = Y.check(root, w, N2, f"{names[0]} to {names[1]}: {r}")
            self.digs.append(digest(("repo", i, r, n)))
            self.n += 1
            self.k += 1


if __name__ == "__main__":
    raise SystemExit(main(C()))
