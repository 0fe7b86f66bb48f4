"""Builds documents of small Python sources with the real documentation pipeline, and reads both sides of a difference."""
import copy
import dataclasses
import os
import re
import tempfile
from pathlib import Path, PurePath

from docc.context import Context
from docc.document import BlankNode, Document, ListNode
from docc.plugins import mistletoe, python, verbatim
from docc.plugins.mistletoe import DocstringTransform, ReferenceTransform
from docc.plugins.python import PythonBuilder, PythonDiscover, PythonTransform
from docc.plugins.references import Definition, Reference
from docc.plugins.verbatim import Transcribe
from docc.settings import Settings
from docc.source import Source

import ethereum_spec_tools.docc as D
from .diff import Mismatch

TOML = '[tool.docc]\n[tool.docc.plugins."docc.python.discover"]\npaths = ["src"]\n'


class Project:
    """A scratch project with the given files (relative path -> text)."""

    def __init__(self, files):
        self.tmp = tempfile.TemporaryDirectory(prefix="c32-")
        T = Path(self.tmp.name)
        for f, s in {"pyproject.toml": TOML, **files}.items():
            p = T / f
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_text(s)
        self.s = Settings(T)
        self.root = T

    def known(self):
        return set(PythonDiscover(self.s.for_plugin("docc.python.discover")).discover(frozenset()))

    def close(self):
        self.tmp.cleanup()


def transforms(s):
    return [k(s.for_plugin("x")) for k in (PythonTransform, Transcribe, DocstringTransform, ReferenceTransform)]


def trees(files):
    """Relative path -> fully transformed document root, one per source file."""
    P = Project(files)
    try:
        known = P.known()
        docs = {}
        PythonBuilder(P.s.for_plugin("x")).build(set(known), docs)
        out = {}
        for src, d in docs.items():
            c = Context({Document: d, Source: src})
            for t in transforms(P.s):
                t.transform(c)
            out[str(src.relative_path)] = c[Document].root
        return out
    finally:
        P.close()


def rename(node, old, new):
    """Replace the module name old by new in every identifier of the tree."""
    f = lambda s: re.sub(re.escape(old) + r"(?![A-Za-z0-9_])", new, s) if isinstance(s, str) else s
    for x in walk(node):
        if isinstance(x, (Definition, Reference)):
            x.identifier = f(x.identifier)
        elif isinstance(x, python.Name):
            x.name, x.full_name = f(x.name), f(x.full_name)
    return node


def walk(node):
    todo = [node]
    while todo:
        x = todo.pop()
        yield x
        todo.extend(x.children)


def clone(n):
    """A fresh tree sharing only the markdown tokens."""
    kids = [clone(c) for c in n.children]
    if isinstance(n, mistletoe.MarkdownNode):
        x = mistletoe.MarkdownNode(n.token)
        x._children = kids
        return x
    if isinstance(n, ListNode):
        return ListNode(kids)
    x = copy.copy(n)
    if isinstance(n, verbatim.Highlight):
        x.highlights = list(n.highlights)
    if hasattr(n, "_children"):
        x._children = kids
    elif isinstance(n, (Definition, Reference)):
        x.child = kids[0]
    elif isinstance(n, python.PythonNode):
        for f in dataclasses.fields(n):
            if f.type == python.nodes.Node:
                setattr(x, f.name, kids.pop(0))
    return x


# ------------------------------------------------------------------ canonical forms
NOATTR = {"children", "_children", "line_number", "header", "footnotes", "delimiter", "dest_type", "title_delimiter"}


def attrs(tok):
    d = {k: v for k, v in vars(tok).items() if k not in NOATTR and not k.startswith("_")}
    h = getattr(tok, "header", None)
    if h is not None:
        d["header"] = mcanon(mistletoe.MarkdownNode(h))
    return tuple(sorted((k, repr(v)) for k, v in d.items()))


def mcanon(n):
    return ("md", type(n.token).__name__, attrs(n.token), tuple(mcanon(c) for c in n.children))


def canon(n, names=lambda s: s):
    """A plain value that tells everything a document node says, except source line numbers."""
    kids = lambda: tuple(canon(c, names) for c in n.children)
    if isinstance(n, BlankNode) or isinstance(n, ListNode) and not n.children:
        return ()
    if isinstance(n, ListNode):
        return ("list",) + kids()
    if isinstance(n, (Definition, Reference)):
        return (type(n).__name__, names(n.identifier), getattr(n, "specifier", None), kids())
    if isinstance(n, python.Name):
        return ("name", n.name, names(n.full_name) if n.full_name else n.full_name)
    if isinstance(n, mistletoe.MarkdownNode):
        return ("md", type(n.token).__name__, attrs(n.token), kids())
    if isinstance(n, verbatim.Line):
        return ("line",) + kids()
    if isinstance(n, verbatim.Highlight):
        return ("hl", tuple(n.highlights)) + kids()
    if isinstance(n, verbatim.Text):
        return ("text", n.text)
    if isinstance(n, verbatim.Transcribed):
        return ("verbatim",) + kids()
    if isinstance(n, python.PythonNode):
        return (type(n).__name__, tuple((f.name, canon(getattr(n, f.name), names) if f.type == python.nodes.Node else getattr(n, f.name)) for f in dataclasses.fields(n)))
    raise AssertionError(f"harness: node {type(n)}")


# ------------------------------------------------------------------ reading a difference
class Marks:
    def __init__(self, before, after):
        self.names = (before, after)
        self.n = 0
        self.size = [0, 0]


def side(n, which, m):
    """List of canonical nodes a (possibly difference) node stands for on one side."""
    if isinstance(n, D.DiffNode):
        if (n.before_name, n.after_name) != m.names:
            raise Mismatch(f"difference labelled {(n.before_name, n.after_name)}, expected {m.names}")
        if (n.before and not isinstance(n.before, D.BeforeNode)) or (n.after and not isinstance(n.after, D.AfterNode)):
            raise Mismatch("difference side of the wrong kind")
        m.n += 1
        x = (n.before, n.after)[which]
        if not x:
            return []
        c = x.child
        for y in walk(c):
            if isinstance(y, (D.DiffNode, D.BeforeNode, D.AfterNode)):
                raise Mismatch("a difference inside a difference")
        if isinstance(c, ListNode):
            m.size[which] += len(c.children)
            return [canon(y) for y in c.children]
        m.size[which] += 1
        return [canon(c)]
    if isinstance(n, (D.BeforeNode, D.AfterNode)):
        raise Mismatch("difference side outside a difference")
    return [scanon(n, which, m)]


def one(n, which, m):
    """Fixed field: exactly one node, or blank."""
    xs = side(n, which, m)
    if isinstance(n, D.DiffNode):
        x = (n.before, n.after)[which]
        if x and isinstance(x.child, ListNode):  # the field itself is a list
            return canon(x.child)
        return xs[0] if xs else ()
    return xs[0]


def scanon(n, which, m):
    kids = lambda: tuple(y for c in n.children for y in side(c, which, m))
    single = lambda: tuple(one(c, which, m) for c in n.children)
    if isinstance(n, BlankNode):
        return ()
    if isinstance(n, ListNode):
        k = kids()
        return ("list",) + k if k else ()
    if isinstance(n, (Definition, Reference)):
        return (type(n).__name__, n.identifier, getattr(n, "specifier", None), single())
    if isinstance(n, python.Name):
        return canon(n)
    if isinstance(n, mistletoe.MarkdownNode):
        return ("md", type(n.token).__name__, attrs(n.token), kids())
    if isinstance(n, verbatim.Line):
        return ("line",) + kids()
    if isinstance(n, verbatim.Highlight):
        return ("hl", tuple(n.highlights)) + kids()
    if isinstance(n, verbatim.Text):
        return ("text", n.text)
    if isinstance(n, verbatim.Transcribed):
        return ("verbatim",) + kids()
    if isinstance(n, python.PythonNode):
        return (type(n).__name__, tuple((f.name, one(getattr(n, f.name), which, m) if f.type == python.nodes.Node else getattr(n, f.name)) for f in dataclasses.fields(n)))
    raise AssertionError(f"harness: node {type(n)}")


def fixnames(before, after):
    """Names of either fork become names of the difference."""
    def f(s):
        for p in (before + ".", after + "."):
            if s.startswith(p):
                return f"diff({before},{after})." + s[len(p):]
        return s
    return f


def check(root, wants, names, what):
    """root: minimised document; wants: canonical (before, after) or None for an absent side."""
    m = Marks(*names)
    got = []
    for w in (0, 1):
        m.n = 0
        xs = side(root, w, m)
        got.append(xs[0] if xs else None)
    for w in (0, 1):
        if got[w] != wants[w]:
            raise Mismatch(f"{what}: the {'before' if w == 0 else 'after'} side of the difference is not the {'older' if w == 0 else 'newer'} document: {first(got[w], wants[w])}")
    if (m.n == 0) != (wants[0] == wants[1]):
        raise Mismatch(f"{what}: {m.n} differences although the documents are {'equal' if wants[0] == wants[1] else 'different'}")
    return m.n


def first(a, b, path=()):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a != b:
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first(x, y, path + (i,))
    return f"at {path}: {str(a)[:200]} instead of {str(b)[:200]}"


def minimise(before, after, names, fix=True):
    root = D.DiffNode(names[0], D.BeforeNode(before) if before is not None else BlankNode(), names[1], D.AfterNode(after) if after is not None else BlankNode())
    c = Context({Document: Document(root)})
    if fix:
        D.FixIndexTransform(None).transform(c)
    D.MinimizeDiffsTransform(None).transform(c)
    return c[Document].root


# ------------------------------------------------------------------ rendering
class _Src(Source):
    relative_path = None
    output_path = PurePath("diffs/x")


def render(root):
    """HTML tree of a transformed document."""
    import docc.plugins.html as H
    from docc.plugins.references import Index, IndexTransform
    c = Context({Document: Document(root), Index: Index(), Source: _Src(), H.HTML: H.HTML([], None)})
    IndexTransform(None).transform(c)
    v = H.HTMLVisitor(c)
    c[Document].root.visit(v)
    return v.root


def text(h, drop):
    """Visible text without line numbers, the table of contents, and what is marked with the dropped class."""
    import docc.plugins.html as H
    out = []

    def go(n):
        if isinstance(n, H.TextNode):
            out.append(n._value)
            return
        if isinstance(n, H.HTMLTag):
            cl = (n.attributes.get("class") or "").split()
            if drop in cl or n.tag_name == "th" and not n.attributes or "toc" in cl:
                return
            if n.tag_name == "ins" and "diff-after" not in cl or n.tag_name == "del" and "diff-before" not in cl:
                raise Mismatch("inserted or deleted text without its class")
        for k in n.children:
            go(k)
    go(h)
    s = "".join(out)
    return re.sub(r"[\s\u200b,=:]|->", "", s)
