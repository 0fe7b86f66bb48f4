"""Development aid: behaviour-preserving edits of a whole scratch copy, to see that the checks stay quiet.

refactor.py DIR   (DIR: scratch copy of /repo; its src is rewritten in place)
"""
import ast, glob, os, sys


class Fn(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        body = f.body
        k = 1 if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str) else 0
        if len(body) == k or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f)) and not body[k:]:
            return f
        nested = [n for n in ast.walk(f) if n is not f and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp))]
        inner = {n.id for g in nested for n in ast.walk(g) if isinstance(n, ast.Name)} | {a.arg for g in nested for n in ast.walk(g) if isinstance(n, ast.arguments) for a in n.args}
        args = {a.arg for n in ast.walk(f) if isinstance(n, ast.arguments) for a in n.args + n.kwonlyargs + n.posonlyargs + [x for x in (n.vararg, n.kwarg) if x]}
        glob_ = {x for n in ast.walk(f) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        imported = {(a.asname or a.name).split(".")[0] for n in ast.walk(f) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        exc = {n.name for n in ast.walk(f) if isinstance(n, ast.ExceptHandler) and n.name}
        loc = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))} - inner - args - glob_ - imported - exc
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in loc:
                n.id += "_local"
        self.swaps(f)
        f.body = body[:k] + [ast.parse("_unused = None").body[0]] + body[k:]
        return f

    def swaps(self, f):
        for n in ast.walk(f):
            if isinstance(n, ast.If) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
                n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE) and all(isinstance(x, (ast.Name, ast.Attribute, ast.Constant)) for x in (n.left, n.comparators[0])):
                n.left, n.comparators = n.comparators[0], [n.left]
                n.ops = [{ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}[type(n.ops[0])]()]
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(n, fld, None)
                if isinstance(b, list):
                    out = []
                    for s in b:
                        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                            out += [ast.Assign([ast.Name("_result", ast.Store())], s.value), ast.Return(ast.Name("_result", ast.Load()))]
                        elif isinstance(s, ast.AugAssign) and isinstance(s.op, (ast.Add, ast.Sub)) and isinstance(s.value, ast.Call) and getattr(s.value.func, "id", "") in ("Uint", "U256", "U64"):
                            t = ast.parse(ast.unparse(s.target), mode="eval").body
                            out.append(ast.Assign([s.target], ast.BinOp(t, s.op, s.value)))
                        else:
                            out.append(s)
                    setattr(n, fld, out)


for p in glob.glob(os.path.join(sys.argv[1], "src", "ethereum*", "**", "*.py"), recursive=True):
    s = open(p).read()
    t = ast.fix_missing_locations(Fn().visit(ast.parse(s)))
    open(p, "w").write(ast.unparse(t) + "\n# end\n")
