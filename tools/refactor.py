#!/usr/bin/env python3
"""refactor.py KIND OUT: writes a behaviour-preserving rewrite of /repo/gradslam to OUT/gradslam.
Kinds: rename invert temps wrap loops ternary flatten swap method stmts"""
import ast, sys, os, shutil, copy
kind, out = sys.argv[1:3]
SRC = os.environ.get("SRC", "/repo")

def local_names(fn):
    """names bound in fn that may be renamed"""
    args = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs} | {a.arg for a in (fn.args.vararg, fn.args.kwarg) if a}
    bound, glob, inner = set(), set(), set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): bound.add(n.id)
        if isinstance(n, (ast.Global, ast.Nonlocal)): glob |= set(n.names)
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn:
            inner |= {a.arg for a in n.args.args + n.args.kwonlyargs}
            if isinstance(n, ast.FunctionDef): inner.add(n.name)
    return bound - args - glob - inner

class Rename(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        names = {k: "v_" + k for k in local_names(n)}
        class R(ast.NodeTransformer):
            def visit_Name(s, m):
                if m.id in names: m.id = names[m.id]
                return m
            def visit_ExceptHandler(s, m):
                s.generic_visit(m)
                return m
        n.body = [R().visit(b) for b in n.body]
        return n

class Invert(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            n.test = ast.UnaryOp(ast.Not(), n.test); n.body, n.orelse = n.orelse, n.body
        return n
    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)

class Temps(ast.NodeTransformer):
    """return f(a) -> r = f(a); return r, arguments of assigned calls hoisted in order"""
    def __init__(self): self.k = 0
    def new(self):
        self.k += 1; return "tmp_%d" % self.k
    def hoist(self, e, pre):
        """e with the operands of calls and arithmetic named (evaluation order kept)"""
        if isinstance(e, ast.Call) and not any(isinstance(a, ast.Starred) for a in e.args) and isinstance(e.func, (ast.Name, ast.Attribute)):
            if any(isinstance(x, ast.Yield) for x in ast.walk(e)): return e
            if isinstance(e.func, ast.Name) and e.func.id == "super": return e
            if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and not (isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super"):
                e.func.value = self.name(self.hoist(e.func.value, pre), pre)
            if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Attribute) and isinstance(e.func.value.value, ast.Name) and e.func.value.value.id not in ("torch", "np", "os", "cv2", "F", "kornia", "datautils", "tumutils"): pass
            e.args = [a if isinstance(a, (ast.Constant, ast.GeneratorExp, ast.Lambda)) else self.name(self.hoist(a, pre), pre) for a in e.args]
            return e
        if isinstance(e, ast.BinOp):
            e.left = self.name(self.hoist(e.left, pre), pre) if isinstance(e.left, (ast.Call, ast.BinOp)) else e.left
            e.right = self.name(self.hoist(e.right, pre), pre) if isinstance(e.right, (ast.Call, ast.BinOp)) and isinstance(e.left, (ast.Name, ast.Constant)) else e.right
            return e
        return e
    def name(self, e, pre):
        if isinstance(e, (ast.Name, ast.Constant)): return e
        t = self.new(); pre.append(ast.Assign([ast.Name(t, ast.Store())], e)); return ast.Name(t, ast.Load())
    def visit_Return(self, n):
        if n.value is None: return n
        pre = []; v = self.hoist(n.value, pre)
        return pre + [ast.Return(self.name(v, pre))] if not isinstance(n.value, (ast.Name, ast.Constant)) else n
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)): return n
        pre = []; v = self.name(self.hoist(n.value, pre), pre)
        return pre + [ast.Return(v)]
    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            pre = []; n.value = self.hoist(n.value, pre); return pre + [n]
        return n
    def visit_Lambda(self, n): return n
    def visit_ClassDef(self, n):
        n.body = [self.visit(b) if isinstance(b, ast.FunctionDef) else b for b in n.body]; return n
    def visit_Module(self, n):
        n.body = [self.visit(b) if isinstance(b, (ast.FunctionDef, ast.ClassDef)) else b for b in n.body]; return n

class Wrap(ast.NodeTransformer):
    """module functions: body moved to a helper"""
    def visit_Module(self, n):
        b2 = []
        for b in n.body:
            if isinstance(b, ast.FunctionDef) and not b.args.vararg and not b.args.kwarg and not b.decorator_list:
                h = copy.deepcopy(b); h.name = "_%s_body" % b.name; h.args.defaults = []; h.args.kw_defaults = [None] * len(h.args.kwonlyargs); h.returns = None
                for a in h.args.args + h.args.kwonlyargs: a.annotation = None
                doc = ast.get_docstring(b) is not None
                h.body = h.body[1:] if doc and len(h.body) > 1 else h.body
                b.body = b.body[:1] if doc else []
                b.body.append(ast.Return(ast.Call(ast.Name(h.name, ast.Load()), [ast.Name(a.arg, ast.Load()) for a in b.args.args], [ast.keyword(a.arg, ast.Name(a.arg, ast.Load())) for a in b.args.kwonlyargs])))
                b2 += [h, b]
            elif isinstance(b, ast.ClassDef): b2.append(self.cls(b))
            else: b2.append(b)
        n.body = b2; return n
    def cls(self, c):
        out = []
        for b in c.body:
            if isinstance(b, ast.FunctionDef) and not b.decorator_list and not b.args.vararg and not b.args.kwarg and not (b.name.startswith("__") and b.name != "__getitem__") and b.args.args and b.args.args[0].arg == "self" and not any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(b)):
                h = copy.deepcopy(b); h.name = "_do_%s_impl" % (b.name[2:-2] if b.name.startswith("__") else b.name.lstrip("_")); h.args.defaults = []; h.args.kw_defaults = [None] * len(h.args.kwonlyargs); h.returns = None
                for a in h.args.args + h.args.kwonlyargs: a.annotation = None
                doc = ast.get_docstring(b) is not None
                h.body = h.body[1:] if doc and len(h.body) > 1 else h.body
                b.body = b.body[:1] if doc else []
                b.body.append(ast.Return(ast.Call(ast.Attribute(ast.Name("self", ast.Load()), h.name, ast.Load()), [ast.Name(a.arg, ast.Load()) for a in b.args.args[1:]], [ast.keyword(a.arg, ast.Name(a.arg, ast.Load())) for a in b.args.kwonlyargs])))
                out += [b, h]
            else: out.append(b)
        c.body = out; return c

class Loops(ast.NodeTransformer):
    """x = [e for v in it (if c)] -> explicit loop; return [..] likewise"""
    def __init__(self): self.k = 0
    def expand(self, v):
        if not (isinstance(v, ast.ListComp) and len(v.generators) == 1 and not v.generators[0].is_async): return None
        g = v.generators[0]; self.k += 1; acc = "acc_%d" % self.k
        names = {n.id: "it_%s_%d" % (n.id, self.k) for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        class R(ast.NodeTransformer):
            def visit_Name(s, m):
                if m.id in names: m.id = names[m.id]
                return m
        it = g.iter; tgt = R().visit(g.target); elt = R().visit(v.elt); ifs = [R().visit(i) for i in g.ifs]
        body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(acc, ast.Load()), "append", ast.Load()), [elt], []))]
        for i in reversed(ifs): body = [ast.If(i, body, [])]
        return [ast.Assign([ast.Name(acc, ast.Store())], ast.List([], ast.Load())), ast.For(tgt, it, body, [])], ast.Name(acc, ast.Load())
    def visit_Assign(self, n):
        r = self.expand(n.value)
        if r is None: return n
        n.value = r[1]; return r[0] + [n]
    def visit_Return(self, n):
        r = self.expand(n.value) if n.value is not None else None
        if r is None: return n
        n.value = r[1]; return r[0] + [n]
    def visit_ClassDef(self, n):
        n.body = [self.visit(b) if isinstance(b, ast.FunctionDef) else b for b in n.body]; return n
    def visit_Module(self, n):
        n.body = [self.visit(b) if isinstance(b, (ast.FunctionDef, ast.ClassDef)) else b for b in n.body]; return n
    def visit_Lambda(self, n): return n

class Ternary(ast.NodeTransformer):
    """x = a if c else b -> if statement; and/or in if tests nested"""
    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp) and len(n.targets) == 1:
            v = n.value
            return ast.If(v.test, [ast.Assign(copy.deepcopy(n.targets), v.body)], [ast.Assign(copy.deepcopy(n.targets), v.orelse)])
        return n
    def visit_Return(self, n):
        if isinstance(n.value, ast.IfExp):
            return [ast.If(n.value.test, [ast.Return(n.value.body)], []), ast.Return(n.value.orelse)]
        return n
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            body = n.body
            for t in reversed(n.test.values): body = [ast.If(t, body, [])]
            return body[0]
        return n
    def visit_ClassDef(self, n):
        n.body = [self.visit(b) if isinstance(b, ast.FunctionDef) else b for b in n.body]; return n
    def visit_Module(self, n):
        n.body = [self.visit(b) if isinstance(b, (ast.FunctionDef, ast.ClassDef)) else b for b in n.body]; return n

def ends(b): return b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
class Flatten(ast.NodeTransformer):
    """if c: return .. / rest  ->  if c: return .. else: rest ; and if/else with a returning body flattened"""
    def block(self, body):
        out = []
        for i, s in enumerate(body):
            s = self.visit(s)
            if isinstance(s, ast.If) and ends(s.body) and s.orelse:
                o = s.orelse; s.orelse = []; out.append(s); out += o
            elif isinstance(s, ast.If) and ends(s.body) and not s.orelse and i + 1 < len(body) and not any(isinstance(x, ast.FunctionDef) for x in body[i + 1:]):
                s.orelse = self.block(body[i + 1:]); out.append(s); return out
            else: out.append(s)
        return out
    def generic_visit(self, n):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt): setattr(n, f, self.block(b))
        return n
    def visit_ClassDef(self, n):
        n.body = [self.visit(b) if isinstance(b, ast.FunctionDef) else b for b in n.body]; return n
    def visit_Module(self, n):
        n.body = [self.visit(b) if isinstance(b, (ast.FunctionDef, ast.ClassDef)) else b for b in n.body]; return n

FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
class Swap(ast.NodeTransformer):
    """a < b -> b > a, c * x -> x * c for numbers, a - b -> a + (-b) for names and numbers, x == None.."""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in FLIP and not any(isinstance(x, (ast.Call,)) for x in ast.walk(n)):
            return ast.Compare(n.comparators[0], [FLIP[type(n.ops[0])]()], [n.left])
        return n
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult) and not any(isinstance(x, (ast.Call, ast.List, ast.Tuple, ast.ListComp)) or isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(n)): return ast.BinOp(n.right, n.op, n.left)
        if isinstance(n.op, ast.Div) and isinstance(n.right, ast.Constant): return ast.BinOp(n.left, ast.Mult(), ast.BinOp(ast.Constant(1.0), ast.Div(), n.right))
        return n

METH = {"torch.cat", "torch.stack"}
class Method(ast.NodeTransformer):
    """torch.f(x, ...) -> x.f(...) and x.f() -> torch.f(x) for a few operations"""
    T2M = {"sum", "max", "min", "abs", "exp", "sqrt", "matmul", "bmm", "transpose", "clamp", "norm", "mean", "unsqueeze", "squeeze"}
    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "torch" and f.attr in self.T2M and n.args and not isinstance(n.args[0], ast.Starred) and f.attr not in ("max", "min", "norm"):
            return ast.Call(ast.Attribute(n.args[0], f.attr, ast.Load()), n.args[1:], n.keywords)
        if isinstance(f, ast.Attribute) and f.attr in ("unsqueeze", "transpose", "permute") and not (isinstance(f.value, ast.Name) and f.value.id in ("torch", "np")) and n.args and not any(isinstance(a, ast.Starred) for a in n.args) and not n.keywords:
            if f.attr == "permute": return n
            if f.attr == "transpose" and len(n.args) != 2: return n
            return ast.Call(ast.Attribute(ast.Name("torch", ast.Load()), f.attr, ast.Load()), [f.value] + n.args, []) if f.attr == "unsqueeze" else n
        return n

class Stmts(ast.NodeTransformer):
    """adds dead stores, pass statements, an unused local and type comments"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        i = 1 if ast.get_docstring(n) is not None else 0
        n.body[i:i] = [ast.Assign([ast.Name("unused_marker", ast.Store())], ast.Constant(0)), ast.Pass()]
        return n

class While(ast.NodeTransformer):
    """for i in range(n) -> while"""
    def __init__(self): self.k = 0
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "range" and len(n.iter.args) == 1 and isinstance(n.target, ast.Name) and not n.orelse and not any(isinstance(x, ast.Continue) for x in ast.walk(n)):
            self.k += 1; c, m = "w_i%d" % self.k, "w_n%d" % self.k
            return [ast.Assign([ast.Name(c, ast.Store())], ast.Constant(0)), ast.Assign([ast.Name(m, ast.Store())], n.iter.args[0]),
                    ast.While(ast.Compare(ast.Name(c, ast.Load()), [ast.Lt()], [ast.Name(m, ast.Load())]),
                              [ast.Assign([n.target], ast.Name(c, ast.Load()))] + n.body + [ast.AugAssign(ast.Name(c, ast.Store()), ast.Add(), ast.Constant(1))], [])]
        return n

K = dict(rename=Rename, invert=Invert, temps=Temps, wrap=Wrap, loops=Loops, ternary=Ternary, flatten=Flatten, swap=Swap, method=Method, stmts=Stmts)
K["while"] = While
shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
shutil.copytree(os.path.join(SRC, "gradslam"), os.path.join(out, "gradslam"), ignore=shutil.ignore_patterns("__pycache__"))
for d, _, fs in os.walk(os.path.join(out, "gradslam")):
    for f in fs:
        if not f.endswith(".py"): continue
        p = os.path.join(d, f); t = ast.parse(open(p).read())
        for k in kind.split("+"): t = ast.fix_missing_locations(K[k]().visit(t)); t = ast.parse(ast.unparse(t))
        open(p, "w").write(ast.unparse(t) + "\n")
