"""Parsing of the analysed source tree (no import, no execution)."""
import ast, os
from .values import *

class Module:
    def __init__(self, name, path, src, is_pkg):
        self.name = name; self.path = path; self.is_pkg = is_pkg
        self.ast = ast.parse(src, path)
        self.binds = {}
        self.star = []
        self._collect(self.ast.body)
    def _collect(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.binds[n.name] = n
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.binds[a.asname or a.name.split(".")[0]] = ("import", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                mod = self._abs(n)
                for a in n.names:
                    if a.name == "*": self.star.append(mod)
                    else: self.binds[a.asname or a.name] = ("from", mod, a.name)
            elif isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                tg = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in tg:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            self.binds.setdefault(x.id, n) if isinstance(n, ast.AugAssign) else self.binds.__setitem__(x.id, n)
            elif isinstance(n, ast.If):
                self._collect(n.body); self._collect(n.orelse)
            elif isinstance(n, ast.Try):
                self._collect(n.body)
                for h in n.handlers:
                    sub = Module.__new__(Module); sub.name = self.name; sub.is_pkg = self.is_pkg; sub.binds = {}; sub.star = []
                    sub._collect(h.body)
                    for k, v in sub.binds.items(): self.binds.setdefault(k, v)
            elif isinstance(n, ast.With):
                self._collect(n.body)
    def _abs(self, n):
        if not n.level: return n.module or ""
        base = self.name.split(".")
        if not self.is_pkg: base = base[:-1]
        if n.level > 1: base = base[:-(n.level - 1)]
        return ".".join(base + ([n.module] if n.module else []))

class Tree:
    """all modules of a package under `root`"""
    def __init__(self, root, pkg="gradslam"):
        self.root = root; self.pkg = pkg; self.modules = {}; self.errors = []
        for dp, dn, fn in os.walk(os.path.join(root, pkg)):
            dn[:] = sorted(d for d in dn if not d.startswith(("__pycache__", ".")))
            for f in sorted(fn):
                if not f.endswith(".py"): continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, root)[:-3].split(os.sep)
                is_pkg = rel[-1] == "__init__"
                name = ".".join(rel[:-1] if is_pkg else rel)
                try:
                    self.modules[name] = Module(name, os.path.relpath(p, root), open(p, encoding="utf-8").read(), is_pkg)
                except SyntaxError as e:
                    self.errors.append("%s: %s" % (p, e))
    def add(self, name, src, path=None):
        m = Module(name, path or "<%s>" % name, src, False)
        self.modules[name] = m
        return m
    def find(self, dotted):
        """module, node for 'pkg.mod:Class.method' or 'pkg.mod:func'"""
        mod, q = dotted.split(":")
        m = self.modules.get(mod)
        if m is None: return None
        body = m.ast.body; node = None
        for part in q.split("."):
            node = None
            for n in body:
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == part: node = n
            if node is None: return None
            body = node.body
        return m, node
