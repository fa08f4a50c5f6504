"""Expressions of the value-graph interpreter."""
import ast
from . import terms as T
from .terms import Term, mk, const, NONE, TRUE, FALSE, is_const, cval, kind, ELL
from .values import *
from .files import parts as text_parts, has_token, WS

BIN = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "div", "FloorDiv": "floordiv", "Mod": "mod", "Pow": "pow", "MatMult": "matmul",
       "BitAnd": "bitand", "BitOr": "bitor", "BitXor": "bitxor", "LShift": "shl", "RShift": "shr"}
SCALAR = {"int", "float", "bool", "str", "none", "device", "dtype", "bytes", "ellipsis"}
VIEWOPS = {"transpose", "permute", "view", "unsqueeze", "squeeze", "expand", "T", "detach", "expand_as", "narrow", "diagonal"}

class Exprs:
    # ------------------------------------------------------------ boolean algebra (light)
    def tnot(self, c):
        if is_const(c): return const(not cval(c))
        if c.op == "not": return c.args[0]
        if c.op == "eq" and kind(c)[0] == "bool": return mk("ne", *c.args)
        if c.op == "ne" and kind(c)[0] == "bool": return mk("eq", *c.args)
        return mk("not", c)
    def tand(self, cs):
        out = []
        for c in cs:
            if c is FALSE: return FALSE
            if c is TRUE: continue
            for x in (c.args if c.op == "and" else (c,)):
                if x not in out: out.append(x)
        return TRUE if not out else out[0] if len(out) == 1 else mk("and", *out)
    def tor(self, cs):
        out = []
        for c in cs:
            if c is TRUE: return TRUE
            if c is FALSE: continue
            for x in (c.args if c.op == "or" else (c,)):
                if x not in out: out.append(x)
        return FALSE if not out else out[0] if len(out) == 1 else mk("or", *out)

    # ------------------------------------------------------------ value <-> term
    def wrap(self, t):
        if not isinstance(t, Term): return t
        k = kind(t)[0]
        if k in SCALAR or is_const(t): return t
        if t.op == "tuple": return TupleVal([self.wrap(a) for a in t.args])
        if t.op == "fold" or k == "any" or k in ("tensor", "ndarray", "list", "dict", "tuple", "set"):
            c = self.new(); self.cellbase[c] = t
            return TRef(c, t)
        return t
    def term(self, st, v):
        if isinstance(v, Term): return v
        if isinstance(v, TRef):
            b = st.over.get(v.cell)
            return v.cur if b is None else apply_chain(b, v.chain)
        return self.snapshot(st, v)
    def segterm(self, st, segs):
        """term of a list"""
        segs = [mk("splat", s.term) if isinstance(s, Splat) else self.snapshot(st, s) for s in segs]
        out = []
        for s in segs:
            if s.op == "splat" and s.args[0].op == "list": out.extend(s.args[0].args)
            else: out.append(s)
        if len(out) == 1 and out[0].op == "splat": return out[0].args[0]
        return mk("list", *out)
    def snapshot(self, st, v, seen=()):
        if isinstance(v, Term): return v
        if isinstance(v, TRef): return self.term(st, v)
        if isinstance(v, TupleVal): return mk("tuple", *[self.snapshot(st, x, seen) for x in v.items])
        if isinstance(v, Choice): return T.ite(v.cond, self.snapshot(st, v.a, seen), self.snapshot(st, v.b, seen))
        if isinstance(v, Ref):
            if v.oid in seen: return mk("cycle")
            o = st.heap.get(v.oid)
            if o is None: return mk("lost")
            s2 = seen + (v.oid,)
            if isinstance(o, Lst): return self.segterm(st, o.segs)
            if isinstance(o, SetV):
                t = mk("set", mk("list", *[k if c is TRUE else T.ite(c, k, mk("absent")) for k, c in sorted(o.items.items(), key=lambda kc: T.skey(kc[0]))])); t.kind_ = ("set",); return t
            if isinstance(o, Dct):
                kv = []
                for k, x in o.items.items(): kv += [k, self.snapshot(st, x, s2)]
                if o.base is not None and not kv: return o.base
                return mk("dict", *(([mk("splat", o.base)] if o.base is not None else []) + kv)) if o.base is None else mk("dictupd", o.base, *kv)
            return mk("obj", o.cls.name if o.cls else "?", *[mk("kw", k, self.snapshot(st, x, s2)) for k, x in sorted(o.attrs.items()) if x is not UNDEF])
        if isinstance(v, InstDict): return self.snapshot(st, self.instdict(st, v), seen)
        if isinstance(v, Func): return mk("func", v.module.name, v.name) if not isinstance(v.node, ast.Lambda) else self.lambda_term(st, v)
        if isinstance(v, Cls): return mk("cls", v.name)
        if isinstance(v, Ext): return mk("ext", v.name)
        if isinstance(v, Mod): return mk("mod", v.module.name)
        if isinstance(v, Bound): return mk("bound", v.func.name, self.snapshot(st, v.self_, seen))
        if isinstance(v, BoundExt): return mk("boundext", v.name, self.snapshot(st, v.recv, seen))
        if v is UNDEF: return mk("undef")
        return mk("opaque", type(v).__name__)
    def instdict(self, st, v):
        """a dictionary of its own with the attributes of an object"""
        o = st.heap[v.oid]
        return self.alloc(st, Dct({const(k): x for k, x in o.attrs.items() if not k.startswith("%") and x is not UNDEF}))
    def lambda_term(self, st, v):
        """an anonymous function as the value graph of its body over bound variables"""
        a = v.node.args
        if not (a.defaults or a.kwonlyargs or a.vararg or a.kwarg) and getattr(self, "inlam", 0) < 3:
            s = st.copy(); em = len(self.events); self.sinks.append([]); self.inlam = getattr(self, "inlam", 0) + 1
            try:
                r = self.call_func(s, v, [self.wrap(mk("bound", "lam", const(self.inlam), const(i))) for i in range(len(a.args))], {})
                return mk("lambda", const(len(a.args)), self.snapshot(s, r))
            except (Dead, Unsupported): pass
            finally: self.sinks.pop(); del self.events[em:]; self.inlam -= 1
        return mk("func", ast.unparse(v.node))
    def op(self, name, *args):
        t = mk(name, *args)
        self.mark(t)
        if self.nograd and T.is_tensor_kind(kind(t)) and kind(t)[2] != "bool":
            t = self.mark(mk("nograd", t))
        return self.wrap(t)

    # ------------------------------------------------------------ truth values
    def cond(self, st, v):
        if isinstance(v, Choice):
            a, b = self.cond(st, v.a), self.cond(st, v.b)
            if a is b: return a
            return self.tor([self.tand([v.cond, a]), self.tand([self.tnot(v.cond), b])])
        if isinstance(v, TupleVal): return const(len(v.items) > 0)
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, Lst):
                if o.concrete(): return const(bool(o.segs))
                if any(not isinstance(s, Splat) for s in o.segs): return TRUE
                return mk("ne", self.len_term(st, v), const(0))
            if isinstance(o, Dct):
                if o.items: return TRUE
                return FALSE if o.base is None else mk("truth", o.base)
            return TRUE
        if isinstance(v, (Func, Cls, Mod, Ext, Bound, BoundExt)): return TRUE
        t = T.known(self.term(st, v))
        if is_const(t): return const(bool(cval(t)))
        k = kind(t)
        if k[0] == "bool": return t
        if t.op == "textlen": return TRUE
        if k[0] in ("int", "float"): return mk("ne", t, const(0))
        if k[0] == "str" and has_token(text_parts(t) or []): return TRUE
        if k[0] == "str": return mk("ne", t, const(""))
        if k[0] == "list": return mk("ne", self.len_of(t), const(0))
        if k[0] == "none": return FALSE
        if t.op == "ite":
            return self.tor([self.tand([t.args[0], self.cond(st, t.args[1])]), self.tand([self.tnot(t.args[0]), self.cond(st, t.args[2])])])
        if T.is_tensor_kind(k): 
            return mk("truth", t)
        return mk("truth", t)

    def resolve(self, st, v):
        """drop alternatives excluded by the facts"""
        while isinstance(v, Choice):
            f = self.fact(st, v.cond)
            if f is None: return v
            v = v.a if f else v.b
        if isinstance(v, Term) and v.op == "ite":
            f = self.fact(st, v.args[0])
            if f is not None: return self.resolve(st, v.args[1] if f else v.args[2])
        return v

    def split(self, st, v, fn):
        """apply fn(state, value) to both alternatives of a Choice and join"""
        a, b = st.copy(), st.copy()
        self.assume(a, v.cond, True); self.assume(b, v.cond, False)
        base = st.dec
        a.dec = base + ((v.cond, True, "b"),); b.dec = base + ((v.cond, False, "b"),)
        def run(s, x):
            try: return fn(s, x)
            except Dead:
                s.dead = True; return None
        ra = run(a, v.a); rb = run(b, v.b)
        if a.dead and b.dead:
            st.assign(a); st.dead = True; raise Dead()
        if a.dead: b.dec = base + ((v.cond, False, "x"),); st.assign(b); return rb
        if b.dead: a.dec = base + ((v.cond, True, "x"),); st.assign(a); return ra
        s = self.merge(v.cond, a, b, base)
        r = self.merge_val(s, v.cond, ra, rb, a, b) if ra is not None and rb is not None else ra
        st.assign(s)
        return r

    # ------------------------------------------------------------ evaluation
    def eval(self, st, n):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported("step budget exhausted")
        m = getattr(self, "e_" + type(n).__name__, None)
        if hasattr(n, "lineno") and self.frames: self.loc = (self.frames[-1].module.path, n.lineno)
        if m is None:
            self.note("expression %s not modelled" % type(n).__name__)
            return self.wrap(mk("opaque", ast.unparse(n)))
        v = m(st, n)
        if isinstance(v, (Choice,)) or (isinstance(v, Term) and v.op == "ite"): v = self.resolve(st, v)
        if isinstance(v, TRef):
            t = self.term(st, v)
            if t.op == "ite":
                f = self.fact(st, t.args[0])
                if f is not None:
                    j = self.joined.get(v.cell) if not v.chain and v.cell not in st.over else None
                    r = (j[1] if f else j[2]) if j is not None and j[0] is t.args[0] else None
                    if r is not None and self.term(st, r) is t.args[1 if f else 2]: return r
                    return self.wrap(t.args[1] if f else t.args[2])
        return v

    def e_Constant(self, st, n):
        if n.value is Ellipsis: return ELL
        return const(n.value)
    def e_Name(self, st, n):
        return self.lookup(st, n.id)
    def lookup(self, st, name):
        fr = self.frames[-1]
        e = st.envs.get(fr.fid)
        if e is not None and name in e:
            v = e[name]
            if v is UNDEF:
                self.event(st, "unbound", name)
            return v
        f = fr.func
        seen = 0
        while f is not None and f.closure is not None and seen < 10:
            e = st.envs.get(f.closure)
            if e is not None and name in e: return e[name]
            par = [x for x in self.frames if x.fid == f.closure]
            f = par[0].func if par else None
            seen += 1
        if fr.func is not None and fr.func.env and name in fr.func.env: return fr.func.env[name]
        if self.is_local(fr, name):
            self.event(st, "unbound", name)
            self.do_raise(st, "UnboundLocalError"); st.dead = True
            raise Dead()
        return self.global_value(st, fr.module, name)
    def is_local(self, fr, name):
        n = fr.func.node if fr.func else None
        if not isinstance(n, ast.FunctionDef) or name in fr.globals_: return False
        for x in self.own_nodes(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == name: return not self.in_comp(n, x)
        return False
    def in_comp(self, fn, name):
        for c in ast.walk(fn):
            if isinstance(c, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                if any(x is name for x in ast.walk(c)): return True
        return False

    BUILTINS = {"len", "range", "enumerate", "zip", "list", "tuple", "dict", "set", "isinstance", "type", "getattr", "setattr", "hasattr", "any", "all", "max", "min", "sum", "sorted", "int", "float", "bool", "str",
                "print", "map", "filter", "abs", "iter", "next", "open", "super", "reversed", "repr", "callable", "property", "object", "round", "divmod", "slice", "id", "issubclass", "eval", "exec", "compile", "__import__", "frozenset", "bytes", "pow", "vars", "hash", "chr", "ord", "staticmethod", "classmethod", "delattr", "dir", "globals", "locals", "input", "NotImplemented"}
    def global_value(self, st, mod, name):
        if name in ("__file__", "__name__"): return const(mod.name)
        b = mod.binds.get(name)
        if b is None:
            for s in mod.star:
                m = self.tree.modules.get(s)
                if m is not None and self.exported(m, name):
                    v = self.module_attr(st, m, name)
                    if v is not None: return v
            if name in self.BUILTINS or name.endswith(("Error", "Exception", "Warning", "StopIteration")): return Ext("builtins." + name)
            if name == "Ellipsis": return ELL
            if name == "NotImplemented": return self.wrap(mk("ext", "builtins.NotImplemented"))
            self.event(st, "undefined", name)
            return self.wrap(mk("undefined", name))
        return self.bind_value(st, mod, name, b)
    def bind_value(self, st, mod, name, b):
        if isinstance(b, ast.FunctionDef): return Func(b, mod)
        if isinstance(b, ast.ClassDef): return Cls(b, mod)
        if isinstance(b, tuple):
            if b[0] == "import": return self.import_value(b[1])
            return self.from_value(st, b[1], b[2])
        # module level assignment: evaluated in its own frame
        key = (mod.name, name)
        g = self.globals_cache.get(key)
        if g is None:
            from .interp import Frame
            fn = Func(ast.parse("lambda: 0", mode="eval").body, mod)
            fr = Frame(self.new(), fn, mod, len(st.dec))
            self.frames.append(fr); st.envs[fr.fid] = {}
            loc = self.loc
            try:
                self.exec(st, b)
                v = st.envs[fr.fid].get(name, UNDEF)
            except (Dead, RecursionError):
                v = self.wrap(mk("global", mod.name, name))
            finally:
                self.frames.pop(); st.envs.pop(fr.fid, None); self.loc = loc
            if isinstance(v, Ref) and isinstance(st.heap.get(v.oid), (Lst, Dct, SetV)) and self.mutated_global(mod, name):
                st.heap.pop(v.oid, None)
                v = self.wrap(mk("globalstate", mod.name, name))
            if isinstance(v, (Term, TRef)): self.globals_cache[key] = v
            return v
        return g
    def mutated_global(self, mod, name):
        for x in ast.walk(mod.ast):
            if isinstance(x, ast.FunctionDef):
                for y in ast.walk(x):
                    if isinstance(y, ast.Subscript) and isinstance(y.ctx, (ast.Store, ast.Del)) and isinstance(y.value, ast.Name) and y.value.id == name: return True
                    if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and isinstance(y.func.value, ast.Name) and y.func.value.id == name and y.func.attr in ("append", "update", "setdefault", "add", "pop", "clear", "extend", "insert"): return True
                    if isinstance(y, ast.Global) and name in y.names: return True
        return False
    def module_attr(self, st, m, name):
        b = m.binds.get(name)
        if b is not None: return self.bind_value(st, m, name, b)
        busy = self.__dict__.setdefault("_attr_busy", set())
        if (m.name, name) not in busy:
            busy.add((m.name, name))
            try:
                for s in m.star:
                    mm = self.tree.modules.get(s)
                    if mm is not None and self.exported(mm, name):
                        v = self.module_attr(st, mm, name)
                        if v is not None: return v
            finally:
                busy.discard((m.name, name))
        sub = self.tree.modules.get(m.name + "." + name)
        return Mod(sub) if sub is not None else None
    def exported(self, m, name):
        """may `from m import *` bind this name"""
        a = m.binds.get("__all__")
        if isinstance(a, ast.Assign) and isinstance(a.value, (ast.List, ast.Tuple)):
            return any(isinstance(e, ast.Constant) and e.value == name for e in a.value.elts)
        return not name.startswith("_")
    def import_value(self, dotted):
        m = self.tree.modules.get(dotted)
        return Mod(m) if m is not None else Ext(dotted)
    def from_value(self, st, mod, name):
        m = self.tree.modules.get(mod)
        if m is not None:
            v = self.module_attr(st, m, name)
            if v is not None: return v
            self.event(st, "undefined", mod + "." + name)
            return Ext(mod + "." + name)
        s = self.tree.modules.get(mod + "." + name)
        if s is not None: return Mod(s)
        return Ext(mod + "." + name)

    def e_Tuple(self, st, n): return TupleVal(self.elts(st, n.elts))
    def elts(self, st, es):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                v = self.eval(st, e.value)
                items = self.seq_items(st, v)
                if items is None: 
                    self.note("star of symbolic sequence"); out.append(self.wrap(mk("splatarg", self.term(st, v))))
                else: out.extend(items)
            else: out.append(self.eval(st, e))
        return out
    def e_List(self, st, n):
        segs = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.eval(st, e.value)
                items = self.seq_items(st, v)
                if items is None: segs.append(Splat(self.term(st, v)))
                else: segs.extend(items)
            else: segs.append(self.eval(st, e))
        return self.alloc(st, Lst(segs))
    def e_Set(self, st, n):
        return self.wrap(mk("set", mk("list", *[self.snapshot(st, x) for x in self.elts(st, n.elts)])))
    def e_Dict(self, st, n):
        d = Dct()
        for k, v in zip(n.keys, n.values):
            if k is None:
                w = self.eval(st, v)
                if isinstance(w, Ref) and isinstance(st.heap[w.oid], Dct): d.items.update(st.heap[w.oid].items)
                else: self.note("dict unpacking")
                continue
            kk = self.snapshot(st, self.eval(st, k))
            d.items[kk] = self.eval(st, v)
        return self.alloc(st, d)
    def e_JoinedStr(self, st, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant): parts.append(const(v.value))
            else:
                x = self.eval(st, v.value)
                t = self.snapshot(st, x)
                spec = const(ast.unparse(v.format_spec)) if v.format_spec is not None else NONE
                if is_const(t) and isinstance(cval(t), str) and spec is NONE: parts.append(t)
                elif is_const(t) and isinstance(cval(t), int) and spec is NONE: parts.append(const(str(cval(t))))
                else: parts.append(mk("fmt", t, spec) if spec is not NONE or kind(t)[0] != "str" else t)
        return self.strcat(parts)
    def strcat(self, parts):
        out = []
        for p in parts:
            for q in (p.args if p.op == "str" else (p,)):
                if out and is_const(q) and is_const(out[-1]): out[-1] = const(cval(out[-1]) + cval(q))
                elif is_const(q) and cval(q) == "": continue
                else: out.append(q)
        if not out: return const("")
        return out[0] if len(out) == 1 and kind(out[0])[0] == "str" else mk("str", *out)
    def e_FormattedValue(self, st, n): return self.e_JoinedStr(st, ast.JoinedStr([n]))
    def e_Lambda(self, st, n): return Func(n, self.frames[-1].module, closure=self.frames[-1].fid, cls=self.frames[-1].cls)
    def e_NamedExpr(self, st, n):
        v = self.eval(st, n.value); self.assign(st, n.target, v); return v
    def e_Starred(self, st, n): return self.eval(st, n.value)
    def e_Yield(self, st, n): self.s_yield(st, n); return NONE
    def e_Await(self, st, n): return self.eval(st, n.value)

    def e_IfExp(self, st, n):
        c = self.cond(st, self.eval(st, n.test))
        f = self.fact(st, c)
        if f is not None: return self.eval(st, n.body if f else n.orelse)
        x, y = n.body, n.orelse
        if c.op == "not": c = c.args[0]; x, y = y, x
        return self.split(st, Choice(c, x, y), lambda s, e: self.eval(s, e))
    def e_BoolOp(self, st, n):
        isand = isinstance(n.op, ast.And)
        return self.boolop(st, n.values, isand)
    def boolop(self, st, vals, isand):
        v = self.eval(st, vals[0])
        if len(vals) == 1: return v
        c = self.cond(st, v)
        f = self.fact(st, c)
        if f is not None:
            if f is isand: return self.boolop(st, vals[1:], isand)
            return v if not isinstance(v, Term) or kind(v)[0] != "bool" else const(f)
        s2 = st.copy()
        self.assume(s2, c, isand)
        base = st.dec
        s2.dec = base + ((c, isand, "b"),)
        r = None
        try:
            r = self.boolop(s2, vals[1:], isand)
        except Dead:
            s2.dead = True
        if s2.dead:
            self.assume(st, c, not isand)
            return v
        s1 = st.copy()
        merged = self.merge(c if isand else self.tnot(c), s2, s1, base)
        isb = lambda x: isinstance(x, Term) and kind(x)[0] == "bool"
        if isb(v) and (isb(r) or True):
            rc = self.cond(s2, r)
            out = self.tand([c, rc]) if isand else self.tor([c, rc])
            if not isb(r) and not isinstance(r, Term): out = self.merge_val(merged, c, r if isand else v, v if isand else r, s2, s1)
        else:
            out = self.merge_val(merged, c, r if isand else v, v if isand else r, s2 if isand else s1, s1 if isand else s2)
        st.assign(merged)
        return out
    def e_UnaryOp(self, st, n):
        v = self.eval(st, n.operand)
        o = type(n.op).__name__
        if o == "Not": return self.tnot(self.cond(st, v))
        if isinstance(v, Ref) and isinstance(st.heap.get(v.oid), Obj):
            m = {"USub": "__neg__", "Invert": "__invert__"}.get(o)
            f = self.find_method(st, st.heap[v.oid].cls, m) if m else None
            if f: return self.call_func(st, f, [], {}, self_=v)
        t = self.term(st, v)
        if is_const(t) and isinstance(cval(t), (int, float)):
            x = cval(t)
            return const(-x if o == "USub" else +x if o == "UAdd" else ~int(x))
        if o == "USub": return self.op("neg", t)
        if o == "UAdd": return v
        return self.op("not", t)

    def e_BinOp(self, st, n):
        a = self.eval(st, n.left); b = self.eval(st, n.right)
        self.loc = (self.frames[-1].module.path, n.lineno)
        return self.binop(st, type(n.op).__name__, a, b)
    DUNDER = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__", "MatMult": "__matmul__", "BitAnd": "__and__", "BitOr": "__or__"}
    def binop(self, st, o, a, b):
        a, b = self.resolve(st, a), self.resolve(st, b)
        if isinstance(a, Choice): return self.split(st, a, lambda s, x: self.binop(s, o, x, b))
        if isinstance(b, Choice): return self.split(st, b, lambda s, x: self.binop(s, o, a, x))
        if isinstance(a, Ref) and isinstance(st.heap[a.oid], Obj):
            f = self.find_method(st, st.heap[a.oid].cls, self.DUNDER.get(o, "?"))
            if f: return self.call_func(st, f, [b], {}, self_=a)
        if o == "Add":
            if isinstance(a, TupleVal) and isinstance(b, TupleVal): return TupleVal(a.items + b.items)
            if isinstance(a, Ref) and isinstance(st.heap[a.oid], Lst):
                if isinstance(b, Ref) and isinstance(st.heap[b.oid], Lst):
                    return self.alloc(st, Lst(list(st.heap[a.oid].segs) + list(st.heap[b.oid].segs)))
                return self.alloc(st, Lst(list(st.heap[a.oid].segs) + [Splat(self.term(st, b))]))
            if isinstance(b, Ref) and isinstance(st.heap[b.oid], Lst) and kind(self.term(st, a))[0] in ("list", "any"):
                return self.alloc(st, Lst([Splat(self.term(st, a))] + list(st.heap[b.oid].segs)))
        if o == "Mult":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Ref) and isinstance(st.heap[x.oid], Lst):
                    c = self.term(st, y); l = st.heap[x.oid]
                    if is_const(c) and isinstance(cval(c), int) and cval(c) <= 64: return self.alloc(st, Lst(list(l.segs) * cval(c)))
                    if len(l.segs) == 1 and not isinstance(l.segs[0], Splat):
                        return self.alloc(st, Lst([Splat(mk("map", self.depth, c, self.snapshot(st, l.segs[0])))]))
                if isinstance(x, TupleVal):
                    c = self.term(st, y)
                    if is_const(c): return TupleVal(x.items * cval(c))
        if o == "Mod":
            ta = self.term(st, a)
            if kind(ta)[0] == "str":
                tb = self.snapshot(st, b)
                if is_const(ta) and (is_const(tb) or tb.op == "tuple" and all(is_const(y) for y in tb.args)):
                    try: return const(cval(ta) % (cval(tb) if is_const(tb) else tuple(cval(y) for y in tb.args)))
                    except (TypeError, ValueError): pass
                return self.mark(mk("str", mk("fmt%", ta, tb)))
        x, y = self.term(st, a), self.term(st, b)
        for z in (x, y):
            if z is NONE:
                self.event(st, "none-op", o); self.do_raise(st, "TypeError"); st.dead = True; raise Dead()
        if is_const(x) and is_const(y):
            r = self.fold_const(o, cval(x), cval(y))
            if r is not None: return const(r)
        if o == "Add" and (kind(x)[0] == "str" or kind(y)[0] == "str"): return self.strcat([x, y])
        if o == "Add" and (kind(x)[0] in ("list", "tuple") or kind(y)[0] in ("list", "tuple")):
            return self.wrap(self.mark(mk("concat", x, y)))
        nm = BIN[o]
        if T.is_tensor_kind(kind(x)) and T.is_tensor_kind(kind(y)) and T.misfit(nm, x, y): self.event(st, "badshape", "%s %s %s" % (T.shapetext(x), o, T.shapetext(y)))
        if nm == "div":
            self.event(st, "div", (x, y))
        if nm == "pow" and T.is_num(y) and cval(y) < 0: self.event(st, "div", (const(1), x))
        if nm in ("bitand", "bitor") and kind(x)[0] == "bool" and kind(y)[0] == "bool":
            return self.tand([x, y]) if nm == "bitand" else self.tor([x, y])
        return self.op(nm, x, y)
    def fold_const(self, o, x, y):
        try:
            if o == "Add": return x + y
            if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                if o == "Sub": return x - y
                if o == "Mult": return x * y
                if o == "Div": return x / y
                if o == "FloorDiv": return x // y
                if o == "Mod": return x % y
                if o == "Pow": return x ** y
                if o == "BitAnd": return x & y
                if o == "BitOr": return x | y
            if o == "Mult" and isinstance(x, str): return x * y
        except Exception:
            return None
        return None

    def e_Compare(self, st, n):
        l = self.eval(st, n.left); res = []
        for o, r in zip(n.ops, n.comparators):
            rv = self.eval(st, r)
            res.append(self.compare(st, type(o).__name__, l, rv))
            l = rv
        if len(res) == 1: return res[0]
        return self.tand([self.cond(st, r) for r in res])
    def compare(self, st, o, a, b):
        a, b = self.resolve(st, a), self.resolve(st, b)
        if o in ("Is", "IsNot"):
            r = self.is_same(st, a, b)
            return r if o == "Is" else self.tnot(r)
        if isinstance(a, Choice): return self.split(st, a, lambda s, x: self.compare(s, o, x, b))
        if isinstance(b, Choice): return self.split(st, b, lambda s, x: self.compare(s, o, a, x))
        if o in ("Eq", "NotEq"):
            r = self.equal(st, a, b)
            if isinstance(r, TRef) or (isinstance(r, Term) and kind(r)[0] not in ("bool",)):
                if o == "Eq": return r
                t = self.term(st, r)
                return self.op("ne", *t.args) if t.op == "eq" else self.op("not", t)
            return r if o == "Eq" else self.tnot(r)
        if o in ("In", "NotIn"):
            r = self.contains(st, a, b)
            return r if o == "In" else self.tnot(r)
        x, y = self.term(st, a), self.term(st, b)
        for z in (x, y):
            if z is NONE:
                self.event(st, "none-op", o); self.do_raise(st, "TypeError"); st.dead = True; raise Dead()
        for p, q, r in ((x, y, {"Gt": 0, "GtE": 1}), (y, x, {"Lt": 0, "LtE": 1})):
            if p.op == "textlen" and is_const(q) and o in r and cval(q) <= r[o]: return TRUE
        if is_const(x) and is_const(y):
            try:
                return const({"Lt": cval(x) < cval(y), "LtE": cval(x) <= cval(y), "Gt": cval(x) > cval(y), "GtE": cval(x) >= cval(y)}[o])
            except TypeError: pass
        if o in ("Gt", "GtE"): x, y = y, x; o = "Lt" if o == "Gt" else "LtE"
        if o == "LtE" and kind(x)[0] == "int" and kind(y)[0] == "int" and x is y: return TRUE
        return self.op("lt" if o == "Lt" else "le", x, y)
    def is_same(self, st, a, b):
        if isinstance(a, Choice):
            return self.tor([self.tand([a.cond, self.is_same(st, a.a, b)]), self.tand([self.tnot(a.cond), self.is_same(st, a.b, b)])])
        if isinstance(b, Choice): return self.is_same(st, b, a)
        if b is NONE or a is NONE:
            o = a if b is NONE else b
            if not isinstance(o, (Term, TRef)): return const(False)
            t = self.term(st, o)
            if t is NONE: return TRUE
            if t.op == "ite": return self.tor([self.tand([t.args[0], self.is_same(st, t.args[1], NONE)]), self.tand([self.tnot(t.args[0]), self.is_same(st, t.args[2], NONE)])])
            k = kind(t)
            if k[0] not in ("any",): return FALSE
            if t.op in ("getitem", "call", "attr", "sym", "ite", "mu", "fold", "globalstate") or k[0] == "any": 
                return mk("is", t, NONE)
            return FALSE
        if isinstance(a, Ref) and isinstance(b, Ref): return const(a.oid == b.oid)
        if isinstance(a, Ref) != isinstance(b, Ref): return FALSE
        if isinstance(a, Cls) and isinstance(b, Cls): return const(a == b)
        if isinstance(a, Ext) and isinstance(b, Ext): return const(a.name == b.name)
        if isinstance(a, (Cls, Ext)) and isinstance(b, (Cls, Ext)): return FALSE
        x, y = self.term(st, a), self.term(st, b)
        if is_const(x) and is_const(y): return const(x is y)
        return mk("is", x, y)
    def devtype(self, t):
        """"cpu" or "cuda" when the device denoted by t is known from the source"""
        for _ in range(40):
            if is_const(t): return cval(t).split(":")[0] if isinstance(cval(t), str) else None
            if t.op == "call" and t.args[0] == "torch.device": t = t.args[1]
            elif t.op == "attr" and t.args[0] == "device" and t.args[1].op == "to":
                dv = [a.args[1] for a in t.args[1].args[1:] if a.op == "kw" and a.args[0] == "device"]
                if not dv: return None
                t = dv[0]
            elif t.op == "attr" and t.args[0] == "device" and t.args[1].op in SAMEDEV: t = mk("attr", "device", t.args[1].args[0])
            else: return None
    def equal(self, st, a, b):
        if isinstance(a, TupleVal) and isinstance(b, TupleVal):
            if len(a.items) != len(b.items): return FALSE
            return self.tand([self.cond(st, self.equal(st, x, y)) for x, y in zip(a.items, b.items)])
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.oid == b.oid: return TRUE
            x, y = st.heap[a.oid], st.heap[b.oid]
            if isinstance(x, Lst) and isinstance(y, Lst) and x.concrete() and y.concrete():
                if len(x.segs) != len(y.segs): return FALSE
                return self.tand([self.cond(st, self.equal(st, p, q)) for p, q in zip(x.segs, y.segs)])
        if isinstance(a, (Cls, Ext, Func)) and isinstance(b, (Cls, Ext, Func)):
            return const(self.snapshot(st, a) is self.snapshot(st, b))
        x, y = self.snapshot(st, a), self.snapshot(st, b)
        if x.op in ("ext", "cls", "func") and y.op in ("ext", "cls", "func"): return const(x is y)
        if x is y and not T.is_tensor_kind(kind(x)): return TRUE
        if kind(x)[0] == "device" or kind(y)[0] == "device":
            dx, dy = self.devtype(x), self.devtype(y)
            if dx and dy and dx != dy: return FALSE
        if is_const(x) and is_const(y):
            try: return const(cval(x) == cval(y))
            except Exception: pass
        for p, q in ((x, y), (y, x)):
            if is_const(q) and isinstance(cval(q), str):
                if p.op == "tokchar" and (cval(q) in WS + "#," or len(cval(q)) != 1): return FALSE
                if kind(p)[0] == "str" and not cval(q).strip():
                    ps = text_parts(p)
                    if ps is not None and has_token(ps): return FALSE
            if p.op == "textlen" and is_const(q) and cval(q) == 0: return FALSE
        if x is NONE or y is NONE:
            o = y if x is NONE else x
            if kind(o)[0] != "any": return FALSE
            return mk("eq", x, y)
        for p, q in ((x, y), (y, x)):
            if p.op == "dtype" and q.op == "attr" and q.args[0] == "dtype":
                kq = kind(q.args[1])
                if q.args[1].op == "tensor":
                    e = T.getkw(q.args[1], "dtype")
                    if e is not None and e.op == "dtype": return const(e is p)
                    if e is None and kq[2] in ("int", "bool"): return const(p.args[0] in ("bool", "int64") and p.args[0].startswith(kq[2]))
                if T.is_tensor_kind(kq) and kq[2] is not None:
                    fam = "bool" if p.args[0] == "bool" else "float" if "float" in p.args[0] else "int"
                    if fam != kq[2]: return FALSE
                    if fam == "bool": return TRUE
        if (x.op == "tuple") != (y.op == "tuple") and "tuple" in (x.op, y.op):
            p, q = (x, y) if x.op == "tuple" else (y, x)
            if q.op in ("attr", "getitem"):
                return mk("eq", q, p)
            if is_const(q): return FALSE
        if x.op == "const" and y.op != "const": x, y = y, x
        elif is_const(x) == is_const(y) and T.skey(y) < T.skey(x): x, y = y, x
        t = mk("eq", x, y)
        if T.is_tensor_kind(kind(t)): return self.wrap(self.mark(t))
        return self.mark(t)
    def contains(self, st, a, b):
        if isinstance(b, InstDict): b = self.instdict(st, b)
        if isinstance(b, Ref) and isinstance(st.heap[b.oid], Obj) and "%dict" in st.heap[b.oid].attrs and not self.find_method(st, st.heap[b.oid].cls, "__contains__"): b = st.heap[b.oid].attrs["%dict"]
        if isinstance(b, Ref) and isinstance(st.heap[b.oid], SetV):
            d = st.heap[b.oid]; k = self.snapshot(st, a)
            if is_const(k) and all(is_const(x) for x in d.items): return d.items.get(k, FALSE)
            return self.tor([self.tand([c, self.cond(st, self.equal(st, k, x))]) for x, c in d.items.items()])
        items = self.seq_items(st, b)
        if isinstance(b, Ref) and isinstance(st.heap[b.oid], Dct):
            d = st.heap[b.oid]
            if d.base is None:
                k = self.snapshot(st, a)
                if k in d.items: return TRUE if d.items[k] is not UNDEF else mk("in", k, self.snapshot(st, b))
                if is_const(k) and all(is_const(x) for x in d.items): return FALSE
                return mk("in", k, mk("list", *sorted(d.items, key=T.skey)))
        if isinstance(b, Ref) and isinstance(st.heap[b.oid], Obj):
            f = self.find_method(st, st.heap[b.oid].cls, "__contains__")
            if f: return self.call_func(st, f, [a], {}, self_=b)
        if items is not None:
            cs = [self.cond(st, self.equal(st, a, x)) for x in items]
            return self.tor(cs)
        x, y = self.snapshot(st, a), self.snapshot(st, b)
        if is_const(x) and is_const(y) and isinstance(cval(y), str): return const(cval(x) in cval(y))
        if y.op == "set" and y.args and y.args[0].op == "list" and not any(q.op == "splat" for q in y.args[0].args):
            return self.tor([self.cond(st, self.equal(st, x, q)) for q in y.args[0].args])
        return self.mark(mk("in", x, y))

    # ------------------------------------------------------------ sequences
    def seq_items(self, st, v):
        """python list of values when the length is known"""
        if isinstance(v, Choice):
            a, b = self.seq_items(st, v.a), self.seq_items(st, v.b)
            if a is None or b is None or len(a) != len(b): return None
            return [self.merge_val(st, v.cond, x, y, st, st) for x, y in zip(a, b)]
        if isinstance(v, TupleVal): return list(v.items)
        if isinstance(v, Ref):
            o = st.heap.get(v.oid)
            if isinstance(o, Lst) and o.concrete(): return list(o.segs)
            if isinstance(o, Dct) and o.base is None: return list(o.items)
            if isinstance(o, SetV) and o.certain(): return self.scramble([self.wrap(k) for k in o.items])
            if isinstance(o, Obj) and "%dict" in o.attrs and not self.find_method(st, o.cls, "__iter__"): return self.seq_items(st, o.attrs["%dict"])
            return None
        if isinstance(v, (Term, TRef)):
            t = self.term(st, v)
            if t.op in ("tuple", "list") and not any(a.op == "splat" for a in t.args): return [self.wrap(a) for a in t.args]
            if t.op == "range" and all(is_const(a) for a in t.args): return [const(i) for i in range(*[cval(a) for a in t.args])]
            if is_const(t) and isinstance(cval(t), str): return [const(c) for c in cval(t)]
            if t.op == "attr" and t.args[0] == "shape":
                n = T.ndim(t.args[1])
                if n is not None: return [T.dimterm(t.args[1], i) for i in range(n)]
            if t.op == "set" and t.args[0].op == "list": return self.scramble([self.wrap(a) for a in t.args[0].args])
            if t.op == "file": return self.file_lines(t)
        return None
    def iter_domain(self, st, v):
        v = self.resolve(st, v)
        items = self.seq_items(st, v)
        if items is not None: return ("items", items)
        if isinstance(v, IterVal): return v.domain(self, st)
        if isinstance(v, Ref) and isinstance(st.heap[v.oid], Obj):
            n = self.len_term(st, v)
            return ("sym", n, lambda s, ix: self.get_item(s, v, ix))
        t = self.term(st, v)
        if t.op == "range":
            if len(t.args) == 3 and t.args[0] is const(0) and t.args[2] is const(1):
                if is_const(t.args[1]): return ("items", [const(i) for i in range(max(0, cval(t.args[1])))])
                return ("sym", t.args[1], lambda s, ix: ix)
            a, b, c = t.args
            n = mk("rangelen", a, b, c)
            return ("sym", n, lambda s, ix: mk("add", a, mk("mul", c, ix)))
        n = self.len_of(t)
        if is_const(n) and isinstance(cval(n), int) and cval(n) <= 16 and (T.is_tensor_kind(kind(t)) or t.op in ("getitem", "map")):
            return ("items", [self.get_item(st, v, const(i)) for i in range(cval(n))])
        if t.op == "map":
            return ("sym", n, lambda s, ix: self.wrap(T.getitem(self.term(s, v), ix)))
        return ("sym", n, lambda s, ix: self.get_item(s, v, ix))
    def len_of(self, t):
        if t.op in ("map",): return t.args[1]
        if t.op in ("tuple", "list") and not any(a.op == "splat" for a in t.args): return const(len(t.args))
        if t.op == "list":
            n = sum(1 for a in t.args if a.op != "splat")
            r = None
            for a in t.args:
                if a.op == "splat":
                    l = self.len_of(a.args[0]); r = l if r is None else mk("add", r, l)
            return r if n == 0 else mk("add", r, const(n))
        if t.op == "range" and t.args[0] is const(0) and t.args[2] is const(1): return t.args[1]
        if T.is_tensor_kind(kind(t)): return T.dimterm(t, 0)
        if is_const(t) and isinstance(cval(t), str): return const(len(cval(t)))
        if t.op == "file": return const(len(self.file_lines(t)))
        if t.op == "set" and all(is_const(a) for a in (t.args[0].args if len(t.args) == 1 and t.args[0].op == "list" else t.args)): return const(len({cval(a) for a in (t.args[0].args if len(t.args) == 1 and t.args[0].op == "list" else t.args)}))
        if kind(t)[0] == "str":
            ps = text_parts(t)
            if ps is not None and has_token(ps):
                r = mk("textlen", t); r.kind_ = ("int",); return r
        if t.op == "call" and t.args[0] == "split1": return T.dimterm(t.args[1], 0)
        if t.op == "attr" and t.args[0] == "shape": 
            return self.ndim_term(t.args[1])
        if t.op == "call" and t.args[0] in ("sorted", "list", "tuple", "reversed", "natsort.natsorted") : return self.len_of(t.args[1])
        return mk("len", t)
    def len_term(self, st, v):
        v = self.resolve(st, v)
        if isinstance(v, Choice): return self.term(st, self.split(st, v, lambda s, x: self.len_term(s, x)))
        if isinstance(v, TupleVal): return const(len(v.items))
        if isinstance(v, IterVal): return v.domain(self, st)[1]
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, Dct): return const(len(o.items)) if o.base is None else mk("len", self.snapshot(st, v))
            if isinstance(o, SetV) and o.certain(): return const(len(o.items))
            if isinstance(o, Obj):
                f = self.find_method(st, o.cls, "__len__")
                if not f and "%dict" in o.attrs: return self.len_term(st, o.attrs["%dict"])
                if f: return self.term(st, self.call_func(st, f, [], {}, self_=v))
                return mk("len", self.snapshot(st, v))
        t = self.term(st, v)
        if t is NONE:
            self.event(st, "none-op", "len"); self.do_raise(st, "TypeError"); st.dead = True; raise Dead()
        return self.len_of(t)
    def ndim_term(self, x):
        n = T.ndim(x)
        return const(n) if n is not None else mk("ndim", x)
    def unpack(self, st, v, k):
        v = self.resolve(st, v)
        if isinstance(v, Choice):
            r = self.split(st, v, lambda s, x: TupleVal(self.unpack(s, x, k)))
            return list(r.items) if isinstance(r, TupleVal) else [self.wrap(mk("getitem", self.term(st, r), const(i))) for i in range(k)]
        items = self.seq_items(st, v)
        if items is not None:
            if len(items) != k:
                self.event(st, "badunpack", (k, len(items))); self.do_raise(st, "ValueError"); st.dead = True; raise Dead()
            return items
        if isinstance(v, IterVal): v = v.listval(self, st)
        return [self.get_item(st, v, const(i)) for i in range(k)]

    # ------------------------------------------------------------ comprehensions
    def e_ListComp(self, st, n): return self.comp(st, n, [n.elt], "list")
    def e_GeneratorExp(self, st, n): return self.comp(st, n, [n.elt], "list")
    def e_SetComp(self, st, n):
        return self.wrap(mk("set", self.term(st, self.comp(st, n, [n.elt], "list"))))
    def e_DictComp(self, st, n):
        r = self.comp(st, n, [n.key, n.value], "pairs")
        items = self.seq_items(st, r)
        if items is not None and all(isinstance(x, TupleVal) for x in items):
            return self.alloc(st, Dct({self.snapshot(st, x.items[0]): x.items[1] for x in items}))
        return self.alloc(st, Dct({}, mk("dictof", self.term(st, r))))
    def comp(self, st, n, elts, mode):
        """desugared into nested loops with append, in a scope of its own"""
        fr = self.frames[-1]
        out = self.alloc(st, Lst([]))
        tmp = "%comp" + str(self.new())
        env = st.envs[fr.fid]
        names = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        saved = {k: env[k] for k in names if k in env}
        def inner(s, gens):
            if s.dead: return
            if not gens:
                vs = [self.eval(s, e) for e in elts]
                s.heap[out.oid].segs.append(vs[0] if mode == "list" else TupleVal(vs))
                return
            g = gens[0]
            it = self.eval(s, g.iter)
            dom = self.iter_domain(s, it)
            def step(s2):
                for i, test in enumerate(g.ifs):
                    c = self.cond(s2, self.eval(s2, test)); f = self.fact(s2, c)
                    if f is False: return
                    if f is None:
                        rest = g.ifs[i + 1:]
                        def yes(s3):
                            for t2 in rest:
                                c2 = self.cond(s3, self.eval(s3, t2))
                                f2 = self.fact(s3, c2)
                                if f2 is False: return
                                if f2 is None: 
                                    self.branch(s3, c2, lambda s4: inner(s4, gens[1:]), lambda s4: None); return
                            inner(s3, gens[1:])
                        self.branch(s2, c, yes, lambda s3: None)
                        return
                inner(s2, gens[1:])
            if dom[0] == "items":
                for x in dom[1]:
                    self.assign(s, g.target, x); step(s)
            else:
                _, cnt, elem = dom
                self.sym_loop(s, cnt, lambda s2, ix: self.assign(s2, g.target, elem(s2, ix)), None, None, evalbody=step)
        inner(st, n.generators)
        if st.dead: raise Dead()
        env = st.envs[fr.fid]
        for k in names: env.pop(k, None)
        env.update(saved)
        return out

    # ------------------------------------------------------------ subscripts
    def e_Slice(self, st, n):
        f = lambda x: NONE if x is None else T.known(self.term(st, self.eval(st, x)))
        return mk("slice", f(n.lower), f(n.upper), f(n.step))
    def eval_index(self, st, n):
        return self.eval(st, n)
    def e_Subscript(self, st, n):
        b = self.eval(st, n.value); i = self.eval_index(st, n.slice)
        self.loc = (self.frames[-1].module.path, n.lineno)
        return self.get_item(st, b, i)
    def get_item(self, st, b, i):
        b = self.resolve(st, b); i = self.resolve(st, i)
        if isinstance(b, Choice): return self.split(st, b, lambda s, x: self.get_item(s, x, i))
        if isinstance(i, Choice): return self.split(st, i, lambda s, x: self.get_item(s, b, x))
        if isinstance(b, IterVal): b = b.listval(self, st)
        if isinstance(b, (Ext, Cls)): return b
        it = self.snapshot(st, i)
        if isinstance(b, TupleVal) or (isinstance(b, Ref) and isinstance(st.heap[b.oid], Lst)):
            islist = isinstance(b, Ref)
            segs = list(b.items) if not islist else st.heap[b.oid].segs
            conc = not any(isinstance(s, Splat) for s in segs)
            it = T.known(it)
            if is_const(it) and isinstance(cval(it), int):
                j = cval(it)
                if conc:
                    if -len(segs) <= j < len(segs): return segs[j]
                    self.event(st, "badindex", (j, len(segs))); self.do_raise(st, "IndexError"); st.dead = True; raise Dead()
                if j >= 0 and not any(isinstance(s, Splat) for s in segs[:j + 1]) and j < len(segs): return segs[j]
                if j < 0 and -j <= len(segs) and not any(isinstance(s, Splat) for s in segs[j:]): return segs[j]
            if it.op == "slice" and conc and all(a is NONE or (is_const(a) and isinstance(cval(a), int)) for a in it.args):
                sub = segs[slice(*[cval(a) for a in it.args])]
                return self.alloc(st, Lst(sub)) if islist else TupleVal(sub)
            if it.op == "slice" and islist and all(a is NONE for a in it.args): return self.alloc(st, Lst(segs))
            t = self.snapshot(st, b)
            return self.wrap(self.mark(T.getitem(t, it)))
        if isinstance(b, InstDict):
            o = st.heap[b.oid]
            if is_const(it) and cval(it) in o.attrs and o.attrs[cval(it)] is not UNDEF: return o.attrs[cval(it)]
            if is_const(it):
                self.event(st, "badkey", cval(it)); self.do_raise(st, "KeyError"); st.dead = True; raise Dead()
            return self.wrap(mk("getitem", self.snapshot(st, b), it))
        if isinstance(b, Ref):
            o = st.heap[b.oid]
            if isinstance(o, Dct):
                if it in o.items and o.items[it] is not UNDEF: return o.items[it]
                if o.base is None and is_const(it) and all(is_const(k) for k in o.items):
                    self.event(st, "badkey", cval(it)); self.do_raise(st, "KeyError"); st.dead = True; raise Dead()
                return self.wrap(mk("getitem", self.snapshot(st, b), it))
            if isinstance(o, Obj):
                f = self.find_method(st, o.cls, "__getitem__")
                if f: return self.call_func(st, f, [i], {}, self_=b)
                if "%dict" in o.attrs: return self.get_item(st, o.attrs["%dict"], i)
                return self.wrap(mk("getitem", self.snapshot(st, b), it))
        t = self.term(st, b)
        if t is NONE:
            self.event(st, "none-deref", "[...]"); self.do_raise(st, "TypeError"); st.dead = True; raise Dead()
        if t.op == "attr" and t.args[0] == "shape":
            x = t.args[1]
            if is_const(it): return T.dimterm(x, cval(it))
            if it.op == "slice" and all(a is NONE or is_const(a) for a in it.args):
                n = T.ndim(x)
                if n is not None:
                    return TupleVal([T.dimterm(x, j) for j in range(*slice(*[cval(a) for a in it.args]).indices(n))])
        if is_const(t) and isinstance(cval(t), str):
            if is_const(it): return const(cval(t)[cval(it)])
            if it.op == "slice" and all(is_const(a) for a in it.args): return const(cval(t)[slice(*[cval(a) for a in it.args])])
        if kind(t)[0] == "str":
            r = self.text_item(t, it)
            if r is not None: return r
        if isinstance(b, TRef) and self.basic_index(it):
            g = T.getitem(t, it)
            self.mark(g)
            if kind(g)[0] in SCALAR: return g
            if b.cell in st.over or True:
                return TRef(b.cell, b.base, b.chain + (("getitem", (it,)),))
        g = self.mark(T.getitem(t, it))
        return self.wrap(g)
    def basic_index(self, it):
        its = it.args if it.op == "tuple" else (it,)
        return all(x.op in ("slice", "ellipsis", "ix") or x is NONE or (is_const(x) and isinstance(cval(x), int)) or kind(x)[0] == "int" for x in its)
    def set_item(self, st, b, i, v):
        b = self.resolve(st, b); i = self.resolve(st, i)
        if isinstance(b, Choice): return self.split(st, b, lambda s, x: (self.set_item(s, x, i, v), NONE)[1])
        it = self.snapshot(st, i)
        if isinstance(b, Ref):
            o = st.heap[b.oid]
            if isinstance(o, Lst):
                self.event(st, "mutlist", (b, "[]="))
                if is_const(it) and o.concrete() and isinstance(cval(it), int) and -len(o.segs) <= cval(it) < len(o.segs):
                    o.segs[cval(it)] = v; return
                t = self.segterm(st, o.segs)
                o.segs = [Splat(mk("store", t, it, self.snapshot(st, v)))]
                return
            if isinstance(o, Dct):
                self.event(st, "mutdict", (b, it))
                o.items[it] = v
                return
            f = self.find_method(st, o.cls, "__setitem__")
            if f: self.call_func(st, f, [i, v], {}, self_=b); return
            if "%dict" in o.attrs: self.set_item(st, o.attrs["%dict"], i, v); return
            self.note("item store into object")
            return
        if isinstance(b, InstDict):
            o = st.heap[b.oid]
            if is_const(it) and isinstance(cval(it), str):
                self.event(st, "setattr", (b.oid, o.cls.name if o.cls else "?", cval(it), v)); o.attrs[cval(it)] = v
            else: self.note("store of a computed attribute name")
            return
        if isinstance(b, TRef):
            t = self.term(st, b)
            self.mutevent(st, t, "item assignment")
            vt = self.snapshot(st, v)
            base = st.over.get(b.cell, b.base)
            self.event(st, "store", (t, it, vt))
            if not b.chain: st.over[b.cell] = self.mark(mk("store", base, it, vt))
            else: st.over[b.cell] = self.mark(self.store_through(base, b.chain, mk("store", t, it, vt)))
            self.through(st, b.cell)
            return
        t = self.term(st, b)
        if t is NONE:
            self.event(st, "none-deref", "[...]="); self.do_raise(st, "TypeError"); st.dead = True; raise Dead()
        self.mutevent(st, t, "item assignment")
        self.note("item store into %s" % t.op)
    def store_through(self, base, chain, newview):
        """base with the view selected by `chain` replaced by newview"""
        if not chain: return newview
        if chain[-1][0] in ("to", "detach"): return self.store_through(base, chain[:-1], newview)
        if len(chain) == 1:
            op, rest = chain[0]
            if op == "getitem": return mk("store", base, rest[0], newview)
            return mk("unview", base, mk(op, mk("hole"), *rest), newview)
        inner = apply_chain(base, chain[:-1])
        op, rest = chain[-1]
        nv = mk("store", inner, rest[0], newview) if op == "getitem" else mk("unview", inner, mk(op, mk("hole"), *rest), newview)
        return self.store_through(base, chain[:-1], nv)
    def del_item(self, st, b, i):
        it = self.snapshot(st, i)
        if isinstance(b, Ref):
            o = st.heap[b.oid]
            if isinstance(o, Dct): o.items.pop(it, None); self.event(st, "mutdict", (b, it)); return
            if isinstance(o, Lst) and o.concrete() and is_const(it): del o.segs[cval(it)]; return
            if isinstance(o, Lst): o.segs = [Splat(mk("delitem", self.segterm(st, o.segs), it))]; return
            f = self.find_method(st, o.cls, "__delitem__") if isinstance(o, Obj) else None
            if f: self.call_func(st, f, [i], {}, self_=b); return
        if isinstance(b, TRef):
            self.mutevent(st, self.term(st, b), "item deletion")
            st.over[b.cell] = mk("delitem", self.term(st, b), it)
            self.through(st, b.cell)

    # ------------------------------------------------------------ mutation of tensors
    def through(self, st, cell, depth=0):
        """a joined value was written: so is whichever value it stands for"""
        j = self.joined.get(cell)
        if j is None or depth > 6: return
        c, a, b = j; new = st.over[cell]
        f = self.fact(st, c)
        for v, sel, skip in ((a, c, f is False), (b, self.tnot(c), f is True)):
            if skip or not isinstance(v, TRef): continue
            nv = new if f is not None else self.mite(sel, new, self.term(st, v))
            base = st.over.get(v.cell, v.base)
            st.over[v.cell] = nv if not v.chain else self.store_through(base, v.chain, nv)
            self.through(st, v.cell, depth + 1)
    def mutevent(self, st, t, how):
        rs = roots(t)
        if rs: self.event(st, "mutate", (rs, how, t))
    def mutate(self, st, v, new, how):
        """in-place update of the tensor value v"""
        if isinstance(v, TRef):
            t = self.term(st, v)
            self.mutevent(st, t, how)
            base = st.over.get(v.cell, v.base)
            st.over[v.cell] = new if not v.chain else self.store_through(base, v.chain, new)
            self.through(st, v.cell)
        elif isinstance(v, Term):
            self.mutevent(st, v, how)

    # ------------------------------------------------------------ attributes
    def e_Attribute(self, st, n):
        b = self.eval(st, n.value)
        self.loc = (self.frames[-1].module.path, n.lineno)
        return self.get_attr(st, b, n.attr)
    def mro(self, st, cls):
        out = [cls]; ext = []
        for be in cls.node.bases:
            try: b = self.global_or_ext(st, cls.module, be)
            except Exception: b = None
            if isinstance(b, Cls):
                m, e = self.mro(st, b)
                out += [x for x in m if x not in out]; ext += e
            elif isinstance(b, Ext): ext.append(b.name)
        return out, ext
    def global_or_ext(self, st, mod, e):
        if isinstance(e, ast.Name): return self.global_value(st, mod, e.id)
        if isinstance(e, ast.Attribute):
            b = self.global_or_ext(st, mod, e.value)
            if isinstance(b, Ext): return Ext(b.name + "." + e.attr)
            if isinstance(b, Mod): return self.module_attr(st, b.module, e.attr)
        return None
    def class_member(self, st, cls, name, setter=False):
        """(kind, node, owner)"""
        for c in self.mro(st, cls)[0]:
            found = None
            for n in c.node.body:
                if isinstance(n, ast.FunctionDef) and n.name == name:
                    decs = [ast.unparse(d) for d in n.decorator_list]
                    if any(d.endswith(".setter") for d in decs):
                        if setter: found = ("setter", n, c)
                        continue
                    if setter: continue
                    if any(d == "property" or d.endswith(("cached_property", "abstractproperty")) for d in decs): found = ("property", n, c)
                    elif "staticmethod" in decs: found = ("static", n, c)
                    elif "classmethod" in decs: found = ("class", n, c)
                    else: found = ("method", n, c)
                elif not setter and isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets): found = ("attr", n.value, c)
                elif not setter and isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name) and n.target.id == name: found = ("attr", n.value, c)
            if found: return found
        return None
    def find_method(self, st, cls, name):
        if cls is None: return None
        m = self.class_member(st, cls, name)
        if m and m[0] in ("method", "static", "class"): return Func(m[1], m[2].module, cls=m[2])
        return None

    TENSOR_ATTR = {"shape", "ndim", "dtype", "device", "T", "mT", "data", "grad", "requires_grad", "is_cuda", "size", "real"}
    def get_attr(self, st, b, name):
        b = self.resolve(st, b)
        if isinstance(b, Choice): return self.split(st, b, lambda s, x: self.get_attr(s, x, name))
        if isinstance(b, Ref):
            o = st.heap[b.oid]
            if isinstance(o, Obj):
                if name == "__class__": return o.cls
                if name == "__dict__": return InstDict(b.oid)
                m = self.class_member(st, o.cls, name) if o.cls else None
                if m and m[0] == "property": return self.call_func(st, Func(m[1], m[2].module, cls=m[2]), [], {}, self_=b)
                if name in o.attrs and o.attrs[name] is not UNDEF: return o.attrs[name]
                if m:
                    if m[0] == "method": return Bound(Func(m[1], m[2].module, cls=m[2]), b)
                    if m[0] == "static": return Func(m[1], m[2].module, cls=m[2])
                    if m[0] == "class": return Bound(Func(m[1], m[2].module, cls=m[2]), o.cls)
                    return self.eval_in_module(st, m[2], m[1])
                if "%dict" in o.attrs and name in ("keys", "values", "items", "get", "pop", "update", "copy", "setdefault", "clear"):
                    return BoundExt(o.attrs["%dict"], name)
                g = self.find_method(st, o.cls, "__getattr__") if o.cls else None
                if g: return self.call_func(st, g, [const(name)], {}, self_=b)
                if o.cls is None and "%ext" in o.attrs: return BoundExt(b, name)
                if o.cls is None or self.mro(st, o.cls)[1]:
                    ext = self.mro(st, o.cls)[1] if o.cls else []
                    if not all(e in ("builtins.object",) for e in ext):
                        return BoundExt(b, name) if name in ("register_buffer", "parameters", "train", "eval", "to") else self.wrap(mk("attr", name, mk("objref", o.cls.name if o.cls else "?")))
                self.event(st, "attrerror", (o.cls.name, name))
                self.do_raise(st, "AttributeError"); st.dead = True
                raise Dead()
            return BoundExt(b, name)
        if isinstance(b, Mod):
            v = self.module_attr(st, b.module, name)
            if v is None:
                self.event(st, "undefined", b.module.name + "." + name)
                return Ext(b.module.name + "." + name)
            return v
        if isinstance(b, Ext): return self.ext_attr(st, b, name)
        if isinstance(b, Cls):
            m = self.class_member(st, b, name)
            if m:
                if m[0] in ("method", "static", "property"): return Func(m[1], m[2].module, cls=m[2])
                if m[0] == "class": return Bound(Func(m[1], m[2].module, cls=m[2]), b)
                return self.eval_in_module(st, m[2], m[1])
            if name in ("__name__",): return const(b.name)
            return BoundExt(b, name)
        if isinstance(b, Super):
            classes, ext = self.mro(st, self.obj_class(st, b.self_))
            i = classes.index(b.cls) + 1 if b.cls in classes else 0
            for c in classes[i:]:
                for n in c.node.body:
                    if isinstance(n, ast.FunctionDef) and n.name == name:
                        return Bound(Func(n, c.module, cls=c), b.self_)
            return BoundExt(b, name)
        if isinstance(b, (Func, Bound)):
            if name == "__name__": return const(b.name if isinstance(b, Func) else b.func.name)
            return self.wrap(mk("attr", name, self.snapshot(st, b)))
        if isinstance(b, TupleVal) and name in ("values", "indices") and len(b.items) == 2: return b.items[0 if name == "values" else 1]
        if isinstance(b, (TupleVal, InstDict)): return BoundExt(b, name)
        if isinstance(b, (BoundExt, IterVal)): return self.wrap(mk("attr", name, mk("opaque", "bound")))
        t = self.term(st, b)
        if t is NONE:
            self.event(st, "none-deref", name)
            self.do_raise(st, "AttributeError"); st.dead = True
            raise Dead()
        if t.op == "file" and name == "name": return t.args[0]
        if name in ("shape", "ndim", "dtype", "device", "T", "mT", "H", "data", "requires_grad", "is_cuda", "real", "grad", "names", "itemsize"):
            return self.data_attr(st, b, t, name)
        if t.op == "call" and t.args[0] in ("numpy.finfo", "torch.finfo") and name == "eps" and len(t.args) == 2:
            d = str(t.args[1].args[0]) if t.args[1].op in ("ext", "dtype", "const") else ""
            e = 2.0 ** -52 if d in ("builtins.float", "numpy.float64", "float64", "torch.float64", "double") else 2.0 ** -23 if d in ("numpy.float32", "float32", "torch.float32", "float") else None
            if e is not None: return const(e)
        if t.op == "call" and t.args[0].endswith("knn_points") and name in ("dists", "idx", "knn"):
            return self.wrap(mk("knn." + name, *t.args[1:]))
        if name == "is_floating_point" and (kind(t)[0] == "dtype" or t.op == "dtype" or (t.op == "attr" and t.args[0] == "dtype")):
            if t.op == "dtype": return TRUE if "float" in t.args[0] else FALSE
            k = kind(t.args[1]) if t.op == "attr" else T.ANY
            if T.is_tensor_kind(k) and k[2] is not None: return TRUE if k[2] == "float" else FALSE
            return self.op("is_floating_point", t)
        return BoundExt(b, name)
    def data_attr(self, st, b, t, name):
        if name == "shape":
            s = T.shape(t)
            if s is not None: return TupleVal(s)
            n = T.ndim(t)
            if n is not None: return TupleVal([T.dimterm(t, i) for i in range(n)])
            return self.wrap(mk("attr", "shape", t))
        if name == "ndim": return self.ndim_term(t)
        if name in ("T", "mT", "H"):
            op = ("T", ()) if name != "mT" else ("transpose", (T.kw("dim0", const(-1)), T.kw("dim1", const(-2))))
            return self.view(st, b, t, *op)
        if name == "data": return self.op("detach", t)
        if name == "real": return b
        if name == "device": return self.mark(mk("attr", "device", t))
        if name == "dtype" and self.fs is not None:
            x = t
            while x.op in ("unsqueeze", "permute", "store", "clone", "transpose", "view", "getitem", "squeeze", "contiguous"): x = x.args[0]
            if x.op == "cast": return x.args[1]
        return self.mark(mk("attr", name, t)) if name == "dtype" else self.wrap(self.mark(mk("attr", name, t)))
    def view(self, st, b, t, op, rest):
        r = self.mark(mk(op, t, *rest))
        if self.nograd: return self.op(op, t, *rest)
        if isinstance(b, TRef): return TRef(b.cell, b.base, b.chain + ((op, tuple(rest)),))
        return self.wrap(r)
    def obj_class(self, st, v):
        if isinstance(v, Ref): return st.heap[v.oid].cls
        return v
    def eval_in_module(self, st, cls, node):
        from .interp import Frame
        fn = Func(ast.parse("lambda: 0", mode="eval").body, cls.module, cls=cls)
        fr = Frame(self.new(), fn, cls.module, len(st.dec))
        # class level names are visible to class level expressions
        env = {}
        self.frames.append(fr); st.envs[fr.fid] = env
        loc = self.loc
        try:
            for x in ast.walk(node):
                if isinstance(x, ast.Name) and x.id not in env:
                    m = self.class_member(st, cls, x.id)
                    if m and m[0] == "attr" and m[1] is not node: env[x.id] = self.eval(st, m[1])
            return self.eval(st, node)
        finally:
            self.frames.pop(); st.envs.pop(fr.fid, None); self.loc = loc
    def set_attr(self, st, b, name, v):
        b = self.resolve(st, b)
        if isinstance(b, Choice):
            self.split(st, b, lambda s, x: (self.set_attr(s, x, name, v), NONE)[1]); return
        if isinstance(b, Ref) and isinstance(st.heap[b.oid], Obj):
            o = st.heap[b.oid]
            m = self.class_member(st, o.cls, name, setter=True) if o.cls else None
            if m:
                self.call_func(st, Func(m[1], m[2].module, cls=m[2]), [v], {}, self_=b); return
            if o.cls and self.class_member(st, o.cls, name) and self.class_member(st, o.cls, name)[0] == "property":
                self.event(st, "attrerror", (o.cls.name, name)); self.do_raise(st, "AttributeError"); st.dead = True; raise Dead()
            sa = self.find_method(st, o.cls, "__setattr__") if o.cls else None
            if sa and not any(fr.func and fr.func.node is sa.node for fr in self.frames):
                self.call_func(st, sa, [const(name), v], {}, self_=b); return
            self.event(st, "setattr", (b.oid, o.cls.name if o.cls else "?", name, v))
            o.attrs[name] = v
            return
        if isinstance(b, (TRef, Term)):
            t = self.term(st, b)
            if t is NONE:
                self.event(st, "none-deref", name); self.do_raise(st, "AttributeError"); st.dead = True; raise Dead()
            if name == "data": self.mutate(st, b, self.term(st, v), ".data assignment")
            elif name == "requires_grad" or name == "grad": self.event(st, "reqgrad", (t, self.term(st, v)))
            else: self.event(st, "extset", (t, name))
            return
        if isinstance(b, Cls): self.event(st, "clsset", (b.name, name)); return
        self.note("attribute store on %s" % type(b).__name__)

class IterVal(Value):
    """lazy zip/enumerate/map over sequences"""
    __slots__ = ("kind", "parts", "start")
    def __init__(self, k, parts, start=None): self.kind = k; self.parts = parts; self.start = start
    def domain(self, I, st):
        doms = [I.iter_domain(st, p) for p in self.parts]
        if self.kind == "map": 
            d = doms[0]
            if d[0] == "items": return d
            return d
        if all(d[0] == "items" for d in doms):
            k = min(len(d[1]) for d in doms)
            rows = [[d[1][j] for d in doms] for j in range(k)]
            if self.kind == "enumerate": return ("items", [TupleVal([I.binop(st, "Add", self.start, const(j)), r[0]]) for j, r in enumerate(rows)])
            return ("items", [TupleVal(r) for r in rows])
        cnt = None
        for d in doms:
            n = const(len(d[1])) if d[0] == "items" else d[1]
            if cnt is None: cnt = n
            elif is_const(n) and isinstance(cval(n), int): cnt = n
        def get(d, p, s, ix):
            if d[0] == "items":
                l = I.alloc(s, Lst(list(d[1])))
                return I.get_item(s, l, ix)
            return d[2](s, ix)
        if is_const(cnt) and isinstance(cval(cnt), int) and cval(cnt) <= 16:
            rows = [[(d[1][j] if d[0] == "items" else d[2](st, const(j))) for d in doms] for j in range(cval(cnt))]
            if self.kind == "enumerate": return ("items", [TupleVal([I.binop(st, "Add", self.start, const(j)), r[0]]) for j, r in enumerate(rows)])
            return ("items", [TupleVal(r) for r in rows])
        if self.kind == "enumerate":
            return ("sym", cnt, lambda s, ix: TupleVal([I.binop(s, "Add", ix, self.start) if self.start is not const(0) else ix, get(doms[0], self.parts[0], s, ix)]))
        return ("sym", cnt, lambda s, ix: TupleVal([get(d, p, s, ix) for d, p in zip(doms, self.parts)]))
    def listval(self, I, st):
        d = self.domain(I, st)
        if d[0] == "items": return I.alloc(st, Lst(d[1]))
        out = I.alloc(st, Lst([]))
        def body(s): s.heap[out.oid].segs.append(cur[0])
        cur = [None]
        def bind(s, ix): cur[0] = d[2](s, ix)
        I.sym_loop(st, d[1], bind, None, None, evalbody=body)
        return out

# ---------------------------------------------------------------- storage roots
SAMEDEV = {"getitem", "permute", "transpose", "view", "reshape", "unsqueeze", "squeeze", "expand", "repeat", "clone", "detach", "contiguous", "slice", "narrow", "index_select", "flatten", "float", "double", "mul", "add", "sub", "div", "neg", "gt", "lt", "alias", "requires_grad", "nograd", "ncast", "cast", "V"}
MUSTVIEW = {"transpose", "permute", "view", "unsqueeze", "squeeze", "expand", "T", "detach", "expand_as", "narrow", "diagonal", "numpy", "slicekeep", "nograd", "requires_grad", "unbind", "split", "chunk", "view_as", "swapaxes"}
MAYVIEW = {"to", "contiguous", "reshape", "float", "double", "half", "long", "int", "bool", "type", "type_as", "cpu", "cuda", "flatten", "as_tensor", "asarray", "ravel", "astype_nocopy"}
def roots(t):
    """set of (symbol, certainty): inputs whose storage the value may share"""
    r = t.roots_
    if r is not None: return r
    r = _roots(t)
    t.roots_ = r
    return r
EMPTY = frozenset()
def _roots(t):
    o = t.op
    k = kind(t)[0]
    if k in ("int", "float", "bool", "str", "none", "device", "dtype"): return EMPTY
    if o == "sym": return frozenset([(t.args[0], "must")])
    if o in MUSTVIEW: return roots(t.args[0])
    if o in MAYVIEW:
        if kind_noop(t): return roots(t.args[0])
        return frozenset((a, "may") for a, _ in roots(t.args[0]))
    if o == "cast":
        # a conversion to the element type the value already has returns the value itself
        ka = kind(t.args[0])
        if ka[0] == "tensor" and k == "tensor" and (ka[2] == kind(t)[2] or None in (ka[2], kind(t)[2])): return frozenset((a, "may") for a, _ in roots(t.args[0]))
        return EMPTY
    if o == "getitem":
        its = t.args[1].args if t.args[1].op == "tuple" else (t.args[1],)
        for x in its:
            if not isinstance(x, Term): continue
            kx = kind(x)
            if T.is_tensor_kind(kx) and not (T.ndim(x) == 0): 
                if T.is_tensor_kind(kind(t.args[0])): return EMPTY
            if x.op == "list": return EMPTY
        return roots(t.args[0])
    if o == "ite": return roots(t.args[1]) | roots(t.args[2])
    if o in ("map",): return roots(t.args[2])
    if o in ("flatmap",): return roots(t.args[2])
    if o in ("list", "tuple", "set"):
        r = EMPTY
        for a in t.args: r |= roots(a)
        return r
    if o == "splat": return roots(t.args[0])
    if o in ("store", "unview"): return roots(t.args[0])
    if o == "concat": return roots(t.args[0]) | roots(t.args[1])
    if o == "fold":
        r = EMPTY
        for a in t.args[4:]:
            if a.op == "fv" and a.args[0] is t.args[2]: r |= roots(a.args[1]) | roots(a.args[2])
        return r
    if o == "call":
        n = t.args[0]
        if n in ("torch.from_numpy", "split1"): return roots(t.args[1]) if len(t.args) > 1 else EMPTY
        if n in ("torch.as_tensor", "numpy.asarray", "numpy.ascontiguousarray", "torch.squeeze", "numpy.squeeze", "numpy.atleast_2d", "numpy.reshape", "numpy.transpose"):
            return frozenset((a, "may") for a, _ in roots(t.args[1])) if len(t.args) > 1 else EMPTY
        if n in ("list", "tuple", "sorted", "reversed", "numpy.array_nocopy"): return roots(t.args[1]) if len(t.args) > 1 else EMPTY
    if o == "obj":
        r = EMPTY
        for a in t.args[1:]:
            if isinstance(a, Term): r |= roots(a.args[1])
        return r
    if o == "dict":
        r = EMPTY
        for a in t.args[1::2]: r |= roots(a)
        return r
    return EMPTY
def kind_noop(t): return False
