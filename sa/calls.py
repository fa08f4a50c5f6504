"""Calls: dispatch on repository functions, classes, builtins and the modelled part of torch/numpy."""
import ast, math
from . import terms as T
from .terms import Term, mk, const, NONE, TRUE, FALSE, is_const, cval, kind
from .values import *
from .sigs import S, CREATE, CREATE_KW
from . import models
from .files import is_token, parts as text_parts, has_token

DTYPES = {"float": "float32", "float32": "float32", "double": "float64", "float64": "float64", "half": "float16", "float16": "float16", "long": "int64", "int64": "int64", "int": "int32", "int32": "int32",
          "uint8": "uint8", "int16": "int16", "short": "int16", "int8": "int8", "bool": "bool", "bfloat16": "bfloat16"}
RENAME = {"clip": "clamp", "true_divide": "div", "divide": "div", "multiply": "mul", "subtract": "sub", "mm": "matmul", "bmm": "matmul", "swapaxes": "transpose", "swapdims": "transpose", "absolute": "abs", "negative": "neg",
          "gt": "gt", "greater": "gt", "ger": "outer", "concat": "cat", "concatenate": "cat", "arccos": "acos", "movedim": "movedim", "pinverse": "pinverse", "floor_divide": "floordiv", "unsafe_chunk": "chunk", "not_equal": "ne", "less": "lt", "bitwise_not": "logical_not",
          "moveaxis": "movedim", "ravel": "ravel", "nelement": "numel", "subtract": "sub", "row_stack": "vstack"}
FUNCMODS = ("torch.", "torch.nn.functional.", "torch.linalg.", "torch.Tensor.")
PASSIVE = {"torch.is_tensor"}
# calls that run code found in their argument
EXECUTES = ("builtins.eval", "builtins.exec", "builtins.compile", "builtins.__import__", "importlib.", "yaml.load", "yaml.unsafe_load", "yaml.full_load", "yaml.Unsafe", "yaml.Full", "yaml.Loader", "pickle.", "cPickle.", "dill.", "marshal.", "runpy.", "os.system", "os.popen", "os.exec", "os.spawn", "subprocess.", "imp.", "code.", "torch.load", "numpy.load", "joblib.", "shelve.", "ctypes.")
LOGGERS = ("warnings.", "logging.", "builtins.print")

RECORDS = ("open3d.geometry.PointCloud", "plotly.graph_objects.")
RECORDS = ("open3d.geometry.PointCloud", "plotly.graph_objects.")
class Calls:
    # ------------------------------------------------------------ evaluation of call expressions
    def e_Call(self, st, n):
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            f = Ext("builtins.super")
        else:
            f = self.eval(st, n.func)
        args = []; kwargs = {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(st, a.value)
                items = self.seq_items(st, v)
                if items is None:
                    if isinstance(v, IterValT()): v = v.listval(self, st); items = self.seq_items(st, v)
                if items is None: args.append(self.wrap(mk("splatarg", self.snapshot(st, v))))
                else: args.extend(items)
            else: args.append(self.eval(st, a))
        for k in n.keywords:
            v = self.eval(st, k.value)
            if k.arg is None:
                if isinstance(v, Ref) and isinstance(st.heap[v.oid], Dct):
                    d = st.heap[v.oid]
                    for kk, x in d.items.items():
                        if is_const(kk): kwargs[cval(kk)] = x
                    if d.base is not None: kwargs["**"] = self.wrap(d.base)
                else: kwargs["**"] = v
            else: kwargs[k.arg] = v
        self.loc = (self.frames[-1].module.path, n.lineno)
        self.nsites += 1
        return self.call_value(st, f, args, kwargs)

    def call_value(self, st, f, args, kwargs):
        f = self.resolve(st, f)
        if isinstance(f, Choice): return self.split(st, f, lambda s, x: self.call_value(s, x, args, kwargs))
        if isinstance(f, Func):
            kwargs = {k: v for k, v in kwargs.items() if k != "**"}
            return self.call_func(st, f, args, kwargs)
        if isinstance(f, Bound):
            kwargs = {k: v for k, v in kwargs.items() if k != "**"}
            return self.call_func(st, f.func, args, kwargs, self_=f.self_)
        if isinstance(f, Cls): return self.instantiate(st, f, args, kwargs)
        if isinstance(f, Ext): return self.call_ext(st, f.name, args, kwargs)
        if isinstance(f, BoundExt): return self.call_method(st, f.recv, f.name, args, kwargs)
        if isinstance(f, PartialVal):
            return self.call_value(st, f.f, f.args + list(args), {**f.kwargs, **kwargs})
        if isinstance(f, Ref) and isinstance(st.heap[f.oid], Obj):
            o = st.heap[f.oid]
            m = self.find_method(st, o.cls, "__call__") or self.find_method(st, o.cls, "forward")
            if m: return self.call_func(st, m, args, kwargs, self_=f)
        t = self.snapshot(st, f)
        if t is NONE:
            self.event(st, "none-deref", "()"); self.do_raise(st, "TypeError"); st.dead = True; raise Dead()
        return self.wrap(self.mark(mk("callval", t, *[self.snapshot(st, a) for a in args], *self.kws(st, kwargs))))
    def kws(self, st, kwargs):
        return [T.kw(k, self.snapshot(st, v)) for k, v in sorted(kwargs.items())]

    def instantiate(self, st, c, args, kwargs):
        classes, ext = self.mro(st, c)
        o = Obj(c, {}, self.loc)
        r = self.alloc(st, o)
        self.event(st, "new", (c.name, r.oid))
        if any(e.endswith(("dict", "OrderedDict")) for e in ext):
            d = self.alloc(st, Dct())
            if args: self.dict_update(st, d, args[0])
            o.attrs["%dict"] = d
        init = self.find_method(st, c, "__init__")
        if init is not None:
            kwargs = {k: v for k, v in kwargs.items() if k != "**"}
            self.call_func(st, init, args, kwargs, self_=r)
        elif args and not ext:
            self.event(st, "badcall", (c.name, "no constructor"))
        if any(e.endswith(("Exception", "Error")) for e in ext): return self.wrap(mk("exc", c.name))
        return r

    # ------------------------------------------------------------ attributes of external modules
    def ext_attr(self, st, b, name):
        full = b.name + "." + name
        if b.name == "torch" and name in DTYPES: return mk("dtype", DTYPES[name])
        if b.name == "numpy" and name in ("float32", "float64", "int64", "int32", "uint8", "uint16", "float16", "int16", "int8", "uint32", "uint64", "bool_", "float_", "int_", "double"): return Ext(full)
        if full == "math.pi" or full == "numpy.pi": return const(math.pi)
        if full in ("math.inf", "numpy.inf", "torch.inf"): return const(float("inf"))
        if full in ("numpy.newaxis",): return NONE
        if full in ("os.sep", "os.path.sep"): return const("/")
        if full == "os.linesep": return const("\n")
        if full == "sys.modules": return self.wrap(mk("ext", full))
        return Ext(full)

    # ------------------------------------------------------------ builtins
    TYPE_KIND = {"int": ("int",), "float": ("float",), "bool": ("bool",), "str": ("str",), "list": ("list",), "dict": ("dict",), "tuple": ("tuple",), "set": ("set",),
                 "torch.Tensor": ("tensor",), "numpy.ndarray": ("ndarray",), "torch.device": ("device",), "torch.dtype": ("dtype",), "slice": ("slice",)}
    def isinst(self, st, v, c):
        """boolean term"""
        v = self.resolve(st, v)
        if isinstance(v, Choice):
            a, b = self.isinst(st, v.a, c), self.isinst(st, v.b, c)
            if a is b: return a
            return self.tor([self.tand([v.cond, a]), self.tand([self.tnot(v.cond), b])])
        if isinstance(c, TupleVal) or (isinstance(c, Ref) and self.seq_items(st, c) is not None):
            return self.tor([self.isinst(st, v, x) for x in (self.seq_items(st, c))])
        if isinstance(c, Cls):
            if isinstance(v, Ref) and isinstance(st.heap[v.oid], Obj):
                oc = st.heap[v.oid].cls
                return const(oc is not None and c in self.mro(st, oc)[0])
            if not isinstance(v, (Term, TRef)): return FALSE
            t = self.term(st, v)
            if kind(t)[0] == "any": return mk("isinstance", t, c.name)
            return FALSE
        if isinstance(c, Ext):
            n = c.name.replace("builtins.", "")
            if n.startswith("typing."): n = {"List": "list", "Dict": "dict", "Tuple": "tuple"}.get(n[7:], n)
            short = n.split(".")[-1]
            if n == "object": return TRUE
            if isinstance(v, Ref):
                o = st.heap[v.oid]
                if isinstance(o, SetV): return const(n in ("set", "collections.abc.Set"))
                if isinstance(o, Lst): return const(n in ("list", "collections.abc.Sequence", "collections.abc.Iterable"))
                if isinstance(o, Dct): return const(n in ("dict", "collections.OrderedDict", "collections.abc.Mapping"))
                ex = self.mro(st, o.cls)[1] if o.cls else []
                if n == "dict": return const(any(e.endswith(("dict", "Dict")) for e in ex))
                return const(any(e.split(".")[-1] == short for e in ex))
            if isinstance(v, TupleVal): return const(n in ("tuple", "collections.abc.Sequence"))
            if isinstance(v, (Func, Bound, Cls, Mod, Ext)): return FALSE
            t = self.term(st, v)
            k = kind(t)[0]
            if t is NONE: return const(n == "NoneType")
            if n == "NoneType" and (is_const(t) or T.is_tensor_kind(kind(t)) or k in ("int", "float", "bool", "str", "list", "tuple", "dict")): return FALSE
            if t.op == "file": return const(n in ("io.IOBase", "io.TextIOBase", "io.TextIOWrapper", "typing.IO", "typing.TextIO", "collections.abc.Iterable", "collections.abc.Iterator"))
            if n.startswith("io.") and (is_const(t) or k in self.TYPE_KIND): return FALSE
            ks = self.TYPE_KIND.get(n)
            if n in ("float", "int", "numbers.Number") and k in ("int", "float", "bool"):
                if t.op == "sym" and T.SYMKIND.get(t.args[0], ("?",)) == ("number",): return mk("isinstance", t, n)
                if n == "numbers.Number": return TRUE
                if n == "int": return const(k in ("int", "bool"))
                return const(k == "float")
            if k == "any": return mk("isinstance", t, n)
            if ks is None:
                if n in ("numpy.float64", "numpy.float32", "numpy.integer", "numpy.int64"): return FALSE
                return mk("isinstance", t, n)
            return const(k in ks)
        return mk("isinstance", self.snapshot(st, v), self.snapshot(st, c))

    def type_of(self, st, v):
        v = self.resolve(st, v)
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, Obj): return o.cls if o.cls else Ext("builtins.object")
            return Ext("builtins.list" if isinstance(o, Lst) else "builtins.set" if isinstance(o, SetV) else "builtins.dict")
        if isinstance(v, TupleVal): return Ext("builtins.tuple")
        if isinstance(v, Func): return Ext("types.FunctionType")
        if isinstance(v, Bound): return Ext("types.MethodType")
        if isinstance(v, Cls): return Ext("builtins.type")
        if isinstance(v, Mod): return Ext("types.ModuleType")
        if isinstance(v, (Term, TRef)):
            t = self.term(st, v)
            if t is NONE: return Ext("builtins.NoneType")
            if is_const(t): return Ext("builtins." + t.args[0])
            k = kind(t)[0]
            if k in ("int", "float", "bool", "str", "list", "dict", "tuple", "set"): return Ext("builtins." + k)
            if k == "tensor": return Ext("torch.Tensor")
            if k == "ndarray": return Ext("numpy.ndarray")
            return self.wrap(mk("call", "type", t))
        return self.wrap(mk("call", "type", self.snapshot(st, v)))

    def call_builtin(self, st, n, args, kwargs):
        a0 = args[0] if args else None
        if n == "len": return self.len_term(st, a0)
        if n == "range":
            ts = [T.known(self.term(st, a)) for a in args]
            if any(t is NONE for t in ts): self.event(st, "none-op", "range"); self.do_raise(st, "TypeError"); st.dead = True; raise Dead()
            if len(ts) == 1: ts = [const(0), ts[0], const(1)]
            elif len(ts) == 2: ts = [ts[0], ts[1], const(1)]
            t = mk("range", *ts); t.kind_ = ("list", ("int",))
            c = self.new(); self.cellbase[c] = t
            return TRef(c, t)
        if n == "enumerate":
            s = kwargs.get("start", args[1] if len(args) > 1 else const(0))
            return self.iterval("enumerate", [a0], s)
        if n == "zip": return self.iterval("zip", list(args))
        if n == "map":
            f = args[0]
            out = self.alloc(st, Lst([]))
            dom = self.iterval("zip", list(args[1:])).domain(self, st) if len(args) > 2 else self.iter_domain(st, args[1])
            spread = (lambda x: list(x.items)) if len(args) > 2 else (lambda x: [x])
            if dom[0] == "items":
                for x in dom[1]: st.heap[out.oid].segs.append(self.call_value(st, f, spread(x), {}))
            else:
                cur = [None]
                def bind(s, ix): cur[0] = dom[2](s, ix)
                def body(s): s.heap[out.oid].segs.append(self.call_value(s, f, spread(cur[0]), {}))
                self.sym_loop(st, dom[1], bind, None, None, evalbody=body)
            return out
        if n == "isinstance": return self.isinst(st, a0, args[1])
        if n == "issubclass":
            if isinstance(a0, Cls) and isinstance(args[1], Cls): return const(args[1] in self.mro(st, a0)[0])
            return mk("issubclass", self.snapshot(st, a0), self.snapshot(st, args[1]))
        if n == "type": return self.type_of(st, a0)
        if n in ("getattr", "setattr", "hasattr", "delattr"):
            nm = self.term(st, args[1])
            if not is_const(nm):
                if nm.op == "ite":
                    c = nm.args[0]
                    return self.split(st, Choice(c, nm.args[1], nm.args[2]), lambda s, x: self.call_builtin(s, n, [a0, x] + list(args[2:]), kwargs))
                if n == "getattr": return self.wrap(mk("call", "getattr", self.snapshot(st, a0), nm))
                self.event(st, "dynattr", (n, nm)); self.note("%s with computed name" % n)
                return NONE if n == "setattr" else mk("hasattr", self.snapshot(st, a0), nm)
            nm = cval(nm)
            if n == "setattr": self.set_attr(st, a0, nm, args[2]); return NONE
            if n == "delattr":
                if isinstance(a0, Ref): st.heap[a0.oid].attrs.pop(nm, None)
                return NONE
            if n == "hasattr":
                if isinstance(a0, Ref) and isinstance(st.heap[a0.oid], Obj):
                    o = st.heap[a0.oid]
                    return const((nm in o.attrs and o.attrs[nm] is not UNDEF) or (o.cls is not None and self.class_member(st, o.cls, nm) is not None))
                return mk("hasattr", self.snapshot(st, a0), nm)
            if len(args) > 2:
                s2 = st.copy(); em = len(self.events); sink = []; self.sinks.append(sink)
                try:
                    v = self.get_attr(s2, a0, nm); st.assign(s2); return v
                except Dead:
                    del self.events[em:]; return args[2]
                finally: self.sinks.pop()
            return self.get_attr(st, a0, nm)
        if n in ("any", "all"):
            if isinstance(a0, Ref) or isinstance(a0, TupleVal):
                items = self.seq_items(st, a0)
                if items is not None:
                    cs = [self.cond(st, x) for x in items]
                    return self.tor(cs) if n == "any" else self.tand(cs)
            t = self.snapshot(st, self.materialize(st, a0))
            if t.op in ("map", "flatmap"):
                b = t.args[2]
                if t.op == "map":
                    c = self.cond(st, self.wrap(b))
                    return mk("exists", t.args[0], t.args[1], c) if n == "any" else self.tnot(mk("exists", t.args[0], t.args[1], self.tnot(c)))
            r = mk("quant", n, t); r.kind_ = ("bool",)
            return r
        if n in ("max", "min"):
            vals = list(args)
            if len(vals) == 1 and not kwargs:
                items = self.seq_items(st, self.materialize(st, a0))
                if items is not None:
                    vals = items
                    if len(vals) == 1: return vals[0]
            if len(vals) > 1 and not kwargs:
                ts = [self.term(st, v) for v in vals]
                if all(T.is_num(t) for t in ts): return const((max if n == "max" else min)(cval(t) for t in ts))
                r = mk("py" + n, *sorted(set(ts), key=T.skey)); r.kind_ = ("int",) if all(kind(t)[0] == "int" for t in ts) else T.ANY
                return r if kind(r)[0] == "int" else self.wrap(r)
            if len(vals) == 1 and not kwargs and len(args) != 1: return vals[0]
            t = self.snapshot(st, self.materialize(st, a0))
            r = mk("py" + n + "of", t, *self.kws(st, kwargs))
            if T.elemkind(t)[0] == "int": r.kind_ = ("int",)
            return self.mark(r) if kind(r)[0] == "int" else self.wrap(self.mark(r))
        if n == "sum":
            items = self.seq_items(st, self.materialize(st, a0))
            if items is not None:
                acc = args[1] if len(args) > 1 else const(0)
                for i, x in enumerate(items): acc = x if i == 0 and len(args) == 1 else self.binop(st, "Add", acc, x)
                return acc
            return self.wrap(mk("pysum", self.snapshot(st, a0)))
        if n in ("list", "tuple", "iter", "frozenset") :
            if not args: return self.alloc(st, Lst([])) if n == "list" else TupleVal([])
            a0 = self.materialize(st, a0)
            items = self.seq_items(st, a0)
            if items is not None: return self.alloc(st, Lst(items)) if n == "list" else TupleVal(items) if n == "tuple" else a0
            if n == "iter": return a0
            if isinstance(a0, Ref) and isinstance(st.heap[a0.oid], Lst) and n == "list": return self.alloc(st, Lst(list(st.heap[a0.oid].segs)))
            t = self.snapshot(st, a0)
            if t.op == "attr" and t.args[0] == "shape": return self.wrap(t) if n == "tuple" else self.alloc(st, Lst([Splat(t)]))
            if T.is_tensor_kind(kind(t)) or kind(t)[0] == "any":
                dom = self.iter_domain(st, a0)
                if dom[0] == "sym":
                    out = self.alloc(st, Lst([Splat(mk("map", self.depth, dom[1], self.snapshot(st, self.peek(st, dom))))]))
                    return out
            if n == "list": return self.alloc(st, Lst([Splat(t)]))
            r = mk("call", "tuple", t)
            return self.wrap(r)
        if n == "set":
            if not args: return self.alloc(st, SetV())
            return self.wrap(mk("set", self.snapshot(st, self.materialize(st, a0))))
        if n in ("dict", "OrderedDict"):
            d = self.alloc(st, Dct())
            if args: self.dict_update(st, d, a0)
            for k, v in kwargs.items():
                if k == "**": self.dict_update(st, d, v)
                else: st.heap[d.oid].items[const(k)] = v
            return d
        if n == "super":
            fr = self.frames[-1]
            if args and isinstance(args[0], Cls): return Super(args[0], args[1])
            s = fr.self_
            if s is None:
                a = fr.func.node.args.args
                s = st.envs[fr.fid].get(a[0].arg) if a else None
            return Super(fr.cls, s)
        if n == "next":
            return self.get_item(st, self.materialize(st, a0), const(0))
        if n == "reversed":
            items = self.seq_items(st, self.materialize(st, a0))
            if items is not None: return self.alloc(st, Lst(list(reversed(items))))
            return self.wrap(mk("call", "reversed", self.snapshot(st, a0)))
        if n == "sorted":
            r = self.ordered(st, a0, kwargs)
            if r is not None: return r
            t = self.snapshot(st, self.materialize(st, a0))
            items = T.seqitems(t)
            if items is not None and all(is_const(x) for x in items) and not kwargs:
                return self.alloc(st, Lst([const(v) for v in sorted(cval(x) for x in items)]))
            return self.wrap(self.mark(mk("call", "sorted", t, *self.kws(st, kwargs))))
        if n == "slice":
            ts = [T.known(self.term(st, a)) for a in args]
            if len(ts) == 1: ts = [NONE, ts[0], NONE]
            elif len(ts) == 2: ts.append(NONE)
            return mk("slice", *ts)
        if n in ("int", "float", "bool", "str", "repr", "abs", "round"):
            if not args: return const({"int": 0, "float": 0.0, "bool": False}.get(n, ""))
            if n == "bool": return self.cond(st, a0)
            t = self.snapshot(st, a0)
            if n in ("int", "abs"): t = T.known(t)
            if is_const(t) and n in ("int", "float", "str", "abs", "round"):
                try: return const({"int": int, "float": float, "str": str, "abs": abs, "round": round}[n](cval(t)))
                except Exception: pass
            k = kind(t)[0]
            if n == "int" and k == "int": return t
            if n == "float" and k == "float" : return t
            if n == "int" and T.is_tensor_kind(kind(t)) and kind(t)[2] in ("int", "bool"):
                r = mk("item", t); r.kind_ = ("int",); return self.mark(r)
            if n == "str" and k == "str": return t
            if n == "str" and k in ("int", "device"): return mk("str", mk("fmt", t, NONE))
            if n == "abs" and T.is_tensor_kind(kind(t)): return self.op("abs", t)
            if n == "round" and T.is_tensor_kind(kind(t)): return self.op("round", t)
            r = mk("call", n, t)
            if n == "float" and is_token(t): r.kind_ = ("float",)
            if n == "int" and is_token(t): r.kind_ = ("int",)
            if n == "abs" and k in ("int", "float"): r.kind_ = (k,)
            if n == "round": r.kind_ = ("int",) if len(args) == 1 else ("float",)
            return self.mark(r) if kind(r)[0] != "any" else self.wrap(r)
        if n == "divmod": return TupleVal([self.binop(st, "FloorDiv", a0, args[1]), self.binop(st, "Mod", a0, args[1])])
        if n == "pow": return self.binop(st, "Pow", a0, args[1])
        if n == "print": return NONE
        if n in ("eval", "exec", "compile", "__import__"):
            self.event(st, "codeexec", (n, [self.snapshot(st, a) for a in args]))
            return self.wrap(mk("call", n, *[self.snapshot(st, a) for a in args]))
        if n == "open":
            ts = [self.snapshot(st, a) for a in args] + self.kws(st, kwargs)
            self.event(st, "open", ts)
            return self.wrap(self.mark(mk("call", "open", *ts)))
        if n == "callable": return mk("callable", self.snapshot(st, a0))
        if n == "id": return mk("id", self.snapshot(st, a0))
        if n == "vars": return self.get_attr(st, a0, "__dict__")
        if n == "filter" and len(args) == 2:
            import ast
            k = str(self.new()); env = st.envs[self.frames[-1].fid]
            env["%f" + k], env["%i" + k] = args
            x = ast.Name("%x" + k, ast.Load())
            c = x if a0 is NONE else ast.Call(ast.Name("%f" + k, ast.Load()), [x], [])
            t = ast.GeneratorExp(x, [ast.comprehension(ast.Name("%x" + k, ast.Store()), ast.Name("%i" + k, ast.Load()), [c], 0)])
            for y in ast.walk(t): y.lineno = y.end_lineno = 0; y.col_offset = y.end_col_offset = 0
            r = self.comp(st, t, [t.elt], "list")
            for q in "fi": st.envs[self.frames[-1].fid].pop("%" + q + k, None)
            return r
        if n == "filter":
            return self.wrap(mk("call", "filter", self.snapshot(st, a0), self.snapshot(st, self.materialize(st, args[1]))))
        if n == "object": return self.wrap(mk("call", "object"))
        if n.endswith(("Error", "Exception", "Warning", "Iteration")): return mk("exc", n)
        self.vague.add(n)
        return self.wrap(self.mark(mk("call", n, *[self.snapshot(st, a) for a in args], *self.kws(st, kwargs))))

    def peek(self, st, dom):
        ix = mk("ix", self.depth)
        s = st.copy()
        return dom[2](s, ix)
    def iterval(self, k, parts, start=None):
        from .exprs import IterVal
        return IterVal(k, parts, start)
    def materialize(self, st, v):
        from .exprs import IterVal
        v = self.resolve(st, v)
        return v.listval(self, st) if isinstance(v, IterVal) else v
    def dict_update(self, st, d, v):
        v = self.materialize(st, v)
        D = st.heap[d.oid]
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, Obj) and "%dict" in o.attrs: return self.dict_update(st, d, o.attrs["%dict"])
            if isinstance(o, Dct):
                if o.base is not None: D.base = o.base if D.base is None and not D.items else mk("dictmerge", self.snapshot(st, d), o.base); 
                D.items.update(o.items); return
            items = self.seq_items(st, v)
            if items is not None:
                for x in items:
                    if isinstance(x, TupleVal) and len(x.items) == 2: D.items[self.snapshot(st, x.items[0])] = x.items[1]
                return
            D.base = mk("dictof", self.snapshot(st, v)); return
        t = self.term(st, v)
        if not D.items and D.base is None: D.base = t if kind(t)[0] == "dict" or t.op == "sym" else mk("dictof", t)
        else: D.base = mk("dictmerge", self.snapshot(st, d), t); D.items = {}

    def literal(self, st, v):
        """a Python constant as an abstract value"""
        if v is None: return NONE
        if isinstance(v, (bool, int, float, str)): return const(v)
        if isinstance(v, tuple):
            xs = [self.literal(st, x) for x in v]
            return None if any(x is None for x in xs) else TupleVal(xs)
        if isinstance(v, list):
            xs = [self.literal(st, x) for x in v]
            return None if any(x is None for x in xs) else self.alloc(st, Lst(xs))
        if isinstance(v, dict):
            xs = {self.snapshot(st, self.literal(st, k)): self.literal(st, x) for k, x in v.items()}
            return None if any(x is None for x in xs.values()) else self.alloc(st, Dct(xs))
        if isinstance(v, bytes): return self.wrap(mk("bytes", v.decode("latin1")))
        if isinstance(v, set):
            return self.wrap(mk("set", mk("list", *[self.snapshot(st, self.literal(st, x)) for x in sorted(v, key=repr)])))
        return None

    # ------------------------------------------------------------ external functions
    def call_ext(self, st, name, args, kwargs):
        r = self.fs_call(st, name[9:] if name == "builtins.open" else name, args, kwargs)
        if r is not None: return r
        if name.startswith("builtins."): return self.call_builtin(st, name[9:], args, kwargs)
        if name in ("collections.OrderedDict", "collections.defaultdict"): return self.call_builtin(st, "dict", args if name.endswith("OrderedDict") else [], kwargs)
        if name.startswith(LOGGERS): 
            return NONE if not name.endswith("getLogger") else self.wrap(mk("ext", "logger"))
        if name in ("typing.cast",): return args[1]
        if name.startswith(EXECUTES):
            safe = name in ("yaml.load", "yaml.load_all") and any(isinstance(x, Ext) and x.name.split(".")[-1] in ("SafeLoader", "CSafeLoader", "BaseLoader") for x in args[1:] + list(kwargs.values()))
            if safe: name = "yaml.safe_load"
            else: self.event(st, "exec", name)
        if name == "yaml.safe_load" and args or name == "json.loads" and args:
            t = self.snapshot(st, args[0])
            if t.op == "file": t = self.snapshot(st, self.file_method(st, t, "read", [], {}))
            if is_const(t) and isinstance(cval(t), str):
                import json
                try: return self.literal(st, json.loads(cval(t)))
                except ValueError: pass
            return self.wrap(self.mark(mk("call", name, t)))
        if name == "ast.literal_eval" and args:
            t = self.snapshot(st, args[0])
            if is_const(t) and isinstance(cval(t), str):
                try: v = ast.literal_eval(cval(t))
                except (ValueError, SyntaxError, TypeError, MemoryError, RecursionError) as e:
                    self.do_raise(st, type(e).__name__ if not isinstance(e, SyntaxError) else "SyntaxError"); st.dead = True; raise Dead()
                r = self.literal(st, v)
                if r is not None: return r
            ok = mk("isliteral", t); ok.kind_ = ("bool",)
            self.guard(st, ok, "ValueError", True)
            return self.wrap(self.mark(mk("call", name, t)))
        if name in ("copy.copy", "copy.deepcopy"): return self.deepcopy(st, args[0], name.endswith("deepcopy"))
        if name in ("math.sqrt", "math.cos", "math.sin", "math.tan", "math.floor", "math.ceil", "math.radians", "math.atan", "math.asin", "math.log2", "math.hypot", "math.fabs", "math.pow", "math.isclose", "math.log", "math.exp", "math.acos", "math.prod"):
            ts = [self.term(st, a) for a in args]
            if all(T.is_num(t) for t in ts):
                try: return const(getattr(math, name[5:])(*[cval(t) for t in ts]))
                except Exception: pass
            if name == "math.radians": return self.binop(st, "Div", self.binop(st, "Mult", args[0], const(math.pi)), const(180))
            if name == "math.pow": return self.binop(st, "Pow", args[0], args[1])
            r = mk("call", name, *ts); r.kind_ = ("int",) if name.endswith(("floor", "ceil")) else ("bool",) if name.endswith("isclose") else ("float",)
            return self.mark(r)
        for p in FUNCMODS:
            if name.startswith(p) and "." not in name[len(p):]:
                return self.torch_fn(st, name[len(p):], args, kwargs, name)
        if name.startswith("numpy.") : return self.numpy_fn(st, name[6:], args, kwargs)
        if name.startswith("itertools."):
            if name == "itertools.product":
                its = [self.seq_items(st, self.materialize(st, a)) for a in args]
                if all(i is not None for i in its):
                    import itertools
                    return self.alloc(st, Lst([TupleVal(x) for x in itertools.product(*its)]))
            if name == "itertools.chain":
                segs = []
                for a in args:
                    a = self.materialize(st, a); it = self.seq_items(st, a)
                    segs += it if it is not None else [Splat(self.snapshot(st, a))]
                return self.alloc(st, Lst(segs))
        if name == "cv2.resize":
            names = ["src", "dsize", "dst", "fx", "fy", "interpolation"]
            kw = dict(zip(names, args)); kw.update(kwargs)
            img = self.snapshot(st, kw["src"]); ds = self.snapshot(st, kw.get("dsize", NONE))
            rest = {k: self.snapshot(st, v) for k, v in kw.items() if k not in ("src", "dsize", "interpolation")}
            rest = {k: v for k, v in rest.items() if v is not NONE and not (T.is_num(v) and cval(v) == 0)}
            ip = self.snapshot(st, kw.get("interpolation", mk("ext", "cv2.INTER_LINEAR")))
            if is_const(ip) and cval(ip) in (0, 1, 2, 3, 4): ip = mk("ext", "cv2.INTER_" + ("NEAREST", "LINEAR", "CUBIC", "AREA", "LANCZOS4")[cval(ip)])
            if ds.op in ("tuple", "list") and len(ds.args) == 2 and not rest:
                self.event(st, "call", ("cv2.resize", (img, ds, ip)))
                t = self.mark(mk("call", "cv2.resize", img, ds.args[0], ds.args[1], ip))
                k = kind(img); s = T.shape(img); nd = k[1] if T.is_tensor_kind(k) else None
                one = nd == 3 and s is not None and s[2] is const(1)
                t.kind_ = ("ndarray", 2 if one else nd, k[2] if T.is_tensor_kind(k) else None)
                if nd is not None and (nd == 2 or s is not None): t.shape_ = (ds.args[1], ds.args[0]) + (tuple(s[2:]) if nd > 2 and not one else ())
                return self.wrap(t)
        if name.startswith(RECORDS) and not any(isinstance(a, Splat) for a in args):        # a record of what a viewer is given
            at = {"%ext": const(name)}
            at.update(("arg%d" % i, a) for i, a in enumerate(args)); at.update(kwargs)
            return self.alloc(st, Obj(None, at, self.loc))
        if name == "functools.partial":
            return PartialVal(args[0], list(args[1:]), dict(kwargs))
        lib = name.split(".")[0]
        if lib in models.NAMES and name.split(".")[-1] in models.NAMES[lib]:
            m = self.tree.modules.get("<%s>" % lib) or self.tree.add("<%s>" % lib, models.LIB[lib])
            from .values import Func
            return self.call_func(st, Func(m.binds[name.split(".")[-1]], m), args, kwargs)
        ts = [self.snapshot(st, self.materialize(st, a)) for a in args] + self.kws(st, kwargs)
        nm = name
        if name.startswith("kornia."): nm = "kornia." + name.split(".")[-1]
        self.event(st, "call", (nm, tuple(ts)))
        # an external call may write through the objects it receives only for the known mutators
        if name in ("random.shuffle", "numpy.random.shuffle"):
            self.mutate(st, args[0], mk("call", name, ts[0]), name)
        t = self.mark(mk("call", nm, *ts)); self.vague.add(nm)
        if kind(t)[0] == "any" and nm.startswith(("kornia.", "chamferdist.", "cv2.")):
            t.kind_ = ("tensor", None, None) if not nm.startswith("cv2.") and not nm.endswith(("KNN", "knn_points", "PinholeCamera")) else ("ndarray", None, None) if nm in ("cv2.resize",) else T.ANY
        if nm in ("imageio.imread", "imageio.v2.imread"): t.kind_ = ("ndarray", None, None)
        if self.nograd and T.is_tensor_kind(kind(t)): t = mk("nograd", t)
        return self.wrap(t)

    def deepcopy(self, st, v, deep):
        v = self.resolve(st, v)
        if isinstance(v, Choice): return self.split(st, v, lambda s, x: self.deepcopy(s, x, deep))
        if isinstance(v, TupleVal): return TupleVal([self.deepcopy(st, x, deep) if deep else x for x in v.items])
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            rec = (lambda x: self.deepcopy(st, x, True)) if deep else (lambda x: x)
            if isinstance(o, Lst): return self.alloc(st, Lst([Splat(mk("deepcopy", s.term)) if isinstance(s, Splat) and deep else s if isinstance(s, Splat) else rec(s) for s in o.segs]))
            if isinstance(o, SetV): return self.alloc(st, o.copy())
            if isinstance(o, Dct): return self.alloc(st, Dct({k: rec(x) for k, x in o.items.items()}, None if o.base is None else mk("deepcopy", o.base) if deep else o.base))
            f = self.find_method(st, o.cls, "__deepcopy__" if deep else "__copy__") if o.cls else None
            if f: return self.call_func(st, f, [self.alloc(st, Dct())] if deep else [], {}, self_=v)
            return self.alloc(st, Obj(o.cls, {k: (x if x is UNDEF else self.deepcopy(st, x, False) if k == "%dict" and not deep else rec(x)) for k, x in o.attrs.items()}))
        if isinstance(v, TRef):
            t = self.term(st, v)
            if T.is_tensor_kind(kind(t)): return self.op("clone", t)
            return self.wrap(mk("deepcopy", t))
        return v

    # ------------------------------------------------------------ torch functions and tensor methods
    def shape_args(self, st, args):
        """varargs or a single sequence -> tuple term"""
        if len(args) == 1:
            items = self.seq_items(st, args[0])
            if items is not None: return mk("tuple", *[T.known(self.term(st, x)) for x in items])
            t = self.snapshot(st, args[0])
            if kind(t)[0] in ("list", "tuple") or (t.op in ("attr",) and t.args[0] == "shape"): return t
            if t.op == "splatarg": return t.args[0]
            return mk("tuple", T.known(t))
        return mk("tuple", *[T.known(self.term(st, x)) for x in args])

    def normal_kws(self, st, op, args, kwargs):
        ps, defaults = S.get(op, ((), {}))
        out = {}
        for p, a in zip(ps, args): out[p] = self.snapshot(st, self.materialize(st, a))
        for k, a in kwargs.items():
            k = {"axis": "dim", "keepdims": "keepdim", "input": "input"}.get(k, k)
            out[k] = self.snapshot(st, self.materialize(st, a))
        extra = [self.snapshot(st, a) for a in args[len(ps):]]
        for k, v in defaults.items():
            if out.get(k) is v: del out[k]
        return out, extra

    DESUGAR = {"narrow", "select", "split", "split_with_sizes", "tensor_split", "unflatten", "ravel", "rsub", "inner", "vdot", "linear", "addcmul", "addcdiv", "lerp", "addmv", "addmm", "baddbmm", "addr", "clamp_min", "clamp_max", "amax", "amin", "argmax", "argmin",
               "trace", "diagonal", "diag", "diag_embed", "count_nonzero", "matrix_power", "atleast_2d", "atleast_1d", "atleast_3d", "masked_select", "sigmoid", "trunc", "unbind", "chunk", "square", "reciprocal", "hypot", "max", "min"}
    def stacked(self, st, f, xs):
        """hstack, vstack and column_stack as concatenations"""
        its = self.seq_items(st, xs)
        if its is None: return None
        ts = [self.term(st, i) for i in its]; nds = {T.ndim(t) for t in ts}
        if len(nds) != 1 or None in nds: return None
        n = nds.pop()
        if f == "hstack": o, d = "cat", 0 if n == 1 else 1
        elif f == "vstack": o, d = ("stack" if n == 1 else "cat"), 0
        elif f == "column_stack": o, d = ("stack" if n == 1 else "cat"), 1
        else: return None
        if n == 0: return None
        return self.op(o, mk("list", *ts), *([T.kw("dim", const(d))] if d else []))
    def torch_fn(self, st, f, args, kwargs, full):
        f0 = f
        if f in ("is_tensor",): return self.isinst(st, args[0] if args else kwargs["obj"], Ext("torch.Tensor"))
        if f == "Tensor": return self.op("tensor", self.snapshot(st, args[0])) if args else self.op("empty", T.kw("size", mk("tuple", const(0))))
        if f in ("no_grad", "enable_grad", "inference_mode", "set_grad_enabled"):
            return self.wrap(mk("call", "torch." + f, *[self.snapshot(st, a) for a in args]))
        if f == "device":
            t = self.snapshot(st, args[0]) if args else const("cpu")
            if kind(t)[0] == "device": return t
            r = mk("call", "torch.device", t, *[self.snapshot(st, a) for a in args[1:]]); return r
        if f == "finfo" or f == "iinfo": return self.wrap(mk("call", "torch." + f, *[self.snapshot(st, a) for a in args]))
        if f in CREATE: return self.create(st, f, args, kwargs)
        if f == "einsum":
            eq = self.term(st, args[0])
            xs = args[1:]
            if len(xs) == 1 and self.seq_items(st, xs[0]) is not None: xs = self.seq_items(st, xs[0])
            return self.op("einsum", eq, *[self.tens(st, x) for x in xs])
        if f == "meshgrid":
            xs = args
            if len(xs) == 1 and self.seq_items(st, xs[0]) is not None: xs = self.seq_items(st, xs[0])
            k = self.kws(st, kwargs)
            ts = [self.term(st, x) for x in xs]
            out = []
            for i in range(len(ts)):
                t = mk("meshgrid", const(i), *ts, *k); t.kind_ = ("tensor", len(ts), kind(ts[i])[2] if T.is_tensor_kind(kind(ts[i])) else None)
                out.append(self.wrap(self.mark(t)))
            return TupleVal(out)
        if f in ("from_numpy",):
            t = self.mark(mk("call", "torch.from_numpy", self.term(st, args[0])))
            return self.wrap(t)
        if f in ("manual_seed",): return NONE
        if f in ("cat", "stack", "concat", "concatenate", "hstack", "vstack", "column_stack", "row_stack"):
            f = RENAME.get(f, f)
            xs = args[0] if args else kwargs.pop("tensors", None) or kwargs.pop("tup", None) or kwargs.pop("arrays")
            if f in ("hstack", "vstack", "column_stack"):
                r = self.stacked(st, f, xs)
                if r is not None: return r
            kw, ex = self.normal_kws(st, f, args[1:], kwargs)
            t = self.snapshot(st, self.materialize(st, xs))
            if t.op == "tuple": t = mk("list", *t.args)
            kw.pop("out", None)
            return self.op(f, t, *[T.kw(k, v) for k, v in sorted(kw.items())])
        if f == "where" and len(args) == 3:
            c, x, y = [self.term(st, a) for a in args]
            self.event(st, "where", (c, x, y))
            return self.op("where", c, x, y)
        if f == "where" and len(args) == 1: return self.tensor_method(st, args[0], "nonzero", [], {"as_tuple": TRUE})
        if f in ("is_floating_point", "is_complex"):
            x = self.term(st, args[0]); k = kind(x)
            if f == "is_floating_point" and T.is_tensor_kind(k) and k[2] in ("float", "int", "bool"): return const(k[2] == "float")
            r = mk(f, x); r.kind_ = ("bool",); return r
        if f in ("allclose", "equal", "is_nonzero"):
            r = mk("call", "torch." + f, *[self.snapshot(st, a) for a in args]); r.kind_ = ("bool",); return r
        if f in ("Generator", "Size"):
            return args[0] if f == "Size" and args else self.wrap(mk("call", "torch." + f, *[self.snapshot(st, a) for a in args]))
        if f == "norm" and "linalg" in full:
            # torch.linalg.norm(x, ord, dim, keepdim)
            kwargs = dict(kwargs)
            if "ord" in kwargs: kwargs["p"] = kwargs.pop("ord")
            rest = list(args[1:])
            if rest and self.term(st, rest[0]) is NONE: rest[0] = const("fro")
            return self.tensor_method(st, args[0], "norm", rest, kwargs)
        if f == "vector_norm":
            rest = list(args[1:]); kwargs = dict(kwargs)
            if "ord" in kwargs: kwargs["p"] = kwargs.pop("ord")
            return self.tensor_method(st, args[0], "norm", rest or [const(2)], kwargs)
        if f == "inv": return self.tensor_method(st, args[0], "inverse", args[1:], kwargs)
        if f in ("multi_dot", "chain_matmul"):
            xs = self.seq_items(st, args[0]) if f == "multi_dot" or len(args) == 1 else list(args)
            if xs:
                acc = xs[0]
                for x in xs[1:]: acc = self.binop(st, "MatMult", acc, x)
                return acc
        if f in ("as_strided",): pass
        if not args:
            kwargs = dict(kwargs)
            for k in ("input", "self", "obj"):
                if k in kwargs: args = [kwargs.pop(k)]; break
        if not args: return self.wrap(self.mark(mk("call", "torch." + f, *self.kws(st, kwargs))))
        if f in ("einsum",): pass
        known = f in S or f in RENAME or f in ("reshape", "permute", "tile", "broadcast_to", "squeeze", "numel", "is_floating_point", "movedim") or f in self.DESUGAR
        if not known and not f.endswith("_"):
            ts = [self.snapshot(st, a) for a in args] + self.kws(st, kwargs)
            self.event(st, "call", ("torch." + f, tuple(ts)))
            t = self.mark(mk("call", "torch." + f, *ts)); self.vague.add("torch." + f)
            if kind(t)[0] == "any" and "." not in f and f[0].islower(): t.kind_ = ("tensor", None, None) if f not in ("save", "load", "max_memory_allocated") else T.ANY
            return self.wrap(t)
        return self.tensor_method(st, args[0], f, list(args[1:]), kwargs, function=True)

    def tens(self, st, v):
        t = self.term(st, v)
        return t

    def create(self, st, f, args, kwargs, like=None):
        kw = {k: self.snapshot(st, v) for k, v in kwargs.items()}
        kw.pop("layout", None); kw.pop("generator", None); kw.pop("out", None)
        if f in ("zeros", "ones", "empty", "rand", "randn"):
            if "size" not in kw: kw["size"] = self.shape_args(st, args)
        elif f == "full":
            names = ["size", "fill_value"]
            for k, a in zip(names, args): kw[k] = self.shape_args(st, [a]) if k == "size" else self.term(st, a)
        elif f == "arange":
            ts = [self.term(st, a) for a in args]
            if len(ts) == 1: kw["end"] = ts[0]
            else:
                for k, t in zip(("start", "end", "step"), ts): kw[k] = t
            if kw.get("start") is const(0): del kw["start"]
            if kw.get("step") is const(1): del kw["step"]
        elif f in ("eye", "linspace", "randperm", "randint"):
            for k, a in zip(CREATE[f].split(), args): kw[k] = self.snapshot(st, a)
        elif f in ("tensor", "as_tensor"):
            d = self.snapshot(st, self.materialize(st, args[0])) if args else kw.pop("data")
            if d.op == "tuple": d = mk("list", *d.args)
            if len(args) > 1: kw["dtype"] = self.snapshot(st, args[1])
            k2 = self.mkkw(kw)
            self.event(st, "create", (f, d, dict(kw)))
            if f == "as_tensor": 
                t = mk("as_tensor", d, *k2); t.kind_ = ("tensor", None, None)
                return self.wrap(self.mark(t))
            return self.op("tensor", d, *k2)
        if "requires_grad" in kw and kw["requires_grad"] is FALSE: del kw["requires_grad"]
        for k in ("dtype", "device"):
            if kw.get(k) is NONE: del kw[k]
        self.event(st, "create", (f, None, dict(kw)))
        if f in ("rand", "randn", "randperm", "randint"):           # every draw is another value
            self.draws = getattr(self, "draws", 0) + 1
            kw["draw"] = const(self.draws)
        return self.op(f, *self.mkkw(kw))
    def mkkw(self, kw): return [T.kw(k, v) for k, v in sorted(kw.items())]

    def canon_dtype(self, t):
        """name of a torch dtype when it is one"""
        if t.op == "dtype": return t.args[0]
        if t.op == "ext":
            n = t.args[0]
            m = {"torch.FloatTensor": "float32", "torch.LongTensor": "int64", "torch.DoubleTensor": "float64", "torch.BoolTensor": "bool", "builtins.float": "float64", "builtins.int": "int64", "builtins.bool": "bool"}
            if n.startswith("numpy."):
                n = n[6:].rstrip("_"); n = {"float": "float64", "int": "int64", "double": "float64", "single": "float32", "half": "float16"}.get(n, n)
                return n if n in ("float64", "float32", "float16", "int64", "int32", "int16", "int8", "uint8", "uint16", "uint32", "uint64", "bool") else None
            return m.get(n)
        if is_const(t) and isinstance(cval(t), str):
            if cval(t) in ("float64", "float32", "float16", "int64", "int32", "int16", "int8", "uint8", "uint16", "bool"): return cval(t)
            return {"f4": "float32", "f8": "float64", "float": "float64", "int": "int64"}.get(cval(t)) or {"torch.FloatTensor": "float32", "torch.LongTensor": "int64", "torch.DoubleTensor": "float64"}.get(cval(t))
        return None

    ARITH = {"add": "Add", "sub": "Sub", "mul": "Mult", "div": "Div", "matmul": "MatMult", "pow": "Pow", "floordiv": "FloorDiv", "fmod": None, "remainder": "Mod"}
    CMPS = {"eq": "Eq", "ne": "NotEq", "lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE"}

    def tensor_method(self, st, recv, name, args, kwargs, function=False):
        x = self.term(st, recv)
        if x is NONE:
            self.event(st, "none-deref", name); self.do_raise(st, "AttributeError" if not function else "TypeError"); st.dead = True; raise Dead()
        if isinstance(recv, Choice): return self.split(st, recv, lambda s, y: self.tensor_method(s, y, name, args, kwargs, function))
        # in-place variants
        if name.endswith("_") and not name.startswith("_") and name not in ("requires_grad_",):
            base = name[:-1]
            if base == "copy":
                new = mk("copyto", x, self.term(st, args[0]))
                new.kind_ = kind(x)
            elif base in ("zero",): new = mk("zeros_like", x)
            elif base in ("fill",): new = mk("full_like", x, T.kw("fill_value", self.term(st, args[0])))
            elif base in ("uniform", "normal", "random", "bernoulli"):
                new = mk("call", "torch." + base, x); new.kind_ = kind(x)
            else:
                s2 = st
                r = self.tensor_method(s2, self.wrap(x), base, args, kwargs)
                new = self.term(st, r)
            self.mutate(st, recv, new, name + "()")
            return recv
        if name == "requires_grad_":
            self.event(st, "reqgrad", (x, self.term(st, args[0]) if args else T.TRUE)); return recv
        op = RENAME.get(name, name)
        r = self.desugar(st, recv, x, op, args, kwargs)
        if r is not None: return r
        if op in ("size",):
            if not args and "dim" not in kwargs: return self.data_attr(st, recv, x, "shape")
            d = self.term(st, args[0] if args else kwargs["dim"])
            return T.dimterm(x, cval(d)) if is_const(d) else self.mark(mk("getitem", mk("attr", "shape", x), d))
        if op in ("dim", "ndimension"): return self.ndim_term(x)
        if op == "numel": return self.mark(mk("numel", x))
        if op in ("view", "reshape"):
            if len(args) == 1 and not kwargs and op == "view":
                d = self.snapshot(st, args[0])
                if self.canon_dtype(d): return self.op("bitview", x, d)
            a = list(args) or [kwargs.get("shape", kwargs.get("size"))]
            return self.view(st, recv, x, op, (T.kw("shape", self.shape_args(st, a)),)) if op == "view" else self.mayview(st, recv, x, "reshape", (T.kw("shape", self.shape_args(st, a)),))
        if op in ("permute",):
            return self.view(st, recv, x, "permute", (T.kw("dims", self.shape_args(st, list(args) or [kwargs["dims"]])),))
        if op in ("repeat", "tile"):
            return self.op("repeat", x, T.kw("sizes", self.shape_args(st, list(args) or [list(kwargs.values())[0]])))
        if op in ("expand", "broadcast_to"):
            return self.view(st, recv, x, "expand", (T.kw("shape", self.shape_args(st, list(args) or [list(kwargs.values())[0]])),))
        if op == "flip":
            return self.op("flip", x, T.kw("dims", self.shape_args(st, list(args) or [kwargs["dims"]])))
        if op == "t": 
            return self.view(st, recv, x, "transpose", (T.kw("dim0", const(0)), T.kw("dim1", const(1))))
        if op == "transpose" and T.kind(x)[0] == "ndarray":
            return self.view(st, recv, x, "permute", (T.kw("dims", self.shape_args(st, args)),)) if args else self.view(st, recv, x, "T", ())
        if op in ("transpose", "unsqueeze", "squeeze"):
            kw, ex = self.normal_kws(st, op, args, kwargs)
            return self.view(st, recv, x, op, tuple(self.mkkw(kw)))
        if op in ("detach",): return self.view(st, recv, x, "detach", ())
        if op in ("view_as", "expand_as", "reshape_as", "type_as"):
            o = self.term(st, args[0])
            if op == "type_as": return self.cast(st, recv, x, "to", (T.kw("dtype", mk("attr", "dtype", o)), T.kw("device", mk("attr", "device", o))))
            shp = self.data_attr(st, args[0], o, "shape")
            return self.tensor_method(st, recv, {"view_as": "view", "expand_as": "expand", "reshape_as": "reshape"}[op], [shp], {})
        if op in ("contiguous",): return self.cast(st, recv, x, "contiguous", ())
        if op in ("float", "double", "half", "long", "int", "bool", "byte", "short"):
            if op == "bool" and kind(x)[0] in ("tensor", "ndarray") and kind(x)[2] == "bool": return recv if isinstance(recv, TRef) else self.wrap(x)
            return self.cast(st, recv, x, "cast", (mk("dtype", {"byte": "uint8"}.get(op) or DTYPES[op]),))
        if op in ("cpu", "cuda"):
            return self.cast(st, recv, x, "to", (T.kw("device", const("cpu") if op == "cpu" else const("cuda")),))
        if op == "type" and not args and not kwargs: return self.wrap(mk("attr", "type", x))
        if op in ("to", "type"): return self.to(st, recv, x, args, kwargs)
        if op == "numpy": return self.view(st, recv, x, "numpy", ()) if isinstance(recv, TRef) else self.wrap(mk("numpy", x))
        if op in ("item", "tolist"):
            v = T.constval(x)
            if isinstance(v, int): return const(v)
            if isinstance(v, list) and op == "tolist" and not any(isinstance(y, list) for y in v): return self.alloc(st, Lst([const(y) for y in v]))
            sh = T.shape(x)
            if op == "tolist" and sh is not None and len(sh) == 1 and T.is_num(sh[0]) and cval(sh[0]) <= 16 and T.is_tensor_kind(kind(x)):
                return self.alloc(st, Lst([self.wrap(self.mark(mk("item", mk("getitem", x, const(i))))) for i in range(int(cval(sh[0])))]))
            return self.wrap(self.mark(mk(op, x)))
        if op in ("backward", "register_hook", "retain_grad", "share_memory_", "is_shared"): 
            self.event(st, "call", ("tensor." + op, (x,))); return NONE
        if op in ("is_floating_point", "is_complex", "is_contiguous", "data_ptr", "element_size", "storage"):
            if op == "is_floating_point" and T.is_tensor_kind(kind(x)) and kind(x)[2] in ("float", "int", "bool"): return const(kind(x)[2] == "float")
            r = mk(op, x); r.kind_ = ("bool",) if op.startswith("is_") else ("int",) if op != "storage" else T.ANY
            return r if op != "storage" else self.wrap(r)
        if op.startswith("new_"):
            f = op[4:]
            kw = {k: v for k, v in kwargs.items()}
            kw.setdefault("dtype", mk("attr", "dtype", x)); kw.setdefault("device", mk("attr", "device", x))
            return self.create(st, f, args, kw)
        if op in self.ARITH and self.ARITH[op] and (args or "other" in kwargs or "exponent" in kwargs):
            o = args[0] if args else kwargs.get("other", kwargs.get("exponent"))
            if set(kwargs) - {"other", "exponent", "out"}:
                if op == "div" and "rounding_mode" in kwargs:
                    m = self.term(st, kwargs["rounding_mode"])
                    if m is const("floor"): return self.binop(st, "FloorDiv", recv, o)
                    if m is const("trunc"): return self.op("trunc", self.term(st, self.binop(st, "Div", recv, o)))
                if "alpha" in kwargs: o = self.binop(st, "Mult", kwargs["alpha"], o)
            return self.binop(st, self.ARITH[op], recv, o)
        if op in self.CMPS:
            return self.compare(st, self.CMPS[op], recv, args[0] if args else kwargs["other"])
        if op == "reciprocal": return self.binop(st, "Div", const(1), recv)
        if op == "square": return self.binop(st, "Pow", recv, const(2))
        if op == "neg": return self.op("neg", x)
        if op in ("logical_not",): return self.op("not", x)
        if op in ("logical_and", "bitwise_and"): return self.binop(st, "BitAnd", recv, args[0])
        if op in ("logical_or", "bitwise_or"): return self.binop(st, "BitOr", recv, args[0])
        if op in ("logical_xor", "bitwise_xor"): return self.binop(st, "BitXor", recv, args[0])
        if op == "mv": return self.binop(st, "MatMult", recv, args[0])
        if op == "dot" and T.kind(x)[0] == "ndarray": return self.binop(st, "MatMult", recv, args[0])
        if op == "addmm" or op == "baddbmm":
            return self.binop(st, "Add", recv, self.binop(st, "MatMult", args[0], args[1]))
        if op == "unbind":
            d = self.term(st, args[0]) if args else (self.term(st, kwargs["dim"]) if "dim" in kwargs else const(0))
            return self.slices_along(st, recv, x, d)
        if op == "chunk" or op == "split" or op == "tensor_split":
            return self.split_method(st, recv, x, op, args, kwargs)
        if op == "where":
            return self.torch_fn(st, "where", [args[0], recv, args[1]], {}, "torch.where")
        if op == "fill_diagonal": pass
        if op == "cross":
            kw, ex = self.normal_kws(st, op, args, kwargs)
            o = kw.pop("other")
            return self.op("cross", x, o, *self.mkkw(kw))
        if op == "movedim":
            n = T.ndim(x); a, b = [self.term(st, v) for v in args[:2]]
            if n is not None and is_const(a) and is_const(b) and isinstance(cval(a), int):
                order = [i for i in range(n) if i != cval(a) % n]; order.insert(cval(b) % n, cval(a) % n)
                return self.view(st, recv, x, "permute", (T.kw("dims", mk("tuple", *[const(i) for i in order])),))
        if op in ("max", "min") and args and T.is_tensor_kind(kind(self.term(st, args[0]))):
            return self.op(op + "imum", x, self.term(st, args[0]))
        if op in ("max", "min") and (args or "dim" in kwargs):
            kw, ex = self.normal_kws(st, op, args, kwargs)
            v = mk(op + ".values", x, *self.mkkw(kw)); i = mk(op + ".indices", x, *self.mkkw(kw))
            v.kind_ = kind(x); i.kind_ = ("tensor", None, "int")
            return TupleVal([self.wrap(self.mark(v)), self.wrap(self.mark(i))])
        if op in ("sort", "topk", "median") and (op != "median" or args):
            kw, ex = self.normal_kws(st, op, args, kwargs)
            v = mk(op + ".values", x, *self.mkkw(kw)); i = mk(op + ".indices", x, *self.mkkw(kw))
            v.kind_ = kind(x); i.kind_ = ("tensor", None, "int")
            return TupleVal([self.wrap(self.mark(v)), self.wrap(self.mark(i))])
        if op == "nonzero":
            kw, ex = self.normal_kws(st, op, args, kwargs)
            if kw.get("as_tuple") is TRUE:
                n = T.ndim(x)
                if n is None: return self.wrap(self.mark(mk("nonzero_t", x)))
                out = []
                for i in range(n):
                    t = mk("nzcol", x, const(i)); t.kind_ = ("tensor", 1, "int"); out.append(self.wrap(self.mark(t)))
                return TupleVal(out)
            return self.op("nonzero", x)
        if op == "unique":
            kw, ex = self.normal_kws(st, op, args, kwargs)
            ri, rc = kw.pop("return_inverse", FALSE), kw.pop("return_counts", FALSE)
            k = self.mkkw(kw)
            u = mk("unique", x, *k); u.kind_ = kind(x)
            outs = [self.wrap(self.mark(u))]
            for fl, nm in ((ri, "unique.inverse"), (rc, "unique.counts")):
                if fl is TRUE:
                    t = mk(nm, x, *k); t.kind_ = ("tensor", 1, "int"); outs.append(self.wrap(self.mark(t)))
            return outs[0] if len(outs) == 1 else TupleVal(outs)
        if op in ("get_device",): return mk("call", "get_device", x)
        kw, ex = self.normal_kws(st, op, args, kwargs)
        kw.pop("out", None)
        if op in ("sum", "mean", "all", "any", "prod") and kw.get("dim") is not None and kw["dim"].op in ("tuple", "list") and len(kw["dim"].args) == 1: kw["dim"] = kw["dim"].args[0]
        if op == "norm":
            if kw.get("p") in (const(2), const(2.0)): del kw["p"]
            if kw.get("dim") is not None and kw["dim"].op in ("tuple", "list") and len(kw["dim"].args) == 1: kw["dim"] = kw["dim"].args[0]
            self.event(st, "norm", x)
        if op == "normalize": self.event(st, "norm", x)
        if op in ("outer", "dot", "atan2", "minimum", "maximum", "lerp", "solve", "masked_fill", "masked_select"):
            ps = S[op][0] if op in S else []
            pos_ = [kw.pop(p) for p in ps if p in kw]
            if op == "dot": pos_ = [x] + pos_; return self.op("dot", *pos_, *self.mkkw(kw))
            return self.op(op, x, *pos_, *ex, *self.mkkw(kw))
        if op in ("zeros_like", "ones_like", "empty_like", "full_like", "rand_like", "randn_like"):
            self.event(st, "create", (op, x, dict(kw)))
        if op in S or op in ("dot",):
            return self.op(op, x, *ex, *self.mkkw(kw))
        if name in ("__len__",): return self.len_term(st, recv)
        ts = [self.snapshot(st, a) for a in args]
        self.event(st, "method", (name, x, tuple(ts)))
        t = mk("method", name, x, *ts, *self.kws(st, kwargs))
        return self.wrap(self.mark(t))

    def along(self, x, d, i):
        """index picking i on axis d"""
        full = mk("slice", NONE, NONE, NONE); nd = T.ndim(x)
        if d < 0 and nd is not None: d %= nd
        if d == 0: return i
        return mk("tuple", *([full] * d + [i])) if d > 0 else mk("tuple", T.ELL, i, *([full] * (-d - 1)))
    def desugar(self, st, recv, x, op, args, kwargs):
        """operations written with more elementary ones; None when this is not one of them"""
        def bind(names, **defaults):
            kw = {}
            if len(args) > len(names.split()): return None
            for k, a in zip(names.split(), args): kw[k] = a
            for k, a in kwargs.items():
                k = {"axis": "dim", "keepdims": "keepdim"}.get(k, k)
                if k not in names.split() or k in kw: return None
                kw[k] = a
            for k, v in defaults.items(): kw.setdefault(k, v)
            return kw if len(kw) == len(names.split()) else None
        def num(v):
            v = self.snapshot(st, v)
            return cval(v) if is_const(v) and isinstance(cval(v), int) and not isinstance(cval(v), bool) else None
        B = lambda o, a, b: self.binop(st, o, a, b)
        nd = T.ndim(x)
        if op == "narrow":
            b = bind("dim start length"); d = num(b["dim"]) if b else None
            if d is None: return None
            lo = self.term(st, b["start"]); hi = self.term(st, B("Add", b["start"], b["length"]))
            return self.get_item(st, recv, self.along(x, d, mk("slice", lo, hi, NONE)))
        if op == "select":
            b = bind("dim index"); d = num(b["dim"]) if b else None
            return None if d is None else self.get_item(st, recv, self.along(x, d, self.term(st, b["index"])))
        if op in ("split", "split_with_sizes"):
            b = bind("split_size dim", dim=const(0)) or bind("split_sizes dim", dim=const(0)) or bind("split_size_or_sections dim", dim=const(0)); d = num(b["dim"]) if b else None
            if d is None: return None
            z = b.get("split_size", b.get("split_sizes", b.get("split_size_or_sections")))
            it = self.seq_items(st, z)
            sizes = [num(i) for i in it] if it is not None else None
            if not sizes or None in sizes or d == 0 and all(k == 1 for k in sizes): return None
            out = []; at = 0
            for k in sizes: out.append(self.get_item(st, recv, self.along(x, d, mk("slice", const(at), const(at + k), NONE)))); at += k
            return TupleVal(out)
        if op == "tensor_split":
            b = bind("sections dim", dim=const(0)) or bind("indices_or_sections dim", dim=const(0)) or bind("indices dim", dim=const(0)); d = num(b["dim"]) if b else None
            if d is None: return None
            z = list(b.values())[0]; n = T.dimterm(x, d); it = self.seq_items(st, z)
            if it is not None:
                cuts = [num(i) for i in it]
                if None in cuts: return None
                ends = [const(c) for c in cuts] + [NONE]; starts = [const(0)] + [const(c) for c in cuts]
            else:
                k = num(z)
                if k is None or not is_const(n): return None
                q, r = divmod(cval(n), k); ends = []; starts = []; at = 0
                for i in range(k): starts.append(const(at)); at += q + (i < r); ends.append(const(at))
            return TupleVal([self.get_item(st, recv, self.along(x, d, mk("slice", lo, hi, NONE))) for lo, hi in zip(starts, ends)])
        if op == "unflatten":
            b = bind("dim sizes"); d = num(b["dim"]) if b else None; it = self.seq_items(st, b["sizes"]) if b else None
            if d is None or it is None or nd is None: return None
            d %= nd
            return self.tensor_method(st, recv, "reshape", [T.dimterm(x, i) for i in range(d)] + list(it) + [T.dimterm(x, i) for i in range(d + 1, nd)], {})
        if op == "ravel" or op == "flatten" and kind(x)[0] == "ndarray": return self.tensor_method(st, recv, "reshape", [const(-1)], {}) if op == "ravel" else self.op("clone", self.term(st, self.tensor_method(st, recv, "reshape", [const(-1)], {})))
        if op == "rsub" and len(args) == 1: return B("Sub", args[0], B("Mult", kwargs["alpha"], recv) if "alpha" in kwargs else recv)
        if op == "inner" and len(args) == 1 and nd == 1: return self.op("dot", x, self.term(st, args[0]))
        if op == "vdot" and len(args) == 1: return self.op("dot", x, self.term(st, args[0]))
        if op == "linear":
            b = bind("weight bias", bias=NONE)
            if not b: return None
            w = self.term(st, b["weight"])
            if T.ndim(w) != 2: return None
            r = B("MatMult", recv, self.tensor_method(st, b["weight"], "t", [], {}))
            return r if b["bias"] is NONE else B("Add", r, b["bias"])
        if op in ("addcmul", "addcdiv") and len(args) == 2:
            r = B("Mult" if op == "addcmul" else "Div", args[0], args[1])
            if "value" in kwargs: r = B("Mult", kwargs["value"], r)
            return B("Add", recv, r)
        if op == "lerp":
            b = bind("end weight")
            return B("Add", recv, B("Mult", b["weight"], B("Sub", b["end"], recv))) if b else None
        if op in ("addmv", "addmm", "baddbmm", "addr") and len(args) == 2:
            r = B("MatMult", args[0], args[1]) if op != "addr" else self.op("outer", self.term(st, args[0]), self.term(st, args[1]))
            if "alpha" in kwargs: r = B("Mult", kwargs["alpha"], r)
            return B("Add", B("Mult", kwargs["beta"], recv) if "beta" in kwargs else recv, r)
        if op in ("clamp_min", "clamp_max"):
            v = args[0] if args else kwargs.get("min", kwargs.get("max"))
            return self.tensor_method(st, recv, "clamp", [], {op[6:]: v})
        if op in ("amax", "amin", "argmax", "argmin"):
            b = bind("dim keepdim", dim=NONE, keepdim=FALSE); m = op[-3:]
            if not b: return None
            if b["dim"] is NONE: return self.tensor_method(st, recv, m, [], {}) if op[0:2] == "am" and len(op) == 4 else None
            it = self.seq_items(st, b["dim"])
            if it is not None and len(it) == 1: b["dim"] = it[0]
            elif it is not None: return None
            if kind(x)[0] == "ndarray" and len(op) == 6: return None
            r = self.tensor_method(st, recv, m, [], b)
            if not isinstance(r, TupleVal): return None
            return r.items[0 if len(op) == 4 else 1]
        if op == "hypot" and len(args) == 1: return self.op("sqrt", self.term(st, B("Add", B("Mult", recv, recv), B("Mult", args[0], args[0]))))
        if op in ("max", "min") and T.is_tensor_kind(kind(x)):
            b = bind("dim keepdim", dim=NONE, keepdim=FALSE)
            if b and b["dim"] is not NONE and self.snapshot(st, b["keepdim"]) is TRUE and not T.is_tensor_kind(kind(self.term(st, b["dim"]))) and kind(x)[0] == "tensor" and num(b["dim"]) is not None:
                r = self.tensor_method(st, recv, op, [b["dim"]], {})
                if isinstance(r, TupleVal): return TupleVal([self.tensor_method(st, q, "unsqueeze", [const(num(b["dim"]))], {}) for q in r.items])
            return None
        if op == "trace" and nd == 2: return self.tensor_method(st, self.tensor_method(st, recv, "diagonal", [], {}), "sum", [], {})
        if op in ("diagonal", "diag"):
            b = bind("offset dim1 dim2", offset=const(0), dim1=const(0), dim2=const(1)) if op == "diagonal" else bind("diagonal", diagonal=const(0))
            if not b or nd is None or num(list(b.values())[0] if op == "diag" else b["offset"]) != 0: return None
            if op == "diag" and nd == 1: return self.desugar(st, recv, x, "diag_embed", [], {})
            d1, d2 = (num(b["dim1"]), num(b["dim2"])) if op == "diagonal" else (0, 1)
            if d1 is None or d2 is None: return None
            d1 %= nd; d2 %= nd
            n = T.dimterm(x, d1); m = T.dimterm(x, d2)
            if not (is_const(n) and is_const(m)) or min(cval(n), cval(m)) > 6: return None
            full = mk("slice", NONE, NONE, NONE); out = []
            for i in range(min(cval(n), cval(m))):
                ix = [full] * nd; ix[d1] = ix[d2] = const(i)
                out.append(self.term(st, self.get_item(st, recv, mk("tuple", *ix))))
            return self.op("stack", mk("list", *out), T.kw("dim", const(-1)))
        if op == "diag_embed":
            if args or kwargs or nd is None: return None
            n = T.dimterm(x, -1)
            if not is_const(n) or cval(n) > 6: return None
            k = cval(n)
            col = [self.term(st, self.get_item(st, recv, self.along(x, -1, const(i)))) for i in range(k)]
            zero = mk("zeros_like", col[0])
            self.mark(zero)
            rows = [self.term(st, self.op("stack", mk("list", *[col[i] if i == j else zero for j in range(k)]), T.kw("dim", const(-1)))) for i in range(k)]
            return self.op("stack", mk("list", *rows), T.kw("dim", const(-2)))
        if op == "count_nonzero":
            b = bind("dim", dim=NONE)
            if b and kind(x)[0] == "tensor" and kind(x)[2] == "bool": return self.tensor_method(st, recv, "sum", [], {} if b["dim"] is NONE else b)
            return None
        if op == "matrix_power":
            k = num(args[0]) if len(args) == 1 else None
            if k is None or not 1 <= k <= 4: return None
            r = recv
            for _ in range(k - 1): r = B("MatMult", r, recv)
            return r
        if op in ("atleast_2d", "atleast_1d", "atleast_3d") and not args and nd is not None and nd >= int(op[8]): return recv
        if op == "masked_select":
            m = self.term(st, args[0] if args else kwargs["mask"])
            if T.ndim(m) is not None and T.ndim(m) == nd and all(T.same(T.dimterm(m, i), T.dimterm(x, i)) if hasattr(T, "same") else T.dimterm(m, i) is T.dimterm(x, i) for i in range(nd)): return self.get_item(st, recv, m)
            return None
        if op == "sigmoid": return B("Div", const(1), B("Add", const(1), self.op("exp", self.term(st, self.op("neg", x)))))
        if op == "rollaxis" and kind(x)[0] == "ndarray":
            b = bind("dim start", start=const(0)); a, s2 = (num(b["dim"]), num(b["start"])) if b else (None, None)
            if a is None or s2 is None or nd is None: return None
            a %= nd; s2 = s2 + nd if s2 < 0 else s2
            order = [i for i in range(nd) if i != a]; order.insert(s2 - (s2 > a), a)
            return self.view(st, recv, x, "permute", (T.kw("dims", mk("tuple", *[const(i) for i in order])),))
        if op in ("sum", "mean", "all", "any", "prod") and ("dim" in kwargs or "axis" in kwargs or args):
            d = args[0] if args else kwargs.get("dim", kwargs.get("axis")); it = self.seq_items(st, d)
            if it is not None and nd is not None and len(it) == nd and not any(k in kwargs for k in ("keepdim", "keepdims")) and len(args) < 2:
                return self.tensor_method(st, recv, op, [], {k: v for k, v in kwargs.items() if k not in ("dim", "axis")})
        return None

    def mayview(self, st, recv, x, op, rest):
        return self.view(st, recv, x, op, rest)
    def cast(self, st, recv, x, op, rest):
        """a conversion that may return its argument; storage sharing is `may`"""
        t = self.mark(mk(op, x, *rest))
        if t.kind_ is None:
            k = kind(x)
            dt = k[2] if T.is_tensor_kind(k) else None
            if op == "cast": dt = T.dtkind(rest[0].args[0])
            t.kind_ = (k[0] if T.is_tensor_kind(k) else "tensor", k[1] if T.is_tensor_kind(k) else None, dt)
            t.shape_ = T.shape(x)
        if self.nograd: t2 = mk("nograd", t); return self.wrap(t2)
        return self.wrap(t)
    def to(self, st, recv, x, args, kwargs):
        dt = dev = None; copy = False; rest = {}
        for a in list(args) + [kwargs[k] for k in ("dtype", "device", "other") if k in kwargs]:
            t = self.snapshot(st, a)
            c = self.canon_dtype(t)
            k = kind(t)[0]
            if c: dt = mk("dtype", c)
            elif t.op == "attr" and t.args[0] == "dtype" or k == "dtype": dt = t
            elif T.is_tensor_kind(k if isinstance(k, tuple) else kind(t)): dt = mk("attr", "dtype", t); dev = mk("attr", "device", t)
            elif k in ("bool",): continue
            elif t is NONE: continue
            else: dev = t
        cp = kwargs.get("copy")
        if cp is not None:
            ct = self.term(st, cp)
            copy = ct
        r = recv
        t = x
        if dt is not None:
            r = self.cast(st, r, t, "cast", (dt,)) if dt.op == "dtype" else self.cast(st, r, t, "to", (T.kw("dtype", dt),))
            t = self.term(st, r)
        if dev is not None or (dt is None):
            rest = (T.kw("device", dev),) if dev is not None else ()
            if isinstance(r, TRef) and not self.nograd and T.is_tensor_kind(kind(t)):         # on the same device the very tensor is returned
                self.mark(mk("to", t, *rest))
                r = TRef(r.cell, r.base, r.chain + (("to", rest),))
            else: r = self.cast(st, r, t, "to", rest)
            t = self.term(st, r)
        if copy is TRUE: r = self.op("clone", t)
        elif isinstance(copy, Term) and copy is not FALSE: r = self.wrap(T.ite(copy, mk("clone", t), t))
        return r
    def slices_along(self, st, recv, x, d):
        if not is_const(d): return self.wrap(mk("call", "unbind", x, d))
        n = T.dimterm(x, cval(d)); nd = T.ndim(x)
        full = mk("slice", NONE, NONE, NONE)
        def idx(i):
            dv = cval(d)
            if dv == 0: return i
            if nd is not None: dv = dv % nd
            if dv >= 0: return mk("tuple", *([full] * dv + [i]))
            return mk("tuple", T.ELL, i, *([full] * (-dv - 1)))
        if is_const(n): return TupleVal([self.get_item(st, recv, idx(const(i))) for i in range(cval(n))])
        ix = mk("ix", self.depth)
        t = mk("map", self.depth, n, T.getitem(x, idx(ix)))
        return self.wrap(t)
    def split_method(self, st, recv, x, op, args, kwargs):
        kw, ex = self.normal_kws(st, op, args, kwargs)
        d = kw.get("dim", const(0))
        size = kw.get("split_size", kw.get("chunks", kw.get("indices_or_sections", kw.get("sections"))))
        if op == "split" and is_const(d) and cval(d) == 0:
            one = size is const(1)
            if size.op == "list":
                n = 0
                for a in size.args: pass
                if len(size.args) == 1 and size.args[0].op == "splat" and size.args[0].args[0].op == "map" and size.args[0].args[0].args[2] is const(1): one = True
                if size.args and all(a is const(1) for a in size.args): one = True
            if size.op == "map" and size.args[2] is const(1): one = True
            if one:
                t = mk("call", "split1", x); t.kind_ = ("list", (kind(x)[0] if T.is_tensor_kind(kind(x)) else "tensor", None, kind(x)[2] if T.is_tensor_kind(kind(x)) else None))
                return self.wrap(self.mark(t))
        n = T.dimterm(x, cval(d)) if is_const(d) else None
        k = None
        if op == "chunk" and is_const(size):
            k = cval(size)
            if n is not None and is_const(n) and cval(n) % k == 0: step = cval(n) // k
            else: step = None
        elif op == "split" and n is not None and is_const(n) and is_const(size):
            step = cval(size); k = -(-cval(n) // step)
        else: step = None
        full = mk("slice", NONE, NONE, NONE)
        if k is not None and step is not None:
            nd = T.ndim(x); dv = cval(d)
            out = []
            for i in range(k):
                s = mk("slice", const(i * step), const((i + 1) * step), NONE)
                if dv < 0 and nd is not None: dv = dv % nd
                idx = mk("tuple", *([full] * dv + [s])) if dv > 0 else s if dv == 0 else mk("tuple", T.ELL, s, *([full] * (-dv - 1)))
                out.append(self.get_item(st, recv, idx))
            return TupleVal(out)
        if k is not None:
            out = []
            for i in range(k):
                t = mk("chunkpart", x, const(i), size, d); t.kind_ = ("tensor", None, None)
                out.append(self.wrap(self.mark(t)))
            return TupleVal(out)
        return self.wrap(self.mark(mk("call", op, x, *self.mkkw(kw))))

    # ------------------------------------------------------------ numpy
    NPSAME = {"matmul": "matmul", "dot": "matmul", "sqrt": "sqrt", "abs": "abs", "cos": "cos", "sin": "sin", "maximum": "maximum", "minimum": "minimum", "outer": "outer", "where": "where", "concatenate": "cat", "stack": "stack", "log10": "log10", "exp": "exp", "sum": "sum", "max": "max", "min": "min", "round": "round", "floor": "floor", "all": "all", "any": "any"}
    def numpy_dtype(self, st, kwargs):
        """keyword arguments with the dtype in the analyser's own spelling; None when it is not understood"""
        kw = dict(kwargs)
        kw.pop("order", None)
        if "dtype" in kw:
            d = self.snapshot(st, kw["dtype"])
            if d is NONE: del kw["dtype"]; return kw
            c = self.canon_dtype(d)
            if c: kw["dtype"] = mk("dtype", c)
            elif kind(d)[0] == "dtype" or d.op == "attr" and d.args[0] == "dtype": kw["dtype"] = d
            else: return None
        return kw
    def numpy_array(self, st, f, args, kwargs):
        kw = self.numpy_dtype(st, kwargs if len(args) < 2 else dict(kwargs, dtype=args[1]))
        if kw is None or set(kw) - {"dtype", "copy"}: return None
        v = self.resolve(st, self.materialize(st, args[0]))
        t = self.snapshot(st, v)
        k = kind(t)[0]
        copy = f == "array" and self.snapshot(st, kw.pop("copy", TRUE)) is not FALSE
        kw.pop("copy", None)
        if k == "ndarray":
            r = v if not copy else self.wrap(self.mark(mk("clone", t)))
            d = kw.get("dtype")
            if d is None or d.op != "dtype": return r if d is None else None
            return self.cast(st, r, self.term(st, r), "cast", (d,))
        if k in ("list", "tuple") and t.op in ("list", "tuple", "map", "concat"):
            lst = mk("list", *t.args) if t.op == "tuple" else t
            if kw.get("dtype") is not None and kw["dtype"].op == "dtype": lst = self.numbers(lst, T.dtkind(kw["dtype"].args[0]))
            if any(T.is_tensor_kind(kind(x)) for x in lst.args if isinstance(x, Term)) and lst.op == "list": 
                x = mk("stack", lst)
            else: x = mk("tensor", lst, *self.mkkw(kw))
            return self.wrap(self.mark(mk("numpy", x)))
        return None
    def numbers(self, t, k):
        """words converted to numbers inside nested lists"""
        if t.op in ("list", "tuple"): return mk("list", *[self.numbers(a, k) for a in t.args])
        if k not in ("float", "int") or kind(t)[0] != "str": return t
        try: 
            if is_const(t): return const((float if k == "float" else int)(cval(t)))
        except ValueError: return t
        if is_token(t):
            r = mk("call", k, t); r.kind_ = (k,); return r
        return t
    NUMPYCREATE = {"arange", "eye", "zeros", "ones", "full", "linspace", "identity"}
    def numpy_fn(self, st, f, args, kwargs):
        if f in self.NUMPYCREATE:
            kw = self.numpy_dtype(st, kwargs)
            if kw is not None:
                a = list(args)
                if f in ("zeros", "ones") and len(a) > 1: kw["dtype"] = self.snapshot(st, a.pop())
                if "shape" in kw: kw["size"] = kw.pop("shape")
                if "N" in kw: kw["n"] = kw.pop("N")
                if isinstance(kw.get("dtype"), Term) and kw["dtype"].op == "ext":
                    c = self.canon_dtype(kw["dtype"]); 
                    if c: kw["dtype"] = mk("dtype", c)
                r = self.torch_fn(st, "eye" if f == "identity" else f, a, kw, "numpy." + f)
                return self.wrap(self.mark(mk("numpy", self.term(st, r))))
        if f in ("moveaxis", "swapaxes", "rollaxis", "ravel", "diagonal", "trace", "clip", "square", "negative", "absolute", "power", "reshape") and args and T.is_tensor_kind(kind(self.term(st, args[0]))):
            kw = dict(kwargs)
            if f == "clip":
                for k in ("a_min", "a_max"):
                    if k in kw: kw[k[2:]] = kw.pop(k)
            if f == "swapaxes" and len(args) == 3 and not kw:
                n = T.ndim(self.term(st, args[0])); i, j = [self.snapshot(st, a) for a in args[1:]]
                if n is not None and is_const(i) and is_const(j):
                    order = list(range(n)); i, j = cval(i) % n, cval(j) % n; order[i], order[j] = order[j], order[i]
                    return self.view(st, args[0], self.term(st, args[0]), "permute", (T.kw("dims", mk("tuple", *[const(k) for k in order])),))
            else: return self.tensor_method(st, args[0], {"power": "pow"}.get(f, f), list(args[1:]), kw)
        if f in ("stack", "concatenate", "vstack", "hstack", "column_stack", "row_stack") :
            r = self.torch_fn(st, {"concatenate": "cat"}.get(f, f), list(args), dict(kwargs), "numpy." + f)
            return self.wrap(self.mark(mk("numpy", self.term(st, r))))
        if f in ("zeros_like", "ones_like", "full_like", "empty_like"):
            kw = self.numpy_dtype(st, kwargs)
            if kw is not None:
                r = self.torch_fn(st, f, list(args), kw, "numpy." + f)
                return self.wrap(self.mark(mk("numpy", self.term(st, r))))
        if f == "linalg.inv" and len(args) == 1: 
            return self.wrap(self.mark(mk("numpy", mk("inverse", self.snapshot(st, args[0])))))
        if f == "copy" and len(args) == 1: return self.wrap(self.mark(mk("clone", self.snapshot(st, args[0]))))
        if f == "linalg.norm" and args and T.is_tensor_kind(kind(self.term(st, args[0]))) and set(kwargs) <= {"axis", "keepdims"} and len(args) == 1:
            return self.wrap(self.mark(mk("numpy", self.term(st, self.tensor_method(st, args[0], "norm", [], dict(kwargs))))))
        if f.startswith("linalg."):
            ts = [self.snapshot(st, a) for a in args]
            return self.wrap(self.mark(mk("call", "numpy." + f, *ts, *self.kws(st, kwargs))))
        if f in ("matmul", "dot") and len(args) == 2: return self.binop(st, "MatMult", args[0], args[1])
        if f in ("add", "multiply", "subtract", "divide") and len(args) == 2:
            return self.binop(st, {"add": "Add", "multiply": "Mult", "subtract": "Sub", "divide": "Div"}[f], *args)
        if f in ("isnan", "isfinite", "isinf"):
            v0 = self.snapshot(st, args[0])
            if T.is_num(v0): return const(getattr(math, f)(cval(v0)))
            if v0.op == "call" and v0.args[0] == "float" and is_token(v0.args[1]): return const(f == "isfinite")
            r = mk("call", "numpy." + f, self.snapshot(st, args[0])); 
            r.kind_ = ("bool",) if kind(r.args[1])[0] in ("float", "any", "int") else ("ndarray", None, "bool")
            return self.wrap(self.mark(r)) if r.kind_[0] != "bool" else self.mark(r)
        if f in ("array", "asarray", "ascontiguousarray", "asanyarray"):
            r = self.numpy_array(st, f, args, kwargs)
            if r is not None: return r
            d = self.snapshot(st, self.materialize(st, args[0]))
            if d.op == "tuple": d = mk("list", *d.args)
            kw = {k: self.snapshot(st, v) for k, v in kwargs.items()}
            if len(args) > 1: kw["dtype"] = self.snapshot(st, args[1])
            if f == "asarray": nm = "numpy.asarray"
            else: nm = "numpy." + f
            return self.wrap(self.mark(mk("call", nm, d, *self.mkkw(kw))))
        ts = [self.snapshot(st, self.materialize(st, a)) for a in args]
        if f in ("expand_dims",):
            kw = {k: self.snapshot(st, v) for k, v in kwargs.items()}
            ax = kw.get("axis", ts[1] if len(ts) > 1 else NONE)
            return self.view(st, args[0], ts[0], "unsqueeze", (T.kw("dim", ax),))
        if f in ("transpose",):
            ax = self.snapshot(st, kwargs["axes"]) if "axes" in kwargs else ts[1] if len(ts) > 1 else None
            if ax is None: return self.view(st, args[0], ts[0], "T", ())
            if ax.op == "list": ax = mk("tuple", *ax.args)
            return self.view(st, args[0], ts[0], "permute", (T.kw("dims", ax),))
        if f == "squeeze": return self.view(st, args[0], ts[0], "squeeze", tuple(self.mkkw({"dim": v for v in ts[1:2]})))
        if f == "outer":
            t = mk("outer", *ts); t.kind_ = ("ndarray", 2, None); return self.wrap(self.mark(t))
        if f in ("sqrt", "abs", "cos", "sin", "exp", "log10", "floor") and len(ts) == 1:
            t = mk(f, ts[0]); 
            if kind(ts[0])[0] in ("any", "float", "int"): t.kind_ = ("float",)
            return self.mark(t) if kind(t)[0] == "float" else self.wrap(self.mark(t))
        if f in ("maximum", "minimum", "fmax", "fmin") and len(ts) == 2:
            return self.wrap(self.mark(mk("numpy", mk({"fmax": "maximum", "fmin": "minimum"}.get(f, f), *ts))))
        if f == "where" and len(ts) == 3: return self.wrap(self.mark(mk("numpy", mk("where", *ts))))
        if f in ("finfo", "iinfo"): return self.wrap(mk("call", "numpy." + f, *ts))
        t = self.mark(mk("call", "numpy." + f, *ts, *self.kws(st, kwargs))); self.vague.add("numpy." + f)
        self.event(st, "call", ("numpy." + f, tuple(ts)))
        return self.wrap(t)

    # ------------------------------------------------------------ methods of builtin objects
    def call_method(self, st, recv, name, args, kwargs):
        recv = self.resolve(st, recv)
        if isinstance(recv, Choice): return self.split(st, recv, lambda s, x: self.call_value(s, self.get_attr(s, x, name), args, kwargs))
        if isinstance(recv, Super):
            if name == "__init__": 
                if isinstance(recv.self_, Ref) and args:
                    o = st.heap[recv.self_.oid]
                    if "%dict" in o.attrs: self.dict_update(st, o.attrs["%dict"], args[0])
                return NONE
            o = st.heap[recv.self_.oid] if isinstance(recv.self_, Ref) else None
            if o is not None and "%dict" in o.attrs:
                d = o.attrs["%dict"]
                if name == "__setitem__": self.set_item(st, d, args[0], args[1]); return NONE
                if name == "__getitem__": return self.get_item(st, d, args[0])
                if name == "__repr__": return self.wrap(mk("call", "repr", self.snapshot(st, d)))
                return self.call_method(st, d, name, args, kwargs)
            if name in ("__setattr__",): 
                nm = self.term(st, args[0])
                if is_const(nm): st.heap[recv.self_.oid].attrs[cval(nm)] = args[1]
                return NONE
            return self.wrap(mk("call", "super." + name, *[self.snapshot(st, a) for a in args]))
        if isinstance(recv, InstDict):
            if name in ("get", "pop", "setdefault", "update", "clear") and not (name == "get"):
                if name == "update" and args:
                    D = self.alloc(st, Dct()); self.dict_update(st, D, args[0])
                    for k, v in st.heap[D.oid].items.items(): self.set_item(st, recv, k, v)
                    for k, v in kwargs.items(): self.set_item(st, recv, const(k), v)
                    return NONE
                k = self.term(st, args[0]) if args else None
                o = st.heap[recv.oid]
                if k is not None and is_const(k):
                    if cval(k) in o.attrs and o.attrs[cval(k)] is not UNDEF: return o.attrs.pop(cval(k)) if name == "pop" else o.attrs[cval(k)]
                    if len(args) > 1:
                        if name == "setdefault": self.set_item(st, recv, k, args[1])
                        return args[1]
                self.note("attribute dictionary " + name)
            d = self.instdict(st, recv)
            return self.call_method(st, d, name, args, kwargs)
        if isinstance(recv, Cls):
            ext = self.mro(st, recv)[1]
            if args and isinstance(args[0], Ref) and any(e.endswith(("dict", "Dict")) for e in ext) or ext and recv.name == "dict":
                return self.call_method(st, Super(recv, args[0]), name, args[1:], kwargs)
            return self.wrap(mk("call", recv.name + "." + name, *[self.snapshot(st, a) for a in args]))
        if isinstance(recv, TupleVal):
            if name == "index":
                for i, x in enumerate(recv.items):
                    if self.fact(st, self.cond(st, self.equal(st, x, args[0]))) is True: return const(i)
            if name == "count": return self.wrap(mk("method", name, self.snapshot(st, recv), *[self.snapshot(st, a) for a in args]))
            if name == "numel":
                acc = const(1)
                for x in recv.items: acc = self.binop(st, "Mult", acc, x)
                return acc
        if isinstance(recv, Ref):
            o = st.heap[recv.oid]
            if isinstance(o, Lst): return self.list_method(st, recv, o, name, args, kwargs)
            if isinstance(o, Dct): return self.dict_method(st, recv, o, name, args, kwargs)
            if isinstance(o, SetV): return self.set_method(st, recv, o, name, args, kwargs)
            if name == "register_buffer" or name == "register_parameter":
                st.heap[recv.oid].attrs[cval(self.term(st, args[0]))] = args[1]; return NONE
            if name in ("to", "train", "eval"): return recv
            if name == "parameters": return self.alloc(st, Lst([]))
        t = self.snapshot(st, recv)
        if t is NONE:
            self.event(st, "none-deref", name); self.do_raise(st, "AttributeError"); st.dead = True; raise Dead()
        if t.op == "file": return self.file_method(st, t, name, args, kwargs)
        if name in ("exec_module", "load_module"): self.event(st, "exec", name)
        k = kind(t)[0]
        if k == "str": return self.str_method(st, t, name, args, kwargs)
        if k == "set" or t.op == "set":
            at = [self.snapshot(st, a) for a in args]
            if name in ("add", "update", "remove", "discard"):
                self.mutate(st, recv, mk("set" if False else "setop", name, t, *at), name); return NONE
            r = mk("setop", name, t, *at); r.kind_ = ("set",); return self.wrap(r)
        if k in ("tensor", "ndarray"):
            if k == "ndarray" and name in ("astype", "copy", "reshape", "transpose", "mean", "sum", "min", "max", "round", "tolist", "flatten", "squeeze", "ravel", "item"):
                if name == "astype":
                    d = self.snapshot(st, args[0] if args else kwargs["dtype"]); c = self.canon_dtype(d)
                    if c and t.op == "numpy" and t.args[0].op == "tensor" and t.args[0].args[0].op == "list":
                        l2 = self.numbers(t.args[0].args[0], T.dtkind(c))
                        if l2 is not t.args[0].args[0]: return self.wrap(self.mark(mk("numpy", mk("tensor", l2, T.kw("dtype", mk("dtype", c))))))
                    if c: return self.cast(st, None, self.mark(mk("clone", t)), "cast", (mk("dtype", c),))
                    r = mk("astype", t, d); return self.wrap(self.mark(r))
                if name == "transpose":
                    if not args: return self.view(st, recv, t, "T", ())
                    return self.tensor_method(st, recv, "permute", args, {})
                if name == "copy": return self.op("clone", t)
            if k == "tensor" and name == "unique": pass
            return self.tensor_method(st, recv, name, args, kwargs)
        if k == "list" and name in ("append", "extend", "insert", "remove", "pop", "sort", "clear", "reverse"):
            at = [self.snapshot(st, a) for a in args]
            self.mutevent(st, t, name)
            if name == "append": new = mk("list", mk("splat", t), *at)
            elif name == "extend": new = mk("list", mk("splat", t), mk("splat", at[0]))
            else: new = mk("listop", name, t, *at); 
            if name not in ("append", "extend"): new.kind_ = kind(t)
            if isinstance(recv, TRef) and not recv.chain: st.over[recv.cell] = new
            if name == "pop": return self.wrap(T.getitem(t, at[0] if at else const(-1)))
            return NONE
        if k == "dict" or (k == "any" and name in ("items", "keys", "values", "get", "update", "setdefault")):
            at = [self.snapshot(st, a) for a in args]
            if name in ("keys", "values", "items"):
                r = mk("dict." + name, t)
                r.kind_ = ("list", ("str",) if name == "keys" else T.ANY if name == "values" else ("tuple",))
                if name == "keys": return self.wrap(r)
                if name == "values": return self.wrap(r)
                return self.wrap(r)
            if name == "get":
                d = at[1] if len(at) > 1 else NONE
                return self.wrap(mk("dict.get", t, at[0], d))
            if name in ("update", "pop", "setdefault", "clear"):
                self.mutate(st, recv, mk("dictop", name, t, *at), name)
                return NONE if name in ("update", "clear") else self.wrap(mk("dict." + name, t, *at))
            if name == "copy": return self.wrap(mk("dictcopy", t))
        if k == "any" and name not in ("read", "readlines", "close", "write", "decode") and self.tensorlike(name):
            return self.tensor_method(st, recv, name, args, kwargs)
        at = [self.snapshot(st, self.materialize(st, a)) for a in args] + self.kws(st, kwargs)
        if t.op == "call" and t.args[0] in ("open", "io.open") and name == "__enter__": return recv
        self.event(st, "method", (name, t, tuple(at)))
        r = mk("method", name, t, *at)
        if name in ("read", "decode", "readline"): r.kind_ = ("str",)
        if name == "readlines": r.kind_ = ("list", ("str",))
        return self.wrap(self.mark(r))
    TENSORONLY = {"view", "unsqueeze", "permute", "clamp", "detach", "clone", "contiguous", "matmul", "transpose", "squeeze", "norm", "float", "long", "double", "half", "to", "dim", "size", "numel", "expand", "repeat", "reshape", "t", "cpu", "cuda", "numpy", "item", "nonzero", "masked_fill", "requires_grad_", "any", "all", "sum", "mean", "max", "min", "abs", "type", "floor", "round", "bool", "int", "tolist", "unbind", "inverse", "gather", "index_select", "ndimension", "new_zeros", "new_ones", "eq", "unique", "cos", "sin", "dot", "mm", "div", "mul", "add_", "mul_", "copy_", "fill_", "zero_", "clamp_", "div_", "sub_", "normalize"}
    def tensorlike(self, name): return name in self.TENSORONLY or (name.endswith("_") and name[:-1] in S)

    def list_method(self, st, ref, o, name, args, kwargs):
        if name in ("append", "extend", "insert", "remove", "pop", "sort", "clear", "reverse"): self.event(st, "mutlist", (ref, name))
        if name == "append": o.segs.append(args[0]); return NONE
        if name == "extend":
            v = self.materialize(st, args[0]); items = self.seq_items(st, v)
            if items is not None: o.segs.extend(items)
            elif isinstance(v, Ref) and isinstance(st.heap[v.oid], Lst): o.segs.extend(st.heap[v.oid].segs)
            else: o.segs.append(Splat(self.term(st, v)))
            return NONE
        if name == "copy": return self.alloc(st, Lst(list(o.segs)))
        if name == "clear": o.segs = []; return NONE
        if name in ("pop", "insert", "remove", "reverse", "sort", "index", "count") and o.concrete():
            at = [self.term(st, a) if not isinstance(a, (Ref, Func)) else a for a in args]
            if name == "pop":
                if not args and o.segs: return o.segs.pop()
                if args and isinstance(at[0], Term) and is_const(at[0]) and len(o.segs) > abs(cval(at[0])): return o.segs.pop(cval(at[0]))
            if name == "insert" and is_const(at[0]): o.segs.insert(cval(at[0]), args[1]); return NONE
            if name == "reverse": o.segs.reverse(); return NONE
            if name in ("remove", "index"):
                for i, x in enumerate(o.segs):
                    f = self.fact(st, self.cond(st, self.equal(st, x, args[0])))
                    if f is True:
                        if name == "index": return const(i)
                        del o.segs[i]; return NONE
                    if f is None: break
            if name == "sort":
                r = self.ordered(st, ref, kwargs)
                if r is not None: st.heap[ref.oid].segs = list(st.heap[r.oid].segs); return NONE
            if name == "sort" and all(isinstance(x, Term) and is_const(x) for x in o.segs) and not kwargs:
                o.segs = [const(v) for v in sorted(cval(x) for x in o.segs)]; return NONE
        t = self.segterm(st, o.segs)
        at = [self.snapshot(st, a) for a in args] + self.kws(st, kwargs)
        if name in ("index", "count"):
            r = mk("method", name, t, *at); r.kind_ = ("int",); return r
        if name in ("insert", "remove", "reverse", "sort", "pop"):
            if name == "sort": new = mk("call", "sorted", t, *at)
            else:
                new = mk("listop", name, t, *at); new.kind_ = kind(t)
            o.segs = [Splat(new)]
            if name == "pop": return self.wrap(T.getitem(t, at[0] if at else const(-1)))
            return NONE
        return self.wrap(mk("method", name, t, *at))

    def set_method(self, st, ref, o, name, args, kwargs):
        if name in ("add", "discard", "remove") and len(args) == 1:
            k = self.snapshot(st, args[0])
            self.event(st, "mutdict", (ref, k))
            if not is_const(k) or not all(is_const(x) for x in o.items):
                if name != "add" and k not in o.items: raise Unsupported("removal of an unknown element from a set")
            if name == "add": o.items[k] = TRUE
            elif k in o.items: del o.items[k]
            elif name == "remove": self.do_raise(st, "KeyError"); st.dead = True; raise Dead()
            return NONE
        if name == "copy": return self.alloc(st, o.copy())
        if name == "clear": o.items.clear(); return NONE
        if name in ("update", "union") and len(args) == 1:
            items = self.seq_items(st, self.materialize(st, args[0]))
            if items is not None:
                tgt = o if name == "update" else o.copy()
                for x in items: tgt.items[self.snapshot(st, x)] = TRUE
                return NONE if name == "update" else self.alloc(st, tgt)
        t = self.snapshot(st, ref); r = mk("setop", name, t, *[self.snapshot(st, a) for a in args]); r.kind_ = ("set",)
        if name in ("update", "pop", "difference_update", "intersection_update", "symmetric_difference_update"): raise Unsupported("set." + name)
        return self.wrap(r)
    def dict_method(self, st, ref, d, name, args, kwargs):
        if name == "keys": 
            if d.base is None: return self.alloc(st, Lst(list(d.items)))
        if name == "values":
            if d.base is None: return self.alloc(st, Lst(list(d.items.values())))
        if name == "items":
            if d.base is None: return self.alloc(st, Lst([TupleVal([k, v]) for k, v in d.items.items()]))
        if name == "copy": return self.alloc(st, Dct(dict(d.items), d.base))
        if name in ("get", "pop", "setdefault") and args:
            k = self.snapshot(st, args[0])
            v = d.items.get(k)
            if name != "get": self.event(st, "mutdict", (ref, k))
            if v is not None and v is not UNDEF:
                if name == "pop": del d.items[k]
                return v
            if d.base is None and is_const(k) and all(is_const(x) for x in d.items):
                if len(args) > 1:
                    if name == "setdefault": d.items[k] = args[1]
                    return args[1]
                if name == "get": return NONE
                self.event(st, "badkey", cval(k)); self.do_raise(st, "KeyError"); st.dead = True; raise Dead()
            t = self.snapshot(st, ref)
            if name == "setdefault": d.items[k] = args[1]
            return self.wrap(mk("dict." + name, t, k, *[self.snapshot(st, a) for a in args[1:]]))
        if name == "update":
            self.event(st, "mutdict", (ref, None))
            if args: self.dict_update(st, ref, args[0])
            for k, v in kwargs.items(): d.items[const(k)] = v
            return NONE
        if name == "clear":
            self.event(st, "mutdict", (ref, None)); d.items.clear(); d.base = None; return NONE
        t = self.snapshot(st, ref)
        if name in ("keys", "values", "items"):
            r = mk("dict." + name, t); r.kind_ = ("list", ("str",) if name == "keys" else ("tuple",) if name == "items" else T.ANY)
            return self.wrap(r)
        return self.wrap(mk("method", name, t, *[self.snapshot(st, a) for a in args]))

    def str_method(self, st, t, name, args, kwargs):
        if not is_const(t):
            r = self.text_method(st, t, name, args, kwargs)
            if r is not None: return r
        at = [self.snapshot(st, self.materialize(st, a)) for a in args]
        if is_const(t) and all(is_const(a) for a in at) and not kwargs and name in ("lower", "upper", "strip", "split", "replace", "startswith", "endswith", "lstrip", "rstrip", "find", "isdigit", "zfill", "rjust", "splitlines", "format", "index", "rfind", "rindex", "count", "rsplit", "partition", "rpartition", "title", "capitalize", "isspace", "ljust", "isalpha", "isnumeric", "casefold", "removeprefix", "removesuffix"):
            try:
                r = getattr(cval(t), name)(*[cval(a) for a in at])
                if isinstance(r, list): return self.alloc(st, Lst([const(x) for x in r]))
                if isinstance(r, tuple): return TupleVal([const(x) for x in r])
                return const(r)
            except Exception: pass
        if name == "join" and is_const(t) and at and at[0].op in ("list", "tuple") and not any(a.op == "splat" for a in at[0].args):
            out = []
            for i, a in enumerate(at[0].args):
                if i: out.append(t)
                out.append(a)
            return self.strcat(out)
        if name == "format" and is_const(t):
            return self.format(st, cval(t), at, {k: self.snapshot(st, v) for k, v in kwargs.items()})
        if name in ("startswith", "endswith", "isdigit", "isnumeric", "isalpha"):
            r = mk("str." + name, t, *at); r.kind_ = ("bool",); return self.mark(r)
        if name in ("split", "rsplit", "splitlines"):
            r = mk("str.split" if name == "split" else "str." + name, t, *at); r.kind_ = ("list", ("str",)); return self.wrap(self.mark(r))
        if name in ("find", "index", "count"):
            r = mk("str." + name, t, *at); r.kind_ = ("int",); return self.mark(r)
        r = mk("str." + name, t, *at, *self.kws(st, kwargs)); r.kind_ = ("str",) if name != "encode" else T.ANY
        return self.mark(r) if kind(r)[0] == "str" else self.wrap(r)
    def format(self, st, s, at, kw):
        import string
        out = []; auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(s):
                if lit: out.append(const(lit))
                if field is None: continue
                if field == "": v = at[auto]; auto += 1
                elif field.isdigit(): v = at[int(field)]
                elif field in kw: v = kw[field]
                else: v = mk("fmtfield", field, *at)
                spec = const(spec) if spec else NONE
                if is_const(v) and isinstance(cval(v), (str, int)) and not isinstance(cval(v), bool) and spec is NONE: out.append(const(str(cval(v))))
                elif kind(v)[0] == "str" and spec is NONE and not conv: out.append(v)
                else: out.append(mk("fmt", v, spec))
        except Exception:
            return mk("str", mk("fmt", const(s), *at))
        return self.strcat(out)

class PartialVal(Value):
    __slots__ = ("f", "args", "kwargs")
    def __init__(self, f, a, k): self.f = f; self.args = a; self.kwargs = k

def IterValT():
    from .exprs import IterVal
    return IterVal
