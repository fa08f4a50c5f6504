"""Hash-consed value-graph terms, with light kind and shape inference.

A term is an immutable node (op, args); args are terms or plain hashable payloads.  Equal terms are the same
Python object, so equality of value graphs is identity.
"""
from fractions import Fraction

class Term:
    __slots__ = ("op", "args", "h", "kind_", "shape_", "roots_", "norm_", "__weakref__")
    def __repr__(self):
        return show(self)
    def __hash__(self):
        return self.h
    def __eq__(self, o):
        return self is o
    def __ne__(self, o):
        return self is not o
    def __lt__(self, o):
        return skey(self) < skey(o)

_TAB = {}
SYMKIND = {}     # symbol name -> kind tuple
SYMSHAPE = {}    # symbol name -> tuple of dims (Term) or None

def mk(op, *args):
    k = (op, args)
    t = _TAB.get(k)
    if t is None:
        t = Term()
        t.op = op; t.args = args; t.h = hash(k)
        t.kind_ = t.shape_ = t.roots_ = t.norm_ = None
        _TAB[k] = t
    return t

def const(v):
    if isinstance(v, Fraction):
        v = int(v) if v.denominator == 1 else v
    return mk("const", type(v).__name__, v)

NONE = const(None); TRUE = const(True); FALSE = const(False); ELL = mk("ellipsis")

def is_const(t): return isinstance(t, Term) and t.op == "const"
def cval(t): return t.args[1]
def is_num(t): return is_const(t) and isinstance(t.args[1], (int, float, Fraction)) and not isinstance(t.args[1], bool)
def is_none(t): return t is NONE

def sym(name, kind=("any",), shape=None):
    SYMKIND[name] = kind
    if shape is not None:
        SYMSHAPE[name] = tuple(shape)
    return mk("sym", name)

def kw(name, t): return mk("kw", name, t)

def kids(t):
    return [a for a in t.args if isinstance(a, Term)]

_sk = {}
def skey(t):
    """stable, content based sort key (independent of creation order)"""
    s = _sk.get(t)
    if s is None:
        import hashlib
        parts = [t.op]
        for a in t.args:
            parts.append(skey(a) if isinstance(a, Term) else repr(a))
        s = hashlib.md5("|".join(parts).encode()).hexdigest()
        _sk[t] = s
    return s

INFIX = {"add": "+", "sub": "-", "mul": "*", "div": "/", "matmul": "@", "lt": "<", "le": "<=", "eq": "==", "ne": "!=", "pow": "**", "floordiv": "//", "mod": "%", "concat": "++"}
def show(t, depth=7):
    if not isinstance(t, Term):
        return repr(t)
    if depth <= 0 and t.args and t.op not in ("const", "sym"):
        return "…"
    d = depth - 1
    o = t.op
    if o == "const": return repr(t.args[1]) if not isinstance(t.args[1], Fraction) else str(t.args[1])
    if o == "sym": return t.args[0]
    if o == "ix": return "i%s" % t.args[0]
    if o == "mu": return "mu%s.%s" % t.args
    if o == "kw": return "%s=%s" % (t.args[0], show(t.args[1], d))
    if o == "ellipsis": return "..."
    if o == "attr": return "%s.%s" % (show(t.args[1], d), t.args[0])
    if o == "tuple": return "(" + ", ".join(show(a, d) for a in t.args) + ")"
    if o == "list": return "[" + ", ".join(show(a, d) for a in t.args) + "]"
    if o == "splat": return "*" + show(t.args[0], d)
    if o == "getitem": return "%s[%s]" % (show(t.args[0], d), show(t.args[1], d))
    if o == "slice":
        return ":".join("" if a is NONE else show(a, d) for a in t.args)
    if o == "ite": return "(%s if %s else %s)" % (show(t.args[1], d), show(t.args[0], d), show(t.args[2], d))
    if o == "poly":
        out = []
        for m in t.args:
            c, fs = m.args[0], m.args[1:]
            s = "*".join(show(f.args[0], d) + ("" if f.args[1] == 1 else "^%s" % f.args[1]) for f in fs)
            out.append(s if c == 1 and s else ("%s*%s" % (c, s) if s else str(c)))
        return "(" + " + ".join(out) + ")"
    if o in INFIX and len(t.args) == 2:
        return "(%s %s %s)" % (show(t.args[0], d), INFIX[o], show(t.args[1], d))
    return o + "(" + ", ".join(show(a, d) for a in t.args) + ")"

# ---------------------------------------------------------------- kinds
ANY = ("any",)
def K(k): return k[0]

CMP = {"lt", "le", "eq", "ne"}
BOOLOPS = {"not", "and", "or", "isinstance", "is", "in"}
ARITH = {"add", "sub", "mul", "div", "floordiv", "mod", "pow", "neg"}
SAMEKIND1 = {"clone", "detach", "contiguous", "to", "float", "double", "half", "cpu", "cuda", "exp", "log", "sin", "cos", "tan", "sqrt", "abs", "round", "floor", "ceil", "clamp", "clip",
             "acos", "asin", "atan", "sigmoid", "tanh", "sign", "reciprocal", "relu", "type", "requires_grad", "nograd", "flip", "inverse", "log10", "type_as", "pow", "square", "rsqrt", "normalize", "zeros_like", "ones_like", "full_like", "empty_like", "astype", "copy", "cumsum", "store"}
INTTENS = {"long", "int", "argsort", "argmax", "argmin", "nonzero", "arange", "randperm"}

def kind(t):
    k = t.kind_
    if k is None:
        k = _kind(t)
        if t.op != "sym":
            t.kind_ = k
    return k

def tk(nd=None, dt=None): return ("tensor", nd, dt)

def is_tensor_kind(k): return k[0] in ("tensor", "ndarray")

DT = {"bool": "bool", "int64": "int", "int32": "int", "int16": "int", "int8": "int", "uint8": "int", "long": "int", "int": "int"}
def dtypekind(d, default):
    """kind of the elements of an array created with dtype term d"""
    if d is None or d is NONE: return default
    if d.op == "dtype": return DT.get(d.args[0] if isinstance(d.args[0], str) else cval(d.args[0]), "float")
    if d.op == "ext":
        n = d.args[0] if isinstance(d.args[0], str) else str(d.args[0])
        n = n.split(".")[-1]
        return DT.get(n, "float" if n.startswith(("float", "double", "half")) else None)
    if d.op == "attr" and d.args[0] == "dtype":
        k = kind(d.args[1])
        return k[2] if is_tensor_kind(k) else None
    return None
def _kind(t):
    o = t.op
    if o == "sq": return kind(t.args[0])
    if o in ("maximum", "minimum") and len(t.args) == 2:
        ka, kb = kind(t.args[0]), kind(t.args[1])
        for k, q in ((ka, kb), (kb, ka)):
            if is_tensor_kind(k) and (k[1] is None or not is_tensor_kind(q) or q[1] == 0 or q[1] == k[1]): return (k[0], k[1] if is_const(t.args[0]) or is_const(t.args[1]) or q[1:2] == (0,) or not is_tensor_kind(q) else None, k[2])
        if is_tensor_kind(ka) or is_tensor_kind(kb): return ("tensor", None, "float" if "float" in (ka[2:] + kb[2:]) else None)
    if o in ("zeros", "ones", "empty"): return ("tensor", None, dtypekind(getkw(t, "dtype"), "float"))
    if o == "full": return ("tensor", None, dtypekind(getkw(t, "dtype"), None))
    if o in ("zeros_like", "ones_like", "empty_like", "full_like"):
        k = kind(t.args[0])
        if is_tensor_kind(k): return (k[0], k[1], dtypekind(getkw(t, "dtype"), k[2]))
    if o == "slice": return ("slice",)
    if o == "const":
        v = t.args[1]
        if v is None: return ("none",)
        if t.args[0] == "num": return ("int",) if isinstance(v, int) else ("float",)
        return (type(v).__name__ if not isinstance(v, Fraction) else "float",)
    if o == "sym": return SYMKIND.get(t.args[0], ANY)
    if o in ("ix", "dim", "len", "ndim", "numel"): return ("int",)
    if o == "tuple": return ("tuple",)
    if o in ("list",): return ("list", kind(t.args[0]) if t.args and t.args[0].op != "splat" else (elemkind(t.args[0].args[0]) if t.args else ANY))
    if o in ("map", "flatmap"):
        return ("list", kind(t.args[2]) if o == "map" else ANY)
    if o == "slicekeep" : return kind(t.args[0])
    if o in ("dict",): return ("dict",)
    if o in ("str", "fmt"): return ("str",)
    if o in CMP:
        a, b = kind(t.args[0]), kind(t.args[1])
        if is_tensor_kind(a) or is_tensor_kind(b):
            return (a[0] if is_tensor_kind(a) else b[0], None, "bool")
        return ("bool",)
    if o in ("not", "isnan", "isinf", "isfinite") and is_tensor_kind(kind(t.args[0])): return kind(t.args[0])[:2] + ("bool",)
    if o in BOOLOPS: return ("bool",)
    if o in ARITH:
        ks = [kind(a) for a in kids(t)]
        for k in ks:
            if is_tensor_kind(k):
                dts = {x[2] if is_tensor_kind(x) else ("float" if x[0] == "float" else "int") for x in ks}
                dt = "float" if ("float" in dts or o == "div") else (None if None in dts else "int")
                return (k[0], None, dt)
        if any(k[0] == "any" for k in ks): return ANY
        if all(k[0] in ("int", "bool") for k in ks) and o != "div": return ("int",)
        if all(k[0] in ("int", "bool", "float") for k in ks): return ("float",)
        if o == "add" and ks and ks[0][0] in ("str", "list", "tuple"): return ks[0]
        if o == "mul" and any(k[0] in ("str", "list", "tuple") for k in ks): return [k for k in ks if k[0] in ("str", "list", "tuple")][0]
        if o == "mod" and ks[0][0] == "str": return ("str",)
        return ANY
    if o == "concat": return kind(t.args[0])
    if o == "ite":
        a, b = kind(t.args[1]), kind(t.args[2])
        if a == b: return a
        if a[0] == b[0]:
            if is_tensor_kind(a): return (a[0], a[1] if a[1] == b[1] else None, a[2] if a[2] == b[2] else None)
            return (a[0],) if len(a) == 1 else a
        return ANY
    if o == "fold":
        # kind of the carried slot: initial value and body agree
        for fv in t.args:
            if isinstance(fv, Term) and fv.op == "fv" and fv.args[0] is t.args[2]:
                a, b = kind(fv.args[1]) if fv.args[1].op != "undef" else ANY, kind(fv.args[2])
                if a == b or b == ANY: return a
                if is_tensor_kind(a) and is_tensor_kind(b): return (a[0], a[1] if a[1] == b[1] else None, a[2] if a[2] == b[2] else None)
        return ANY
    if o in ("tensor", "as_tensor") and getkw(t, "dtype") is not None and getkw(t, "dtype").op == "dtype": return ("tensor", None, dtkind(getkw(t, "dtype").args[0]))
    if o in ("tensor", "as_tensor") and len(t.args) == 1:
        v = constval(t)
        f = _flat(v) if isinstance(v, list) else [v] if v is not None else []
        if f: return ("tensor", None, "bool" if all(isinstance(x, bool) for x in f) else "float" if any(isinstance(x, float) for x in f) else "int")
    if o == "getitem":
        k = kind(t.args[0])
        if is_tensor_kind(k): return (k[0], None, k[2])
        if k[0] == "list" and len(k) > 1:
            return k if t.args[1].op == "slice" else k[1]
        if k[0] == "str": return ("str",)
        return ANY
    if o in ("matmul", "einsum", "sumprod", "cross", "cat", "stack", "where", "permute", "transpose", "reshape", "view", "unsqueeze", "squeeze", "expand", "repeat", "sum", "mean", "norm", "prod", "min", "max", "dot", "outer", "diagonal", "full", "eye", "zeros", "ones", "empty", "tensor", "linspace", "rand", "randn", "index_select", "gather", "flatten", "expand_as", "trace", "det", "T", "bmm", "amax", "amin", "tanh", "atan2", "unfold", "masked_fill", "masked_select", "tril", "triu", "lin.inv", "storeview", "idxmut"):
        dt = None
        if o in ("permute", "transpose", "reshape", "view", "unsqueeze", "squeeze", "expand", "repeat", "index_select", "gather", "flatten", "T", "storeview", "sum"):
            k = kind(t.args[0])
            if k[0] == "ndarray": return ("ndarray", None, "int" if o == "sum" and k[2] == "bool" else k[2])
            dt = k[2] if is_tensor_kind(k) else None
            if o == "sum" and dt == "bool": dt = "int"
        return ("tensor", None, dt)
    if o in ("all", "any") :
        k = kind(t.args[0])
        if is_tensor_kind(k): return ("tensor", None, "bool")
        return ("bool",)
    if o == "item": 
        k = kind(t.args[0])
        if is_tensor_kind(k) and k[2] == "bool": return ("bool",)
        return ("float",)
    if o in INTTENS: return ("tensor", None, "int")
    if o == "bool": return ("tensor", None, "bool") if is_tensor_kind(kind(t.args[0])) else ("bool",)
    if o in SAMEKIND1:
        k = kind(t.args[0])
        return k if k[0] in ("tensor", "ndarray", "float", "int", "list") else ("tensor", None, None) if o not in ("copy", "to", "type", "store", "pow", "round", "abs", "int", "float") else ANY
    if o == "call":
        n = t.args[0]
        if n.startswith("numpy.") or n.startswith("np."): return ("ndarray", None, None) if not n.endswith(("isnan", "floor", "deg2rad")) else ANY
        if n.startswith("os.path.") : return ("str",) if n.endswith(("join", "normpath", "abspath", "basename", "dirname", "expanduser")) else ("bool",) if n.endswith(("isdir", "isfile", "exists")) else ANY
        if n in ("os.listdir", "sorted", "natsort.natsorted", "list", "glob.glob"): return ("list", ("str",) if n in ("os.listdir", "glob.glob") else elemkind(t.args[1]) if len(t.args) > 1 else ANY)
        if n in ("str", "repr"): return ("str",)
        if n in ("int",): return ("int",)
        if n in ("float",): return ("float",)
        if n == "torch.from_numpy": return ("tensor", None, None)
        if n == "torch.device": return ("device",)
        return ANY
    if o == "numpy": return ("ndarray", None, None)
    if o == "tolist": return ("list", ANY)
    if o == "attr":
        if t.args[0] == "device": return ("device",)
        if t.args[0] == "dtype": return ("dtype",)
        if t.args[0] in ("T", "mT", "data", "real"): return kind(t.args[1])
    if o in ("str.join", "str.strip", "str.replace", "str.lower", "str.format", "str.upper"): return ("str",)
    if o in ("str.split",): return ("list", ("str",))
    if o == "set": return ("set",)
    if o == "cast":
        k = kind(t.args[0]); d = t.args[1].args[0] if isinstance(t.args[1], Term) else t.args[1]
        dt = dtkind(d)
        return (k[0] if is_tensor_kind(k) else "tensor", k[1] if is_tensor_kind(k) else None, dt)
    if o == "range": return ("list", ("int",))
    if o in ("quant", "exists", "is_floating_point", "str.startswith", "str.endswith", "str.isdigit", "hasattr", "callable", "truth", "issubclass"): return ("bool",)
    if o in ("pymax", "pymin"): return ("int",) if all(kind(a)[0] == "int" for a in t.args) else ANY
    if o in ("pymaxof", "pyminof"): return elemkind(t.args[0])
    if o.endswith(".values") and o != "dict.values": return kind(t.args[0])
    if o.endswith(".indices") or o in ("nzcol", "unique.inverse", "unique.counts"): return ("tensor", None, "int")
    if o == "knn.idx": return ("tensor", 3, "int")
    if o == "knn.dists": return ("tensor", 3, "float")
    if o in ("unique", "copyto"): return kind(t.args[0])
    if o in ("chunkpart", "as_tensor"): return ("tensor", None, None)
    if o == "meshgrid": return ("tensor", len(pos(t)) - 1, None)
    if o in ("str.split", "str.splitlines"): return ("list", ("str",))
    if o == "dict.keys": return ("list", ("str",))
    if o == "dict.items": return ("list", ("tuple",))
    if o == "dict.values": return ("list", ANY)
    if o in ("rangelen", "slicelen", "ucount", "count", "count_nonzero_py"): return ("int",)
    if o.startswith("str."): return ("str",)
    if o in ("listop", "store", "delitem"): return kind(t.args[1] if o == "listop" else t.args[0])
    if o == "unview": return kind(t.args[0])
    if o == "unsplit": return kind(t.args[0])
    if o in ("bitand", "bitor", "bitxor"):
        k = kind(t.args[0])
        if is_tensor_kind(k): return k
        return kind(t.args[1]) if is_tensor_kind(kind(t.args[1])) else ("bool",) if k[0] == "bool" else ANY
    if o == "first": return kind(t.args[3])
    return ANY

def dtkind(d): return "bool" if d == "bool" else "int" if "int" in d else "float"
def elemkind(t):
    k = kind(t)
    if k[0] == "list" and len(k) > 1: return k[1]
    if k[0] == "str": return ("str",)
    if is_tensor_kind(k): return (k[0], None, k[2])
    return ANY

# ---------------------------------------------------------------- shapes
ONE = const(1)
def shape(t):
    """tuple of dim terms, or None when unknown"""
    s = t.shape_
    if s is None or t.op == "sym":
        s = _shape(t)
        t.shape_ = s if s is not None else False
    return s if s is not False else None

def ndim(t):
    s = shape(t)
    if s is not None: return len(s)
    k = kind(t)
    if is_tensor_kind(k) and k[1] is not None: return k[1]
    return None

def getkw(t, name, default=None):
    for a in t.args:
        if isinstance(a, Term) and a.op == "kw" and a.args[0] == name:
            return a.args[1]
    return default

def pos(t):
    return [a for a in t.args if isinstance(a, Term) and a.op != "kw"]

def dimterm(x, i):
    s = shape(x)
    if s is not None and -len(s) <= i < len(s):
        return s[i]
    return mk("dim", x, i)

def bshape(shapes):
    if any(s is None for s in shapes): return None
    n = max(len(s) for s in shapes)
    out = []
    for j in range(1, n + 1):
        c = [s[-j] for s in shapes if len(s) >= j]
        nz = [d for d in c if not (d.op == "const" and d.args[1] == 1)]
        out.append(nz[0] if nz else c[0])
    return tuple(reversed(out))

def misfit(op, x, y):
    """the known shapes of the operands cannot be combined"""
    a, b = shape(x), shape(y)
    if a is None or b is None: return False
    def n(d): return cval(d) if is_const(d) and isinstance(cval(d), int) else None
    def clash(p, q): return p is not None and q is not None and p != q
    if op == "matmul":
        if not a or not b: return not a or not b
        if clash(n(a[-1]), n(b[-2]) if len(b) > 1 else n(b[-1])): return True
        a, b = a[:-2], b[:-2]
    for i in range(1, min(len(a), len(b)) + 1):
        p, q = n(a[-i]), n(b[-i])
        if clash(p, q) and p != 1 and q != 1: return True
    return False
def shapetext(x): return "[%s]" % ",".join(str(cval(d)) if is_const(d) else "?" for d in shape(x))
def seqitems(t):
    if t is None: return None
    if t.op in ("tuple", "list") and not any(a.op == "splat" for a in t.args): return list(t.args)
    return None

def slen(lo, hi, step, n):
    """length of slice over n"""
    if step is not NONE and step is not ONE:
        try:
            if is_num(step) and is_num(n) and all(z is NONE or is_num(z) for z in (lo, hi)):
                f = lambda z: None if z is NONE else int(cval(z))
                return const(len(range(int(cval(n)))[slice(f(lo), f(hi), f(step))]))
        except (TypeError, ValueError): pass
        return mk("slicelen", lo, hi, step, n)
    l = 0 if lo is NONE else (cval(lo) if is_const(lo) else lo)
    if hi is NONE: h = n
    else: h = cval(hi) if is_const(hi) else hi
    if is_const(n):
        nv = cval(n)
        def fix(v): return max(0, min(nv, v + nv if v < 0 else v))
        hv = nv if h is n else h
        if isinstance(l, int) and isinstance(hv, int):
            return const(max(0, fix(hv) - fix(l)))
    if isinstance(l, int) and h is n and l == 0: return n
    if isinstance(l, int) and isinstance(h, int):
        if l >= 0 and h >= 0: return const(max(0, h - l))          # assumes the dimension is long enough
        if l < 0 and h < 0: return const(h - l)
    if isinstance(l, int) and h is n and l < 0: return const(-l)
    if isinstance(l, int) and h is n and l > 0: return sub_(n, const(l))
    if isinstance(h, int) and h < 0 and l == 0: return sub_(n, const(-h))
    return mk("slicelen", lo, hi, step, n)

_cv = {}
def constval(t):
    """value of a small integer tensor (or number) known at analysis time: int, bool or nested list; None otherwise"""
    if t in _cv: return _cv[t]
    _cv[t] = None
    try: v = _constval(t)
    except (TypeError, IndexError, ValueError, ZeroDivisionError): v = None
    _cv[t] = v
    return v
def _isint(v): return isinstance(v, int)
def _flat(v): return [x for y in v for x in _flat(y)] if isinstance(v, list) else [v]
def _ew(f, a, b):
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b): raise ValueError
        return [_ew(f, x, y) for x, y in zip(a, b)]
    if isinstance(a, list): return [_ew(f, x, b) for x in a]
    if isinstance(b, list): return [_ew(f, a, x) for x in b]
    return f(a, b)
def _constval(t):
    o = t.op
    if o == "const":
        v = t.args[1]
        return v if isinstance(v, int) or isinstance(v, float) and v == v else None
    if o in ("zeros_like", "ones_like"):
        sh = shape(t.args[0])
        if sh is None: return None
        return constval(mk(o[:-5], kw("size", mk("tuple", *sh)), *[a for a in t.args[1:] if a.op == "kw" and a.args[0] == "dtype"]))
    if o in ("zeros", "ones", "full"):
        sz = seqitems(getkw(t, "size") or next((a for a in t.args if isinstance(a, Term) and a.op in ("tuple", "list")), NONE))
        if sz is None or not all(_isint(constval(d)) for d in sz): return None
        n = 1
        for d in sz: n *= constval(d)
        if n > 4096: return None
        dt = str(getkw(t, "dtype") or "")
        v = {"zeros": 0, "ones": 1}.get(o) if o != "full" else constval(getkw(t, "fill_value"))
        if v is None: return None
        if o != "full": v = bool(v) if "bool" in dt else v if "int" in dt else float(v)
        for d in reversed(sz): v = [v for _ in range(constval(d))]
        return v
    if o == "store":
        v = constval(t.args[0]); w = constval(t.args[2])
        if not isinstance(v, list) or w is None or isinstance(w, list): return None
        ix = t.args[1].args if t.args[1].op == "tuple" else (t.args[1],)
        def put(x, js):
            if not js: return w if not isinstance(x, list) else [put(y, js) for y in x]
            j = js[0]
            if j.op == "slice" and all(a is NONE or _isint(constval(a)) for a in j.args):
                hit = set(range(len(x))[slice(*[None if a is NONE else constval(a) for a in j.args])])
                return [put(y, js[1:]) if k in hit else y for k, y in enumerate(x)]
            k = constval(j)
            if not _isint(k) or isinstance(k, bool): raise ValueError
            k = range(len(x))[k]
            return [put(y, js[1:]) if m == k else y for m, y in enumerate(x)]
        return put(v, list(ix))
    if o in ("nonzero", "count"):
        v = constval(t.args[0])
        if not isinstance(v, list): return None
        out = []
        def walk_(x, p):
            if isinstance(x, list):
                for k, y in enumerate(x): walk_(y, p + [k])
            elif x: out.append(p)
        walk_(v, [])
        return out if o == "nonzero" else len(out)
    if o == "squeeze":
        v = constval(t.args[0]); d = getkw(t, "dim")
        if not isinstance(v, list): return None
        if d is None:
            def sq(x):
                if not isinstance(x, list): return x
                return sq(x[0]) if len(x) == 1 else [sq(y) for y in x]
            return sq(v) if _flat(v) else None
        if not is_const(d): return None
        nd, x = 0, v
        while isinstance(x, list):
            nd += 1
            if not x: return None
            x = x[0]
        dd = cval(d) % nd
        def at(x, k):
            if k == 0: return x[0] if len(x) == 1 else x
            return [at(y, k - 1) for y in x]
        return at(v, dd)
    if o == "numel":
        v = constval(t.args[0])
        return len(_flat(v)) if isinstance(v, list) else None
    if o in ("not", "logical_not"):
        v = constval(t.args[0])
        return _ew(lambda x, _: not x, v, 0) if v is not None and all(isinstance(x, bool) for x in _flat(v if isinstance(v, list) else [v])) else None
    if o in ("tensor", "as_tensor"):
        def go(x):
            if x.op in ("list", "tuple"):
                r = [go(y) for y in x.args]
                if any(y is None for y in r): raise ValueError
                return r
            v = constval(x)
            if v is None: raise ValueError
            return v
        return go(t.args[0])
    if o in ("to", "clone", "detach", "contiguous", "cpu", "numpy", "nograd", "tolist"): return constval(t.args[0])
    if o == "call" and len(t.args) == 2 and t.args[0] in ("int",) and isinstance(t.args[1], Term): return constval(t.args[1])
    if o == "cast":
        v = constval(t.args[0])
        if v is None: return None
        d = t.args[1].args[0]
        if d == "bool": return _ew(lambda x, _: bool(x), v, 0)
        if d.startswith("int"): return _ew(lambda x, _: int(x), v, 0)
        return None
    if o == "item":
        v = constval(t.args[0])
        f = _flat(v) if v is not None else None
        return f[0] if f and len(f) == 1 else None
    if o == "getitem":
        v = constval(t.args[0])
        if not isinstance(v, list): return None
        i = t.args[1]
        if i.op == "tuple" and i.args:
            def pick(x, js):
                if not js: return x
                j = js[0]
                if j.op == "slice" and all(a is NONE or _isint(constval(a)) for a in j.args): return [pick(y, js[1:]) for y in x[slice(*[None if a is NONE else constval(a) for a in j.args])]]
                k = constval(j)
                if not _isint(k) or isinstance(k, bool): raise ValueError
                return pick(x[k], js[1:])
            return pick(v, list(i.args))
        j = constval(i)
        if _isint(j) and not isinstance(j, bool): return v[j]
        if i.op == "slice" and all(a is NONE or _isint(constval(a)) for a in i.args): return v[slice(*[None if a is NONE else constval(a) for a in i.args])]
        return None
    if o in ("max", "min", "sum", "prod", "any", "all") and len(t.args) == 1:
        v = constval(t.args[0])
        if v is None: return None
        f = _flat(v)
        if o == "prod":
            r = 1
            for x in f: r *= x
            return r
        return {"max": max, "min": min, "sum": sum, "any": any, "all": all}[o](f)
    if o == "unique" and len(t.args) == 1:
        v = constval(t.args[0])
        return sorted(set(_flat(v))) if v is not None else None
    if o in ("add", "sub", "mul", "lt", "le", "eq", "ne") and len(t.args) == 2:
        a, b = constval(t.args[0]), constval(t.args[1])
        if a is None or b is None: return None
        import operator as O
        return _ew({"add": O.add, "sub": O.sub, "mul": O.mul, "lt": O.lt, "le": O.le, "eq": O.eq, "ne": O.ne}[o], a, b)
    if o in ("maximum", "minimum") and len(t.args) == 2:
        a, b = constval(t.args[0]), constval(t.args[1])
        return None if a is None or b is None else _ew(max if o == "maximum" else min, a, b)
    return None
def known(t):
    """the constant term of a scalar known at analysis time, else the term itself"""
    if t.op == "const": return t
    v = constval(t)
    return const(v) if _isint(v) else t

def sub_(a, b):
    if is_num(a) and is_num(b): return const(cval(a) - cval(b))
    return mk("sub", a, b)

def _shape(t):
    o = t.op
    if o == "sym": return () if kind(t)[0] in ("int", "float", "bool") else SYMSHAPE.get(t.args[0])
    if o in ("const",) and isinstance(t.args[1], (int, float)): return ()
    if o in ("ix", "dim", "len", "numel", "ndim"): return ()
    if o == "fold":
        for fv in t.args:
            if isinstance(fv, Term) and fv.op == "fv" and fv.args[0] is t.args[2]:
                a, b = (shape(fv.args[1]) if fv.args[1].op != "undef" else None), shape(fv.args[2])
                return a if a is not None and a == b else None
        return None
    k = kind(t)
    if k[0] in ("int", "float", "bool"): return ()
    if o == "unique":
        v = constval(t)
        if isinstance(v, list): return (const(len(v)),)
        d = getkw(t, "dim"); s = shape(t.args[0])
        if d is not None and is_const(d) and cval(d) == 0 and s: return (mk("ucount", t.args[0]),) + s[1:]
        return None
    if o in ("sq", "pos", "nonneg", "zero", "trunc"): return shape(t.args[0])
    if o == "bdd": return bshape([shape(x) for x in t.args if x is not TRUE and x is not FALSE])
    if o == "poly":
        fs = [shape(f.args[0]) for m in t.args for f in m.args[1:]]
        return bshape(fs) if fs else ()
    if o == "pad":
        s = shape(t.args[0]); p = seqitems(getkw(t, "pad"))
        if s is None or p is None or len(p) % 2 or len(p) // 2 > len(s) or not all(is_const(x) for x in p): return None
        s = list(s)
        for j in range(len(p) // 2):
            q = cval(p[2 * j]) + cval(p[2 * j + 1])
            if q: s[-1 - j] = const(cval(s[-1 - j]) + q) if is_num(s[-1 - j]) else mk("add", s[-1 - j], const(q))
        return tuple(s)
    if o in ("isnan", "isinf", "isfinite", "clone", "detach", "contiguous", "to", "float", "double", "half", "cpu", "cuda", "long", "int", "bool", "exp", "log", "sin", "cos", "tan", "sqrt", "abs", "round", "floor", "clamp", "acos", "sigmoid", "tanh", "type", "type_as", "nograd", "zeros_like", "ones_like", "full_like", "empty_like", "not", "neg", "inverse", "storeview", "store", "rsqrt", "sign", "normalize", "requires_grad", "square", "astype", "masked_fill", "idxmut", "flip", "ceil", "cast", "copyto", "unview", "bitview", "cumsum", "numpy", "minimum_", "tan"):
        return shape(t.args[0])
    if o in ARITH or o in CMP or o in ("where",) or (o in ("and", "or", "bitand", "bitor", "maximum", "minimum", "atan2")):
        ks = pos(t)
        return bshape([shape(a) for a in ks])
    if o == "unsqueeze":
        s = shape(t.args[0]); d = getkw(t, "dim")
        if s is None or d is None or not is_const(d): return None
        d = cval(d); d = d + len(s) + 1 if d < 0 else d
        return s[:d] + (ONE,) + s[d:]
    if o == "squeeze":
        s = shape(t.args[0]); d = getkw(t, "dim")
        if s is None: return None
        if d is None: return None
        if not is_const(d): return None
        d = cval(d); d = d + len(s) if d < 0 else d
        if not 0 <= d < len(s): return None
        if s[d] is ONE: return s[:d] + s[d + 1:]
        if is_const(s[d]): return s
        return s[:d] + s[d + 1:]
    if o == "transpose":
        s = shape(t.args[0]); a, b = getkw(t, "dim0"), getkw(t, "dim1")
        if s is None or not (a is not None and b is not None and is_const(a) and is_const(b)): return None
        l = list(s); a, b = cval(a), cval(b)
        try: l[a], l[b] = l[b], l[a]
        except IndexError: return None
        return tuple(l)
    if o == "T":
        s = shape(t.args[0]); return None if s is None else tuple(reversed(s))
    if o == "permute":
        s = shape(t.args[0]); p = seqitems(getkw(t, "dims"))
        if s is None or p is None or not all(is_const(x) for x in p) or len(p) != len(s): return None
        return tuple(s[cval(x)] for x in p)
    if o in ("reshape", "view"):
        p = seqitems(getkw(t, "shape"))
        if p is None: return None
        if any(is_const(x) and cval(x) == -1 for x in p):
            s = shape(t.args[0])
            out = []
            for x in p:
                if is_const(x) and cval(x) == -1:
                    r = None
                    if s is not None:
                        rest = list(p); rest.remove(x); pool = list(s)
                        ok = True
                        for y in rest:
                            if y in pool: pool.remove(y)
                            elif y is ONE: pass
                            else: ok = False
                        pool = [z for z in pool if z is not ONE]
                        if ok and len(pool) == 1: r = pool[0]
                        elif ok and not pool: r = ONE
                    out.append(r if r is not None else mk("dim", t, len(out)))
                else: out.append(x)
            return tuple(out)
        return tuple(p)
    if o == "expand":
        p = seqitems(getkw(t, "shape"))
        if p is None: return None
        s = shape(t.args[0])
        out = []
        for j, x in enumerate(p):
            if is_const(x) and cval(x) == -1:
                if s is None: return None
                q = j - (len(p) - len(s))
                out.append(s[q] if q >= 0 else ONE)
            else: out.append(x)
        return tuple(out)
    if o == "repeat":
        p = seqitems(getkw(t, "sizes")); s = shape(t.args[0])
        if p is None or s is None or len(p) < len(s): return None
        s = (ONE,) * (len(p) - len(s)) + s
        return tuple(x if y is ONE else y if x is ONE else mk("mul", x, y) for x, y in zip(p, s))
    if o in ("zeros", "ones", "empty", "rand", "randn", "full"):
        p = seqitems(getkw(t, "size")); return None if p is None else tuple(p)
    if o == "eye":
        n = getkw(t, "n"); m = getkw(t, "m")
        return None if n is None else (n, m if m is not None else n)
    if o in ("sum", "mean", "norm", "prod", "any", "all", "max", "min", "amax", "amin"):
        s = shape(t.args[0]); d = getkw(t, "dim"); kd = getkw(t, "keepdim")
        if d is None or d is NONE: return ()
        if o in ("max", "min"): return None
        if s is None or not is_const(d): return None
        try:
            i = cval(d) % len(s)
        except Exception: return None
        if kd is TRUE: return s[:i] + (ONE,) + s[i + 1:]
        return s[:i] + s[i + 1:]
    if o == "matmul":
        a, b = shape(t.args[0]), shape(t.args[1])
        if a is None or b is None: return None
        if len(a) >= 2 and len(b) >= 2:
            bb = bshape([a[:-2], b[:-2]])
            return bb + (a[-2], b[-1])
        if len(b) == 1 and len(a) >= 2: return a[:-1]
        return None
    if o == "cross": return shape(t.args[0])
    if o == "cat":
        xs = seqitems(t.args[0]); d = getkw(t, "dim") or (t.args[1] if len(t.args) > 1 and is_num(t.args[1]) else const(0))
        if not xs or not is_const(d): return None
        ss = [shape(x) for x in xs]
        if any(s is None for s in ss): return None
        n = len(ss[0])
        if any(len(s) != n for s in ss): return None
        i = cval(d) % n
        tot = ss[0][i]
        for s in ss[1:]:
            tot = const(cval(tot) + cval(s[i])) if is_num(tot) and is_num(s[i]) else mk("add", tot, s[i])
        return ss[0][:i] + (tot,) + ss[0][i + 1:]
    if o == "stack":
        d = getkw(t, "dim") or (t.args[1] if len(t.args) > 1 and is_num(t.args[1]) else const(0))
        xs = seqitems(t.args[0])
        if not is_const(d): return None
        if xs:
            s = shape(xs[0]); n = const(len(xs))
        elif t.args[0].op == "map":
            s = shape(t.args[0].args[2]); n = t.args[0].args[1]
        else: return None
        if s is None: return None
        i = cval(d); i = i + len(s) + 1 if i < 0 else i
        return s[:i] + (n,) + s[i:]
    if o == "einsum":
        eq = t.args[0]
        if not is_const(eq): return None
        e = cval(eq).replace(" ", "")
        if "->" not in e or "." in e: return None
        ins, out = e.split("->"); ins = ins.split(",")
        xs = list(t.args[1:])
        m = {}
        for letters, x in zip(ins, xs):
            s = shape(x)
            if s is None or len(s) != len(letters): continue
            for c, d in zip(letters, s):
                if m.get(c) is None or m[c] is ONE: m[c] = d
        return tuple(m[c] if c in m else mk("edim", t, c) for c in out)
    if o == "getitem": return _shape_getitem(t)
    if o == "slicekeep":
        s = shape(t.args[0])
        return None if s is None else (ONE,) + s[1:]
    if o == "ite":
        a, b = shape(t.args[1]), shape(t.args[2])
        if a == b: return a
        if a is not None and b is not None and len(a) == len(b):
            return tuple(x if x is y else mk("ite", t.args[0], x, y) for x, y in zip(a, b))
        return None
    if o == "index_select":
        s = shape(t.args[0]); d = getkw(t, "dim"); ix = getkw(t, "index")
        if s is None or d is None or not is_const(d): return None
        i = cval(d) % len(s)
        return s[:i] + (dimterm(ix, 0) if ix is not None else mk("dim", t, i),) + s[i + 1:]
    if o == "nzcol": return (mk("count", t.args[0]),)
    if o in ("knn.dists", "knn.idx"):
        s = shape(t.args[0]); k = getkw(t, "K")
        return s[:2] + (k if k is not None else ONE,) if s is not None and len(s) == 3 else None
    if o == "nonzero":
        n = ndim(t.args[0]); c = constval(t)
        return (const(len(c)) if isinstance(c, list) else mk("count", t.args[0]), const(n)) if n is not None else None
    if o in ("max.values", "max.indices", "min.values", "min.indices", "argmax", "argmin", "amax", "amin"):
        return _shape(mk("sum", t.args[0], *[a for a in t.args[1:]])) if getkw(t, "dim") is not None else None
    if o == "meshgrid":
        xs = pos(t)[1:]
        ds = []
        for x in xs:
            sx = shape(x)
            if sx is None or len(sx) != 1: return None
            ds.append(sx[0])
        ind = getkw(t, "indexing")
        if ind is not None and is_const(ind) and cval(ind) == "xy" and len(ds) >= 2: ds[0], ds[1] = ds[1], ds[0]
        return tuple(ds)
    if o == "linspace":
        n = getkw(t, "steps"); return (n,) if n is not None else None
    if o == "arange":
        return (getkw(t, "end"),) if getkw(t, "start") is None and getkw(t, "step") is None else (mk("len", t),)
    if o == "outer":
        a, b = shape(t.args[0]), shape(t.args[1]); return a + b if a is not None and b is not None else None
    if o == "tensor":
        xs = seqitems(t.args[0])
        if xs is None: return () if kind(t.args[0])[0] in ("int", "float") else None
        def lit(q):
            if all(x.op in ("list", "tuple") for x in q) and q:
                subs = [lit(list(x.args)) for x in q]
                if any(z is None or z != subs[0] for z in subs): return None
                return (const(len(q)),) + subs[0]
            if any(x.op in ("list", "tuple", "splat") or kind(x)[0] == "any" for x in q): return (const(len(q)),) if not any(x.op in ("list", "tuple", "splat") for x in q) else None
            return (const(len(q)),)
        return lit(list(xs))
    return None

def _shape_getitem(t):
    s = shape(t.args[0])
    if s is None: return None
    idx = t.args[1]
    it = list(idx.args) if idx.op == "tuple" else [idx]
    it = expand_ellipsis(it, len(s))
    if it is None: return None
    out = []; j = 0; adv = []; advpos = None
    for x in it:
        if x is NONE: out.append(ONE); continue
        if j >= len(s): return None
        if x.op == "slice":
            out.append(slen(*x.args, s[j])); j += 1; continue
        k = kind(x)
        if k[0] == "int" or (is_const(x) and isinstance(cval(x), int)):
            j += 1; continue
        if is_tensor_kind(k) or k[0] in ("any", "list"):
            if is_tensor_kind(k) and k[2] == "bool":
                nd = ndim(x)
                if nd is None: return None
                j += nd; adv.append(mk("count", x))
            else:
                sx = shape(x)
                if sx is None or len(sx) != 1:
                    if sx == (): j += 1; continue
                    return None
                adv.append(sx[0]); j += 1
            if advpos is None: advpos = len(out)
            continue
        return None
    if adv:
        out.insert(advpos, adv[0])
    out.extend(s[j:])
    return tuple(out)

def expand_ellipsis(items, nd):
    if not any(x is ELL for x in items): return items
    used = 0
    for x in items:
        if x is ELL or x is NONE: continue
        if x.op not in ("slice", "const") :
            k = kind(x)
            if is_tensor_kind(k) and k[2] == "bool":
                d = ndim(x)
                if d is None: return None
                used += d; continue
            if k[0] == "any" : return None
        used += 1
    i = items.index(ELL)
    fill = nd - used
    if fill < 0: return None
    return items[:i] + [mk("slice", NONE, NONE, NONE)] * fill + items[i + 1:]

# ---------------------------------------------------------------- traversal helpers
def subst(t, mp, memo=None):
    """capture-respecting substitution of leaf terms"""
    if memo is None: memo = {}
    return _subst(t, mp, memo)

BINDERS = {"map", "flatmap", "fold", "while", "exists", "first", "sumfold", "filter"}
def _subst(t, mp, memo):
    if t in mp: return mp[t]
    if not t.args: return t
    r = memo.get(t)
    if r is not None: return r
    m2, memo2 = mp, memo
    if t.op in BINDERS:
        lv = t.args[0]
        bound = [k for k in mp if k.op in ("ix", "mu") and k.args[0] == lv]
        if bound:
            m2 = {k: v for k, v in mp.items() if k not in bound}
            if not m2:
                memo[t] = t
                return t
            memo2 = {}
    ch = False; na = []
    for a in t.args:
        if isinstance(a, Term):
            b = _subst(a, m2, memo2)
            ch |= b is not a
            na.append(b)
        else: na.append(a)
    r = rebuild(t.op, tuple(na)) if ch else t
    memo[t] = r
    return r

def rebuild(op, args):
    if op == "getitem" : return getitem(*args)
    return mk(op, *args)

def getitem(x, i):
    """light simplifications that need no algebra"""
    if i.op == "tuple" and len(i.args) == 1: i = i.args[0]
    if x.op in ("tuple", "list") and is_const(i) and isinstance(cval(i), int) and not any(a.op == "splat" for a in x.args):
        try: return x.args[cval(i)]
        except IndexError: pass
    if x.op == "map" and i.op not in ("slice", "tuple", "ellipsis") and kind(i)[0] in ("int",):
        if is_const(i) and cval(i) < 0:
            i = mk("add", x.args[1], i) if not is_num(x.args[1]) else const(cval(x.args[1]) + cval(i))
        return subst(x.args[2], {mk("ix", x.args[0]): i})
    if x.op == "call" and x.args[0] == "split1" and kind(i)[0] == "int":
        return mk("slicekeep", x.args[1], i)
    if x.op == "slicekeep":
        it = list(i.args) if i.op == "tuple" else [i]
        if it and is_const(it[0]) and cval(it[0]) == 0 and not isinstance(cval(it[0]), bool):
            it = [x.args[1]] + it[1:]
            return getitem(x.args[0], mk("tuple", *it) if len(it) > 1 else it[0])
    if x.op == "dict" and is_const(i):
        for k, v in zip(x.args[::2], x.args[1::2]):
            if k is i: return v
    if x.op in ("add", "sub", "mul", "numpy", "floordiv", "clone", "cast", "getitem") and is_const(i) and isinstance(cval(i), int):
        from .files import ivec
        v = ivec(mk("getitem", x, i))
        if v is not None: return const(v)
    if x.op == "ite" and (is_const(i)):
        a, b = x.args[1], x.args[2]
        if a.op in ("tuple", "list") and b.op in ("tuple", "list"):
            return ite(x.args[0], getitem(a, i), getitem(b, i))
    return mk("getitem", x, i)

def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == "not": return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE and kind(c)[0] == "bool": return c
    if a is FALSE and b is TRUE and kind(c)[0] == "bool": return mk("not", c)
    return mk("ite", c, a, b)

def walk(t, seen=None):
    """every distinct subterm once"""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        yield x
        for a in x.args:
            if isinstance(a, Term) and a not in seen: st.append(a)

def syms(t):
    return {x.args[0] for x in walk(t) if x.op == "sym"}

def contains(t, pred):
    return any(pred(x) for x in walk(t))

def size(t):
    return sum(1 for _ in walk(t))
