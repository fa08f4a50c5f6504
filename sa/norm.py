"""Normal form of value graphs.

Rewrites that hold for every tensor: rational arithmetic, order of commutative operands, boolean structure (ordered
decision diagrams), composition of index / permutation views, spellings of the same operation, storage-only
operations (clone, contiguous, device moves, float width).  Two programs whose result graphs have the same normal
form compute the same value.
"""
import hashlib, math
from fractions import Fraction
from . import terms as T
from .terms import Term, mk, const, NONE, TRUE, FALSE, ELL, is_const, is_num, cval, kind

FULL = mk("slice", NONE, NONE, NONE)
NEWAX = mk("newaxis")
# operations that change storage, device or float width but not the value
ERASE = {"clone", "contiguous", "detach", "nograd", "requires_grad", "numpy", "as_tensor", "cpu", "cuda", "type_as", "deepcopy", "alias"}
COMM = {"maximum", "minimum"}
CONSTABLE = {"tensor", "as_tensor", "getitem", "max", "min", "sum", "prod", "any", "all", "unique", "item", "maximum", "minimum"}
UNARY_FLOAT = {"abs", "exp", "log", "sin", "cos", "tan", "acos", "asin", "atan", "floor", "ceil", "round", "sigmoid", "tanh", "sign", "rsqrt"}

_s2 = {}
def key2(t):
    """content key that does not depend on binder numbering"""
    s = _s2.get(t)
    if s is None:
        if t.op == "ix": s = "ix"
        elif t.op == "mu": s = "mu"
        else:
            parts = [t.op]
            for i, a in enumerate(t.args):
                if isinstance(a, Term): parts.append(key2(a))
                elif t.op in T.BINDERS and i == 0: continue
                else: parts.append(repr(a))
            s = hashlib.md5("|".join(parts).encode()).hexdigest()
        _s2[t] = s
    return s
def srt(xs): return sorted(xs, key=lambda x: (key2(x), T.skey(x)))

def NUM(v):
    if isinstance(v, Fraction) and v.denominator == 1: v = int(v)
    return mk("const", "int" if isinstance(v, int) else "num", v)
ZERO = NUM(0); ONE_ = NUM(1)

def num(v):
    if isinstance(v, bool): return Fraction(int(v))
    if isinstance(v, Fraction): return v
    if isinstance(v, int): return Fraction(v)
    if v != v or v in (float("inf"), float("-inf")): return None
    return Fraction(repr(v))

class Norm:
    def __init__(self, facts=None, nonneg=()):
        self.views = {}
        self.memo = {}
        self.facts = {}
        self.budget = 300000
        for k, v in (facts or {}).items():
            n = self(k)
            self.facts[n] = v
        if facts: self.memo = {}; self.views = {}

    def __call__(self, t):
        r = self.memo.get(t)
        if r is not None: return r
        self.budget -= 1
        if self.budget < 0: raise RecursionError("normalisation budget")
        # iterative deepening is not needed: terms are shallow
        r = self.norm(t)
        self.memo[t] = r
        return r

    def norm(self, t):
        o = t.op
        if o == "const":
            v = t.args[1]
            if isinstance(v, float) and v == v and abs(v) != float("inf"):
                f = Fraction(repr(v))
                return NUM(f) 
            if isinstance(v, int) and not isinstance(v, bool): return NUM(Fraction(v))
            if isinstance(v, Fraction): return NUM(v)
            return t
        if not t.args or not any(isinstance(a, Term) for a in t.args): 
            return t
        if o in CONSTABLE:
            v = T.constval(t)
            if v is not None and all(isinstance(y, int) for y in T._flat(v if isinstance(v, list) else [v])):
                if not isinstance(v, list): return self.lit(v, ())
                shp = T.shape(t)
                if shp is not None and T.is_tensor_kind(kind(t)) and all(is_num(self(d)) for d in shp): return self.lit(v, [int(cval(self(d))) for d in shp])
        m = getattr(self, "n_" + o.replace(".", "_"), None)
        args = tuple(self(a) if isinstance(a, Term) else a for a in t.args)
        if o in ERASE: return args[0]
        if o == "to": return self.n_to(t, args)
        if o in ("call",):
            return self.n_call(t, args)
        if o in self.POINTWISE:
            k, xs = self.unlead(args)
            if k:
                t2 = mk(o, *xs); kt = kind(t)
                if t2.kind_ is None: t2.kind_ = (kt[0], kt[1] - k if kt[1] is not None else None, kt[2]) if T.is_tensor_kind(kt) else kt
                if t2.shape_ is None and T.shape(t) is not None: t2.shape_ = tuple(T.shape(t))[k:]
                r = m(t2, xs) if m is not None else self.fin(t2, mk(o, *(srt(xs) if o in COMM else xs)))
                return self.leading(r, k)
        if m is not None: return m(t, args)
        if o in COMM: return self.fin(t, mk(o, *srt(args)))
        return self.fin(t, mk(o, *args))

    POINTWISE = {"add", "sub", "mul", "div", "neg", "pow", "sqrt", "rsqrt", "where", "lt", "le", "eq", "ne", "not", "and", "or", "bitand", "bitor", "clamp", "relu", "masked_fill", "maximum", "minimum", "cast", "truth"} | UNARY_FLOAT
    def unlead(self, args):
        """operands without the leading axes of size one that all of them have (or lack)"""
        ts = [x for x in args if isinstance(x, Term) and T.is_tensor_kind(kind(x))]
        if not ts or any(T.shape(x) is None for x in ts): return 0, args
        m = max(len(T.shape(x)) for x in ts)
        k = 0
        while k < m and all(len(T.shape(x)) < m - k or (is_num(self(T.shape(x)[k - m + len(T.shape(x))])) and cval(self(T.shape(x)[k - m + len(T.shape(x))])) == 1) for x in ts): k += 1
        if not k: return 0, args
        out = []
        for x in args:
            if x in ts:
                z = k - (m - len(T.shape(x)))
                if z > 0: x = self.index(x, x, [NUM(Fraction(0))] * z)
            out.append(x)
        return k, tuple(out)
    def fin(self, t, r):
        """carry inferred kind and shape over to the rebuilt node"""
        if r.op == "abs" and r.args[0].op == "poly" and r is not t: return self.n_abs(t, r.args)
        return self.fin0(t, r)
    def fin0(self, t, r):
        if r.kind_ is None and r.op not in ("const", "sym"): 
            k = kind(t)
            if k[0] != "any": r.kind_ = k
        if not r.shape_ and r.shape_ != ():
            s = T.shape(t)
            if s is not None: r.shape_ = tuple(self(d) for d in s)
        return r
    def shp(self, r):
        s = T.shape(r)
        return s
    def nd(self, r): return T.ndim(r)

    # ------------------------------------------------------------ casts
    def n_to(self, t, a):
        dt = None
        for x in a[1:]:
            if x.op == "kw" and x.args[0] == "dtype": dt = x.args[1]
        return a[0]
    def n_cast(self, t, a):
        d = t.args[1].args[0]
        k = kind(a[0])
        if d in ("float32", "float64", "float16", "bfloat16"): 
            return a[0]
        if d in ("int64", "int32", "int16", "int8"):
            if T.is_tensor_kind(k) and k[2] in ("int", "bool") or a[0].op == "trunc": return a[0]
            return self.fin(t, mk("trunc", a[0]))
        if d == "bool":
            if k[0] == "bool" or (T.is_tensor_kind(k) and k[2] == "bool"): return a[0]
            return self.fin(t, self.tnot(self.eq0(a[0])))
        return self.fin(t, mk("cast", a[0], d))
    def n_astype(self, t, a): return self.fin(t, mk("astype", *a))
    def n_as_tensor(self, t, a): return a[0]
    def n_tensor(self, t, a):
        x = a[0]
        if T.is_tensor_kind(kind(x)): return x
        if is_num(x): return x
        if kind(x)[0] in ("float", "int"): return x
        return self.fin(t, mk("tensor", x))
    def drop(self, args, names=("dtype", "device", "requires_grad")):
        return tuple(x for x in args if not (isinstance(x, Term) and x.op == "kw" and x.args[0] in names))
    def n_zeros(self, t, a): return self.full(t, a, ZERO)
    def n_ones(self, t, a): return self.full(t, a, ONE_)
    def n_full(self, t, a):
        v = [x.args[1] for x in a if isinstance(x, Term) and x.op == "kw" and x.args[0] == "fill_value"]
        return self.full(t, a, v[0])
    def full(self, t, a, v):
        s = T.shape(t)
        if s is not None: size = mk("tuple", *[self(d) for d in s])
        else:
            size = [x.args[1] for x in a if isinstance(x, Term) and x.op == "kw" and x.args[0] == "size"]
            size = size[0] if size else self.n_attr(t, ("shape", a[0]))
            if size.op == "tuple" and t.shape_ in (None, False): t.shape_ = tuple(size.args)
        v = self(v)
        k = kind(t)
        if T.is_tensor_kind(k) and k[2] == "bool" and is_num(v): v = FALSE if cval(v) == 0 else TRUE
        return self.fin(t, mk("filled", v, size))
    def n_zeros_like(self, t, a): return self.full(t, a, ZERO)
    def n_ones_like(self, t, a): return self.full(t, a, ONE_)
    def n_full_like(self, t, a): return self.n_full(t, a)
    def n_empty(self, t, a): return self.fin(t, mk("empty", *self.drop(a)))
    def n_eye(self, t, a):
        a = self.drop(a)
        n, m = T.getkw(mk("x", *a), "n"), T.getkw(mk("x", *a), "m")
        if n is m: m = None
        return self.fin(t, mk("eye", n) if m is None else mk("eye", n, m))
    def count_up(self, t, n):
        """0, 1, .. n-1"""
        r = mk("arange", T.kw("end", n))
        if r.kind_ is None: r.kind_ = ("tensor", 1, "int")
        if r.shape_ is None: r.shape_ = (n,)
        return r
    def n_arange(self, t, a):
        x = mk("x", *self.drop(a)); end, start, step = T.getkw(x, "end"), T.getkw(x, "start"), T.getkw(x, "step")
        if end is not None and all(q.op == "kw" and q.args[0] in ("end", "start", "step") for q in x.args) and (step is None or is_num(step) and cval(step)):
            start = start if start is not None else ZERO; st = Fraction(num(cval(step))) if step is not None and num(cval(step)) is not None else Fraction(1)
            if st == 1 and start is ZERO and kind(end)[0] == "int": return self.fin(t, self.count_up(t, end))
            span = self.padd(self.topoly(end), self.topoly(start), -1)
            if not span or list(span) == [()] and (st == 1 or self.numericlike(end)):
                n = max(0, -((-span.get((), Fraction(0)) / st).__floor__())) if span else 0
                if n: return self.fin(t, self.frompoly(self.padd(self.topoly(start), self.pmul({(): st}, self.topoly(self.count_up(t, NUM(Fraction(n))))))))
        return self.fin(t, mk("arange", *x.args))
    def n_linspace(self, t, a):
        x = mk("x", *self.drop(a)); start, end, n = T.getkw(x, "start"), T.getkw(x, "end"), T.getkw(x, "steps")
        if start is not None and end is not None and n is not None and len(x.args) == 3 and (is_num(n) and cval(n) > 1 or kind(n)[0] == "int"):
            span = self.padd(self.topoly(end), self.topoly(start), -1); m = self.padd(self.topoly(n), {(): Fraction(1)}, -1)
            m = {k: v for k, v in m.items() if v}; span = {k: v for k, v in span.items() if v}
            step = {(): Fraction(1)} if span == m else self.pmul(span, {(): 1 / m[()]}) if list(m) == [()] and m[()] > 0 else None
            if step: return self.fin(t, self.frompoly(self.padd(self.topoly(start), self.pmul(step, self.topoly(self.count_up(t, n))))))
        return self.fin(t, mk("linspace", *x.args))
    def reading(self, x):
        """the entries of an array of known numbers, as a function of the position"""
        s = self.ishape(x)
        if s is None: return None
        if x.op == "arange" and len(s) == 1 and len(x.args) == 1: return lambda i: Fraction(i[0])
        if x.op == "filled" and is_num(x.args[0]):
            c = num(cval(x.args[0])); return None if c is None else lambda i: c
        if x.op == "tensor" and x.args[0].op in ("list", "tuple"):
            def at(i):
                v = x.args[0]
                for j in i: v = v.args[j]
                return Fraction(num(cval(v)))
            def plain(v, k):
                if k == len(s): return is_num(v) and num(cval(v)) is not None and not isinstance(cval(v), bool)
                return v.op in ("list", "tuple") and len(v.args) == s[k] and all(plain(z, k + 1) for z in v.args)
            return at if plain(x.args[0], 0) else None
        if x.op == "V":
            f = self.reading(x.args[0]); b = self.ishape(x.args[0])
            if f is None: return None
            base = []
            for e, d in zip(x.args[1].args, b):
                if is_num(e): base.append(int(cval(e)) % d)
                else:
                    r = (0, d) if e is FULL else self.rng(e, d)
                    if r is None: return None
                    base.append(r[0])
            out = x.args[2]
            def at(i):
                j = list(base)
                for k, q in zip(i, out):
                    if q != -1: j[q] += k
                return f(j)
            return at
        return None
    def knownsigns(self, d, test, t):
        """a comparison between arrays of known numbers, entry by entry"""
        atoms = {a for k in d for a, e in k}
        if not atoms or len(atoms) > 3 or any(e != int(e) or e < 0 for k in d for _, e in k): return None
        s = self.ishape(t)
        if not s or T.bshape([T.shape(a) for a in atoms]) is None: return None
        n = 1
        for q in s: n *= q
        if not 1 < n <= 256: return None
        if tuple(self.ishape_(T.bshape([T.shape(a) for a in atoms])) or ()) != tuple(s): return None
        fs = {}
        for a in atoms:
            f = self.reading(a)
            if f is None: return None
            fs[a] = (f, self.ishape(a))
        def value(i):
            v = Fraction(0)
            for k, c in d.items():
                for a, e in k:
                    f, z = fs[a]
                    c = c * f([0 if z[-1 - j] == 1 else i[-1 - j] for j in range(len(z))][::-1]) ** int(e)
                v += c
            return TRUE if test(v) else FALSE
        lk = mk("like5", *[NUM(Fraction(q)) for q in s]); lk.kind_ = ("tensor", len(s), "bool"); lk.shape_ = tuple(NUM(Fraction(q)) for q in s)
        return self.mkgrid(lk, lk, lambda i: value(i))
    def ishape_(self, s):
        return [int(cval(q)) for q in s] if s is not None and all(is_num(q) for q in s) else None
    def n_rand(self, t, a): return self.fin(t, mk("rand", *self.drop(a)))
    n_randn = n_randperm = None

    # ------------------------------------------------------------ arithmetic
    # a polynomial is a dict: tuple of (atom, exponent) sorted -> Fraction
    def topoly(self, t):
        if is_num(t):
            c = num(cval(t))
            if c is not None: return {(): c} if c else {}
        if t is TRUE: return {(): Fraction(1)}
        if t is FALSE: return {}
        if t.op == "poly":
            d = {}
            for m in t.args:
                d[tuple((f.args[0], f.args[1]) for f in m.args[1:])] = m.args[0]
            return d
        return {((t, Fraction(1)),): Fraction(1)}
    def frompoly(self, d, like=None):
        d = {k: v for k, v in d.items() if v}
        if len(d) > 1 and sum(any(a.op == "cat" for a, e in k) for k in d) > 1: d = self.gridsum(d)
        if not d: return NUM(Fraction(0))
        if len(d) == 1:
            (k, c), = d.items()
            if not k: return NUM(c)
            if c == 1 and len(k) == 1 and k[0][1] == 1: return k[0][0]
        ms = []
        for k, c in d.items():
            ms.append(mk("mono", c, *[mk("f", a, e) for a, e in k]))
        r = mk("poly", *srt(ms))
        if r.shape_ is None:
            atoms = [f.args[0] for m in ms for f in m.args[1:]]
            s = T.bshape([T.shape(a) for a in atoms])
            r.shape_ = s if s is not None else False
            if s is None: r.shape_ = None
            kk = [kind(a) for a in atoms]
            tk_ = [k for k in kk if T.is_tensor_kind(k)]
            if tk_: r.kind_ = (tk_[0][0], None, "float" if any(k[2] == "float" for k in tk_ if len(k) > 2) else None)
            elif all(k[0] in ("int", "bool") for k in kk): r.kind_ = ("int",)
            elif all(k[0] in ("int", "float", "bool") for k in kk): r.kind_ = ("float",)
            else: r.kind_ = T.ANY
        return r
    def padd(self, p, q, s=1):
        d = dict(p)
        for k, v in q.items(): d[k] = d.get(k, 0) + s * v
        return d
    def pmul(self, p, q):
        d = {}
        for k1, v1 in p.items():
            for k2, v2 in q.items():
                f = {}
                for a, e in k1 + k2:
                    f[a] = f.get(a, 0) + e
                    if f[a] > 1 and self.isbool(a): f[a] = Fraction(1)      # 0/1 valued
                k = tuple((a, f[a]) for a in srt([a for a in f if f[a] != 0]))
                d[k] = d.get(k, 0) + v1 * v2
        return d
    def ppow(self, x, e):
        p = self.topoly(x)
        if not p and e > 0: return {}
        if e == int(e) and 0 <= e <= 4:
            r = {(): Fraction(1)}
            for _ in range(int(e)): r = self.pmul(r, p)
            return r
        if len(p) == 1:
            (k, c), = p.items()
            if e == int(e): 
                try: return {tuple((a, x2 * e) for a, x2 in k): c ** int(e)}
                except ZeroDivisionError: pass
            elif c > 0 and not k:
                return {((NUM(c), e),): Fraction(1)} if math.isqrt(c.numerator) ** 2 != c.numerator or math.isqrt(c.denominator) ** 2 != c.denominator or e != Fraction(1, 2) else {(): Fraction(math.isqrt(c.numerator), math.isqrt(c.denominator))}
            elif c == 1: return {tuple((a, x2 * e) for a, x2 in k): Fraction(1)}
        # content: pull the rational content out of the base for integer exponents
        base = self.frompoly(p)
        if e == int(e) and p:
            lead = p[sorted(p, key=lambda k: [key2(a) for a, _ in k])[0]]
            if lead not in (0, 1):
                base = self.frompoly({k: v / lead for k, v in p.items()})
                return {((base, Fraction(e)),): Fraction(lead) ** int(e)}
        return {((base, Fraction(e)),): Fraction(1)}
    MAXTERMS = 60
    def boolnum(self, x):
        """a boolean tensor used as a number"""
        return x
    def arith(self, t, d): 
        r = self.frompoly(d)
        return r
    def numericlike(self, t):
        k = kind(t)[0]
        return k in ("int", "float", "bool", "tensor", "ndarray", "any")
    def strip_b(self, args):
        """drop broadcasts that the other operand performs anyway; constant fills become numbers"""
        out = list(args)
        for i, x in enumerate(out):
            if x.op in ("expand", "filled") or (x.op == "repeat1"):
                others = [y for j, y in enumerate(out) if j != i]
                new = x.args[0]
                s = T.shape(x)
                so = T.bshape([T.shape(y) for y in others]) if others else None
                if s is not None and so is not None and T.bshape([so, T.shape(new) if T.shape(new) is not None else ()]) == T.bshape([so, s]): out[i] = new
        if len(out) > 1:
            for i, x in enumerate(out):
                s = T.shape(x)
                if not s or not T.is_tensor_kind(kind(x)): continue
                os = [T.shape(y) for j, y in enumerate(out) if j != i]
                if any(z is None for z in os): continue
                m = max(len(z) for z in os); k = 0
                while len(s) - k > 0 and len(s) - k <= m and is_num(s[k]) and cval(s[k]) == 1: k += 1
                if k: out[i] = self.index(x, x, [NUM(Fraction(0))] * k)
        return out
    def n_add(self, t, a):
        if len(a) == 2 and all(T.is_tensor_kind(kind(x)) and kind(x)[2] == "bool" for x in a): return self.tor(list(a))
        if not all(self.numericlike(x) for x in a): return self.fin(t, mk("add", *a))
        a = self.strip_b(a)
        p, q = self.topoly(a[0]), self.topoly(a[1])
        return self.fin(t, self.frompoly(self.padd(p, q)))
    def n_sub(self, t, a):
        k = kind(a[0])
        a = self.strip_b(a)
        return self.fin(t, self.frompoly(self.padd(self.topoly(a[0]), self.topoly(a[1]), -1)))
    def n_neg(self, t, a): return self.fin(t, self.frompoly({k: -v for k, v in self.topoly(a[0]).items()}))
    def isbool(self, x):
        k = kind(x)
        return k[0] == "bool" or (T.is_tensor_kind(k) and k[2] == "bool")
    def n_mul(self, t, a):
        if not all(self.numericlike(x) for x in a): return self.fin(t, mk("mul", *a))
        if all(self.isbool(x) for x in a) and not any(is_const(x) for x in a): return self.fin(t, self.tand(list(a)))
        a = self.strip_b(a)
        p, q = self.topoly(a[0]), self.topoly(a[1])
        if len(p) * len(q) > self.MAXTERMS:
            return self.fin(t, self.frompoly(self.pmul({((self.frompoly(p), Fraction(1)),): Fraction(1)}, {((self.frompoly(q), Fraction(1)),): Fraction(1)})))
        d = self.pmul(p, q)
        if len(d) == 1:
            (m, c), = d.items()
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "filled" and c != 1 and is_num(m[0][0].args[0]):
                z = m[0][0]; r = mk("filled", NUM(num(cval(z.args[0])) * c), z.args[1])
                return self.setk2(r, z, T.shape(z)) if T.shape(z) is not None and T.is_tensor_kind(kind(z)) else self.fin(t, r)
        return self.fin(t, self.frompoly(d))
    def n_div(self, t, a):
        a = self.strip_b(a)
        p = self.topoly(a[0]); q = self.topoly(a[1])
        if not q: return self.fin(t, mk("div", *a))
        inv = self.ppow(a[1], Fraction(-1))
        return self.fin(t, self.frompoly(self.pmul(p, inv)))
    def n_pow(self, t, a):
        if is_num(a[1]):
            e = num(cval(a[1]))
            if e is not None: return self.fin(t, self.frompoly(self.ppow(a[0], e)))
        return self.fin(t, mk("pow", *a))
    def n_sqrt(self, t, a): return self.fin(t, self.frompoly(self.ppow(a[0], Fraction(1, 2))))
    def n_rsqrt(self, t, a): return self.fin(t, self.frompoly(self.ppow(a[0], Fraction(-1, 2))))
    def n_floordiv(self, t, a):
        if is_num(a[1]) and num(cval(a[1])) == 1 and kind(a[0])[0] == "int": return a[0]
        return self.fin(t, mk("floordiv", *a))
    def n_norm(self, t, a):
        rest = [x for x in a[1:]]
        p = T.getkw(mk("x", *a), "p")
        rest = [x for x in rest if not (x.op == "kw" and x.args[0] == "p" and (x.args[1] == const("fro") or (is_num(x.args[1]) and num(cval(x.args[1])) == 2)))]
        if any(x.op == "kw" and x.args[0] == "p" for x in rest): return self.fin(t, mk("norm", a[0], *rest))
        sq = self.sq(a[0])
        s = self.reduce(t, "sum", (sq,) + tuple(rest))
        return self.fin(t, self.frompoly(self.ppow(s, Fraction(1, 2))))
    def n_count(self, t, a):
        x = a[0]
        # rearranging the axes or adding some of length one counts the same entries
        while x.op == "V" and all(isinstance(e, Term) and e is FULL for e in x.args[1].args) and set(x.args[2]) - {-1} == set(range(len(x.args[1].args))): x = x.args[0]
        r = mk("count", x); r.kind_ = ("int",)
        return r
    def n_sum(self, t, a):
        x = a[0]
        if self.isbool(x) and T.is_tensor_kind(kind(x)) and all(y.op == "kw" and y.args[0] in ("dim", "dtype") and (y.args[0] == "dtype" or y.args[1] is NONE) for y in a[1:]):
            return self.n_count(t, (x,))
        # a sum of squares is the same node as the one inside a norm
        if x.op == "poly" and len(x.args) == 1 and x.args[0].args[0] == 1 and len(x.args[0].args) == 2 and x.args[0].args[1].args[1] == 2:
            b = x.args[0].args[1].args[0]
            return self.reduce(t, "sum", (self.sq(b),) + a[1:])
        return self.reduce(t, "sum", a)
    def sq(self, x):
        """square; the sign of a sum is normalised and the content pulled out"""
        c = Fraction(1)
        if x.op == "poly":
            p = self.topoly(x)
            if len(p) == 1:
                r = self.frompoly(self.ppow(x, Fraction(2)))
                (k, c), = p.items()
                if len(k) == 1 and k[0][1] == 1: x = k[0][0]
                else: return r
            else:
                lead = p[sorted(p, key=lambda k: [(key2(a), e) for a, e in k])[0]]
                c = lead; x = self.frompoly({k: v / lead for k, v in p.items()})
        if is_num(x): return NUM(cval(x) ** 2 * c * c)
        if x.op == "filled" and is_num(x.args[0]):
            r = mk("filled", NUM(Fraction(cval(x.args[0])) ** 2 * c * c), *x.args[1:]); r.kind_ = kind(x)
            if r.shape_ is None: r.shape_ = T.shape(x)
            return r
        q = mk("sq", x)
        if q.kind_ is None: q.kind_ = kind(x)
        if q.shape_ is None and T.shape(x) is not None: q.shape_ = T.shape(x)
        return q if c * c == 1 else self.frompoly({((q, Fraction(1)),): c * c})
    def squares(self, x):
        """the argument of a sum, a lone square as the node norms use"""
        if x.op == "poly" and len(x.args) == 1 and x.args[0].args[0] == 1 and len(x.args[0].args) == 2 and x.args[0].args[1].args[1] == 2:
            y = self.sq(x.args[0].args[1].args[0])
            if y.op == "sq": return y
        return x
    def n_mean(self, t, a): return self.reduce(t, "mean", a)
    def n_prod(self, t, a): return self.reduce(t, "prod", a)
    def n_any(self, t, a):
        if not self.isbool(a[0]) : a = (self.tnot(self.eq0(a[0])),) + a[1:]
        return self.fin(t, self.reduce(t, "any", a))
    def n_all(self, t, a):
        if not self.isbool(a[0]): a = (self.tnot(self.eq0(a[0])),) + a[1:]
        return self.tnot(self.fin(t, self.reduce(t, "any", (self.tnot(a[0]),) + a[1:])))
    def reduce(self, t, op, a):
        x = a[0]; kws = {y.args[0]: y.args[1] for y in a[1:] if isinstance(y, Term) and y.op == "kw"}
        kd = kws.pop("keepdim", FALSE)
        kws.pop("dtype", None)
        d = kws.get("dim")
        n = T.ndim(x)
        if d is not None and is_num(d) and n is not None:
            di = int(cval(d)) % n if n else 0
            kws["dim"] = NUM(Fraction(di - n))     # counted from the end
        if d is not None and d.op in ("tuple", "list") and n is not None and all(is_num(z) for z in d.args):
            kws["dim"] = mk("tuple", *sorted({NUM(Fraction(int(cval(z)) % n - n)) for z in d.args}, key=lambda z: cval(z)))
        nk = kws.get("dim")
        if nk is not None and nk.op == "tuple" and n is not None and len(nk.args) > 1 and set(kws) == {"dim"} and T.is_tensor_kind(kind(x)) and op in ("sum", "any", "prod", "max.values", "min.values"):
            # one axis after the other, from the last
            y = x; k0 = kind(t)
            for z in sorted(nk.args, key=lambda z: -cval(z)):
                lk = mk("like4", op, y, z); lk.kind_ = (k0[0] if T.is_tensor_kind(k0) else "tensor", T.ndim(y) - 1, (k0[2] if T.is_tensor_kind(k0) else kind(x)[2]))
                at = int(cval(z)) + n
                y = getattr(self, "n_" + op)(lk, (y, T.kw("dim", NUM(Fraction(at))))) if op in ("sum", "any") else self.reduce(lk, op, (y, T.kw("dim", NUM(Fraction(at)))))
                if T.ndim(y) != at + len([q for q in range(at + 1, n) if NUM(Fraction(q - n)) not in nk.args]): break
            else:
                if kd is not TRUE: return y
                ds = {int(cval(z)) + n for z in nk.args}
                return self.index(t, y, [NEWAX if q in ds else FULL for q in range(n)])
        if nk is not None and is_num(nk) and n is not None and cval(nk) != -1:
            i = int(cval(nk)) + n
            order = [j for j in range(n) if j != i] + [i]
            x = self.view(t, x, [FULL] * n, order)
            kws["dim"] = NUM(-1)
        if op == "sum" and x.op == "where" and ZERO in x.args[1:] and x.args[0].op != "bdd":
            # a choice between a value and nothing adds up like the value times the condition
            c, y = (x.args[0], x.args[1]) if x.args[2] is ZERO else (self.tnot(x.args[0]), x.args[2])
            if self.numericlike(y) and not is_num(y) and T.shape(y) is not None and T.shape(y) == T.shape(x): x = self.fin(x, self.frompoly(self.pmul(self.topoly(y), self.topoly(c))))
        if op == "sum" and x.op == "poly" and n and T.is_tensor_kind(kind(x)) and set(kws) <= {"dim"} and (nk is None or is_num(nk)):
            ls = list(range(n)); o = [] if nk is None else ls[:-1]
            r = self.sumprod(t, [ls], o, [x])
            if r is not None:
                if kd is TRUE:
                    if nk is None: return self.index(t, r, [NEWAX] * n)
                    ent = [FULL] * n; ent[int(cval(d)) % n] = NEWAX
                    return self.index(t, r, ent)
                return r
        if op == "mean" and n and set(kws) <= {"dim"} and (nk is None or is_num(nk) or nk.op == "tuple" and all(is_num(z) for z in nk.args)) and T.shape(x) is not None:
            cnt = {(): Fraction(1)}
            for z in (T.shape(x) if nk is None else T.shape(x)[-1:] if nk.op != "tuple" else [T.shape(x)[int(cval(z)) + n] for z in nk.args]): cnt = self.pmul(cnt, self.topoly(self(z)))
            if cnt:
                r = self.reduce(t, "sum", (a[0],) + a[1:])
                return self.fin(t, self.frompoly(self.pmul(self.topoly(r), self.ppow(self.frompoly(cnt), Fraction(-1)))))
        if op == "sum" and x.op == "filled" and is_num(x.args[0]) and T.shape(x) is not None and set(kws) <= {"dim"} and (nk is None or is_num(nk) and n) and kd is not TRUE:
            cnt = {(): Fraction(cval(x.args[0]))}
            for z in (T.shape(x) if nk is None else T.shape(x)[-1:]): cnt = self.pmul(cnt, self.topoly(self(z)))
            v = self.frompoly(cnt)
            rest = () if nk is None else tuple(T.shape(x)[:-1])
            if not rest: return v
            if is_num(v): return self.setk2(mk("filled", v, mk("tuple", *rest)), x, rest)
        if op == "sum": x = self.squares(x)
        r = mk(op, x, *[T.kw(k, v) for k, v in sorted(kws.items())])
        kt = kind(t)
        if T.is_tensor_kind(kt) and r.kind_ is None: r.kind_ = (kt[0], n - 1 if n is not None and nk is not None and is_num(nk) else None, kt[2])
        if nk is not None and is_num(nk) and n is not None:
            s = T.shape(x)
            if r.shape_ is None and s is not None: r.shape_ = tuple(s[:-1])
            if kd is TRUE:
                ent = [FULL] * n; ent[int(cval(nk)) + n] = NEWAX
                return self.index(t, r, ent)
            return r
        if kd is TRUE: r = mk(op, *r.args, T.kw("keepdim", TRUE))
        if nk is None and r.shape_ is None: r.shape_ = ()
        return self.fin(t, r)
    def n_getkeep(self, t, a): return None

    # ------------------------------------------------------------ comparisons
    def nonnegative(self, x):
        return x.op in ("dim", "len", "count", "ix", "numel", "ndim", "abs") or (x.op == "poly" and len(x.args) == 1 and x.args[0].args[0] > 0 and all(self.nonnegative(f.args[0]) for f in x.args[0].args[1:]))
    def isint(self, d):
        return all(kind(a)[0] in ("int", "bool") for k in d for a, e in k) and all(v.denominator == 1 for v in d.values()) and all(e == int(e) and e > 0 for k in d for a, e in k)
    def ge0(self, d, strict, t):
        """normal form of  d >= 0  /  d > 0"""
        if not d: return const(not strict)
        if list(d) == [()]:
            c = d[()]
            return const(c > 0 if strict else c >= 0)
        if self.isint(d):
            if strict: d = self.padd(d, {(): Fraction(1)}, -1); strict = False
            if not d: return const(True)
            from math import gcd
            g = 0
            for k, v in d.items():
                if k: g = gcd(g, int(v))
            if g > 1:
                d = {k: (v / g if k else Fraction(v.numerator // g)) for k, v in d.items()}
            rest = {k: v for k, v in d.items() if k}
            c = d.get((), 0)
            # n >= 0 for a count
            if c >= 0 and all(v > 0 and all(self.nonnegative(a) for a, _ in k) for k, v in rest.items()): return TRUE
            if c < 0 and all(v < 0 and all(self.nonnegative(a) for a, _ in k) for k, v in rest.items()): return FALSE
        if T.is_tensor_kind(kind(t)):
            r = self.knownsigns(d, (lambda v: v > 0) if strict else (lambda v: v >= 0), t)
            if r is not None: return r
        ks = sorted([k for k in d if k], key=lambda k: [(key2(a), e) for a, e in k])
        lead = d[ks[0]]
        if lead < 0:
            # canonical polarity: keep the atom positive, negate the test
            nd_ = {k: -v for k, v in d.items()}
            return self.tnot(self.ge0(nd_, not strict, t))
        d = {k: v / lead for k, v in d.items()} if not self.isint(d) else d
        r = mk("pos" if strict else "nonneg", self.frompoly(d))
        k = kind(t)
        if r.kind_ is None: r.kind_ = k if k[0] != "any" else ("bool",)
        if r.shape_ is None and T.is_tensor_kind(r.kind_) and T.shape(t) is not None: r.shape_ = tuple(self(x) for x in T.shape(t))
        return r
    def cmpargs(self, a): return self.strip_b(a)
    def n_lt(self, t, a):
        a = self.cmpargs(a)
        if any(kind(x)[0] == "str" for x in a): return self.fin(t, mk("lt", *a))
        if any(x.op == "const" and num_ok(x) is None for x in a): return self.fin(t, mk("lt", *a))
        return self.ge0(self.padd(self.topoly(a[1]), self.topoly(a[0]), -1), True, t)
    def n_le(self, t, a):
        a = self.cmpargs(a)
        if any(x.op == "const" and num_ok(x) is None for x in a): return self.fin(t, mk("le", *a))
        return self.ge0(self.padd(self.topoly(a[1]), self.topoly(a[0]), -1), False, t)
    def eq0(self, x):
        return self.n_eq(mk("eq", x, ZERO), (x, NUM(Fraction(0))))
    def n_eq(self, t, a):
        a = self.cmpargs(a)
        x, y = a
        if x is y and not T.is_tensor_kind(kind(x)): return TRUE
        kx, ky = kind(x)[0], kind(y)[0]
        for u, v in ((x, y), (y, x)):
            if self.isbool(u) and is_const(v) and (isinstance(cval(v), bool) or is_num(v) and cval(v) in (0, 1)): return u if cval(v) else self.tnot(u)
        if self.isbool(x) and self.isbool(y) and (T.is_tensor_kind(kind(x)) or T.is_tensor_kind(kind(y))): return self.tor([self.tand([x, y]), self.tand([self.tnot(x), self.tnot(y)])])
        if x is y:
            r = mk("isnan", x); k = kind(t)
            if r.kind_ is None: r.kind_ = (k[0], T.ndim(x), "bool"); r.shape_ = T.shape(x)
            return self.tnot(r)
        if all(self.numericlike(z) and not (is_const(z) and not is_num(z)) and z.op not in ("str", "tuple", "list", "dtype", "ext", "cls", "func", "dict") for z in a) and (kx != "any" or ky != "any" ) and "bool" not in (kx, ky):
            d = self.padd(self.topoly(x), self.topoly(y), -1)
            if not d and not T.is_tensor_kind(kind(t)): return TRUE
            if list(d) == [()]: return const(d[()] == 0)
            if self.isint(d):
                # n == 0 for a count
                for s in (1, -1):
                    e = {k: s * v for k, v in d.items()}
                    c = e.get((), 0); rest = {k: v for k, v in e.items() if k}
                    if all(v > 0 and all(self.nonnegative(q) for q, _ in k) for k, v in rest.items()):
                        if c > 0: return FALSE
                        if c == 0 and len(rest) == 1: return self.tnot(self.ge0(e, True, t))
            if d:
                ks = sorted([k for k in d if k], key=lambda k: [(key2(q), e) for q, e in k])
                lead = d[ks[0]]
                d = {k: v / lead for k, v in d.items()}
            return self.fin(t, mk("zero", self.frompoly(d)))
        return self.fin(t, mk("eq", *srt([x, y])))
    def n_ne(self, t, a): return self.tnot(self.n_eq(mk("eq", *t.args), a))
    def n_is(self, t, a):
        if a[0] is a[1]: return TRUE
        return mk("is", *srt(a)) if a[1] is not NONE else self.fin(t, mk("is", *a))
    def n_truth(self, t, a):
        if self.isbool(a[0]): return a[0]
        return self.fin(t, mk("truth", a[0]))
    def n_item(self, t, a):
        if self.isbool(a[0]): return a[0]
        if kind(a[0])[0] in ("int", "float", "bool"): return a[0]
        x = a[0]
        if x.op in ("max", "min") and len(x.args) == 1 and x.args[0].op == "tensor" and T.ndim(x.args[0]) == 1:
            # the largest number of a list, by way of an array
            l = x.args[0].args[0]
            if l.op in ("list", "tuple") and l.args and not any(y.op == "splat" for y in l.args): return getattr(self, "n_py" + x.op)(t, l.args)
            if l.op == "map": return self.fin(t, mk("py" + x.op + "of", l))
        if x.op in ("max", "min") and len(x.args) == 1 and T.ndim(x.args[0]) == 1:
            es = self.entries1(x.args[0])
            if es: return getattr(self, "n_py" + x.op)(t, es)
        return self.fin(t, mk("item", a[0]))
    def entries1(self, x):
        """the numbers in a vector written out entry by entry"""
        if x.op == "tensor" and x.args and x.args[0].op in ("list", "tuple") and not any(y.op == "splat" for y in x.args[0].args): return list(x.args[0].args)
        if x.op != "poly": return None
        n = None; vs = {}
        for m in x.args:
            for f in m.args[1:]:
                y = f.args[0]
                if T.ndim(y) == 0 or kind(y)[0] in ("int", "float"): continue
                e = self.entries1(y) if y.op == "tensor" else None
                if not e or n not in (None, len(e)) or f.args[1] != 1: return None
                n = len(e); vs[y] = e
        if n is None: return None
        out = []
        for k in range(n):
            acc = {}
            for m in x.args:
                p = {(): m.args[0]}
                for f in m.args[1:]:
                    y = f.args[0]
                    p = self.pmul(p, self.topoly(vs[y][k])) if y in vs else self.pmul(p, {((y, f.args[1]),): Fraction(1)})
                acc = self.padd(acc, p)
            out.append(self.frompoly(acc))
        return out
    def n_pymax(self, t, a): return self.pick1(t, "pymax", max, a)
    def n_pymin(self, t, a): return self.pick1(t, "pymin", min, a)
    def pick1(self, t, op, f, a):
        ns = [y for y in a if is_num(y)]; r = [y for y in a if not is_num(y)]
        if ns: r.append(NUM(f(Fraction(num(cval(y))) if num(cval(y)) is not None else cval(y) for y in ns)))
        r = srt(list(dict.fromkeys(r)))
        return r[0] if len(r) == 1 else self.fin(t, mk(op, *r))

    # ------------------------------------------------------------ booleans: ordered decision diagrams
    def bdd(self, x):
        """decision diagram over atoms; nodes are ite terms with boolean leaves"""
        return x
    def isnode(self, x): return x.op == "bdd"
    def top(self, x): return x.args[0] if x.op == "bdd" else (x if x not in (TRUE, FALSE) else None)
    def cof(self, x, v, b):
        if x.op == "bdd":
            if x.args[0] is v: return x.args[1] if b else x.args[2]
            return x
        if x is v: return const(b)
        return x
    def node(self, v, hi, lo):
        if hi is lo: return hi
        if hi is TRUE and lo is FALSE: return v
        r = mk("bdd", v, hi, lo)
        if r.kind_ is None:
            ks = [kind(x) for x in (v, hi, lo)]
            tk_ = [k for k in ks if T.is_tensor_kind(k)]
            r.kind_ = (tk_[0][0], None, "bool") if tk_ else ("bool",)
            ss = [T.shape(x) for x in (v, hi, lo) if x not in (TRUE, FALSE)]
            if r.shape_ is None and all(s is not None for s in ss): r.shape_ = T.bshape(ss)
        return r
    def apply(self, f, xs, memo=None):
        if memo is None: memo = {}
        k = tuple(xs)
        if k in memo: return memo[k]
        self.budget -= 1
        if self.budget < 0: raise RecursionError("normalisation budget")
        r = f(xs)
        if r is None:
            tops = [self.top(x) for x in xs]
            v = min([x for x in tops if x is not None], key=lambda x: (key2(x), T.skey(x)))
            hi = self.apply(f, [self.cof(x, v, True) for x in xs], memo)
            lo = self.apply(f, [self.cof(x, v, False) for x in xs], memo)
            r = self.node(v, hi, lo)
        memo[k] = r
        return r
    def tnot(self, x):
        if x.op == "filled" and x.args[0] in (TRUE, FALSE): return self.fin(x, mk("filled", TRUE if x.args[0] is FALSE else FALSE, x.args[1]))
        def f(xs):
            if xs[0] is TRUE: return FALSE
            if xs[0] is FALSE: return TRUE
        return self.apply(f, [x])
    def tand(self, xs):
        def f(ys):
            if FALSE in ys: return FALSE
            ys = [y for y in ys if y is not TRUE]
            if not ys: return TRUE
            if len(set(ys)) == 1: return ys[0]
        r = xs[0]
        for y in xs[1:]:
            if r.op == "filled" or y.op == "filled": r, y = self.strip_b([r, y])
            r = self.apply(f, [r, y])
        return r
    def tor(self, xs): return self.tnot(self.tand([self.tnot(x) for x in xs]))
    def boolop(self, t, a): 
        return all(self.isbool(x) or kind(x)[0] == "bool" for x in a)
    def n_not(self, t, a):
        return self.tnot(a[0])
    def n_and(self, t, a): return self.tand(list(a))
    def n_or(self, t, a): return self.tor(list(a))
    def n_bitand(self, t, a):
        if not all(self.isbool(x) for x in a) and any(kind(x)[0] == "int" or (T.is_tensor_kind(kind(x)) and kind(x)[2] == "int") for x in a): return self.fin(t, mk("bitand", *srt(a)))
        return self.tand(list(a))
    def n_bitor(self, t, a):
        if not all(self.isbool(x) for x in a) and any(kind(x)[0] == "int" or (T.is_tensor_kind(kind(x)) and kind(x)[2] == "int") for x in a): return self.fin(t, mk("bitor", *srt(a)))
        return self.tor(list(a))
    def n_isinstance(self, t, a): return self.fin(t, mk("isinstance", *a))
    def n_in(self, t, a):
        if a[1].op in ("list", "tuple") and not any(x.op == "splat" for x in a[1].args):
            return self.tor([self.n_eq(mk("eq", a[0], x), (a[0], x)) for x in a[1].args]) if a[1].args else FALSE
        return self.fin(t, mk("in", *a))
    def n_exists(self, t, a):
        if a[2] is FALSE: return FALSE
        return self.fin(t, mk("exists", *a))

    # ------------------------------------------------------------ choices
    def n_ite(self, t, a):
        return self.ite(a[0], a[1], a[2], t)
    def ite(self, c, a, b, t=None):
        f = self.facts.get(c)
        if f is not None: return a if f else b
        if c is TRUE: return a
        if c is FALSE: return b
        if a is b: return a
        if self.isbool(a) and self.isbool(b) or (a in (TRUE, FALSE) and b in (TRUE, FALSE)):
            return self.tor([self.tand([c, a]), self.tand([self.tnot(c), b])])
        # distribute over the decision diagram of the condition
        if c.op == "bdd":
            v, hi, lo = c.args
            return self.ite2(v, self.ite(hi, a, b, t), self.ite(lo, a, b, t), t)
        return self.ite2(c, a, b, t)
    def restrict(self, x, v, b, memo=None):
        """x under the assumption that atom v has value b"""
        if memo is None: memo = {}
        if x is v: return const(b)
        if not x.args: return x
        r = memo.get(x)
        if r is not None: return r
        if x.op == "ite" and x.args[0] is v:
            r = self.restrict(x.args[1] if b else x.args[2], v, b, memo)
        elif x.op == "bdd" and x.args[0] is v:
            r = x.args[1] if b else x.args[2]
        else:
            na = tuple(self.restrict(y, v, b, memo) if isinstance(y, Term) and v in self.support(y) else y for y in x.args)
            r = x if na == x.args else self.rebuild(x, na)
        memo[x] = r
        return r
    def replace(self, x, y, z, memo=None):
        """x with z in place of y"""
        if memo is None: memo = {}
        if x is y: return z
        if not x.args: return x
        r = memo.get(x)
        if r is None:
            na = tuple(self.replace(q, y, z, memo) if isinstance(q, Term) else q for q in x.args)
            r = memo[x] = x if na == x.args else self.rebuild(x, na)
        return r
    _sup = {}
    def support(self, x):
        """condition atoms occurring in ite/bdd nodes"""
        r = Norm._sup.get(x)
        if r is None:
            r = frozenset()
            if x.op in ("ite", "bdd"): r |= frozenset([x.args[0]])
            for y in x.args:
                if isinstance(y, Term): r |= self.support(y)
            Norm._sup[x] = r
        return r
    def rebuild(self, x, na):
        if x.op == "bdd": return self.tor([self.tand([na[0], na[1]]), self.tand([self.tnot(na[0]), na[2]])])
        if x.op == "ite": return self.ite(na[0], na[1], na[2], x)
        if x.op == "poly":
            d = {}
            for m in na:
                p = {(): m.args[0]}
                for f in m.args[1:]: p = self.pmul(p, self.ppow(f.args[0], f.args[1]))
                d = self.padd(d, p)
            return self.frompoly(d)
        try:
            if x.op == "V": return self.view(x, na[0], list(na[1].args), list(na[2]))
            if x.op == "where": return self.n_where(x, tuple(na))
            if x.op in ("pos", "nonneg"): return self.ge0(self.topoly(na[0]), x.op == "pos", x)
            if x.op == "zero": return self.n_eq(x, (na[0], NUM(Fraction(0))))
            if x.op == "sq": return self.sq(na[0])
            if x.op in ("maximum", "minimum") and len(na) == 2: na = tuple(srt(na))
            if x.op == "getitem": return self.n_getitem(x, tuple(na))
            if x.op == "unsqueeze": return self.n_unsqueeze(x, tuple(na))
            if x.op in ("sum", "mean", "count") and T.is_tensor_kind(kind(na[0])): return getattr(self, "n_" + x.op)(x, tuple(na))
            if x.op in ("cat", "stack") and len(na) == 2: return getattr(self, "n_" + x.op)(x, (na[0], mk("kw", "dim", na[1])))
            if x.op == "dim":
                y = mk("dim", na[0], na[1]); s = T.shape(na[0])
                if s is not None and -len(s) <= na[1] < len(s): return self(s[na[1]]) if s[na[1]] is not y else y
            if x.op == "sumprod":
                ei, eo = cval(na[0]).split("->")
                r = self.sumprod(x, [list(q) for q in ei.split(",")], list(eo), list(na[1:]))
                if r is not None: return r
        except (ValueError, KeyError): pass
        r = mk(x.op, *na)
        if r.kind_ is None: r.kind_ = kind(x)
        return r
    def cases(self, a, b, depth=6):
        """equality of two normal forms by a case split on the conditions of their choices"""
        if a is b: return True
        if depth == 0: return False
        v = None
        for x in (a, b):
            c = [y for y in self.support(x) if not T.is_tensor_kind(kind(y))]
            ites = {y.args[0] for y in T.walk(x) if y.op == "ite"}
            c = [y for y in c if y in ites]
            if c:
                v = sorted(c, key=lambda y: (len(self.support(y)), key2(y)))[0]; break
        if v is None:
            if not T.is_tensor_kind(kind(a)) and not T.is_tensor_kind(kind(b)) and not any(x.op in self.ELEM for x in (a, b)): return False
            cs = self.pointconds(a) | self.pointconds(b)
            if not cs or len(cs) > 4: return False
            v = sorted(cs, key=lambda y: (len(self.support(y)), key2(y), T.skey(y)))[0]
            return all(self.cases(canon(self.pointsub(a, v, q, {})), canon(self.pointsub(b, v, q, {})), depth - 1) for q in (TRUE, FALSE))
        return all(self.cases(canon(self.restrict(a, v, q)), canon(self.restrict(b, v, q)), depth - 1) for q in (True, False))
    def pointconds(self, x):
        """conditions of the choices made entry by entry"""
        out = set(); seen = set(); todo = [x]
        while todo and len(seen) < 400:
            y = todo.pop()
            if y in seen or not isinstance(y, Term): continue
            seen.add(y)
            if y.op not in self.ELEM: continue
            if y.op == "poly": todo += [f.args[0] for m in y.args for f in m.args[1:]]
            else: todo += [z for z in y.args if isinstance(z, Term)]
            if y.op == "where":
                c = y.args[0]
                out |= self.support(c) if c.op == "bdd" else {c}
        return out
    def pointsub(self, x, c, v, memo):
        """x with the condition c decided, wherever it is used entry by entry"""
        if x is c: return v
        if not isinstance(x, Term) or is_const(x) or x.op not in self.ELEM: return x
        r = memo.get(x)
        if r is None:
            if x.op == "poly":
                d = {}
                for m in x.args:
                    p = {(): m.args[0]}
                    for f in m.args[1:]: p = self.pmul(p, self.ppow(self.pointsub(f.args[0], c, v, memo), f.args[1]))
                    d = self.padd(d, p)
                r = self.frompoly(d)
            else:
                na = [self.pointsub(y, c, v, memo) for y in x.args]
                r = x if all(p is q for p, q in zip(na, x.args)) else self.rebuild(x, na)
            memo[x] = r
        return r
    def ite2(self, v, a, b, t):
        f = self.facts.get(v)
        if f is not None: return a if f else b
        if v in self.support(a): a = self.restrict(a, v, True)
        if v in self.support(b): b = self.restrict(b, v, False)
        if a is b: return a
        # the larger or smaller of two numbers, written as a choice
        if v.op in ("pos", "nonneg") and kind(a)[0] in ("int", "float") and kind(b)[0] in ("int", "float") and not a.op == "ite" and not b.op == "ite":
            e = self.topoly(v.args[0]); d = self.padd(self.topoly(a), self.topoly(b), -1)
            whole = kind(a)[0] == kind(b)[0] == "int"
            for sg, op in ((1, "pymax"), (-1, "pymin")):
                r = {k: x for k, x in self.padd(e, d, -sg).items() if x}
                if not r or whole and r == {(): -1 if v.op == "nonneg" else 1}: return self.pick1(mk(op, a, b), op, max if sg > 0 else min, (a, b))
        # keep the atoms ordered
        for x in (a, b):
            if x.op == "ite" and (key2(x.args[0]), T.skey(x.args[0])) < (key2(v), T.skey(v)):
                w = x.args[0]
                return self.ite2(w, self.ite2(v, self.restrict(a, w, True), self.restrict(b, w, True), t), self.ite2(v, self.restrict(a, w, False), self.restrict(b, w, False), t), t)
        # sink through equal constructors
        if a.op == b.op and len(a.args) == len(b.args) and a.op in ("tuple", "list", "obj", "kw", "cast", "trunc", "V", "unsq", "matmul", "sum", "mean", "cat", "stack", "where", "map", "getitem", "reshape", "call", "dict", "permute", "slice") and a.args:
            ok = all((x is y) or (isinstance(x, Term) and isinstance(y, Term)) or x == y for x, y in zip(a.args, b.args))
            if ok and a.op in ("map",): ok = a.args[1] is b.args[1]
            if ok and a.op == "call": ok = a.args[0] == b.args[0]
            if ok and a.op == "kw": ok = a.args[0] == b.args[0]
            if ok and a.op not in ("tuple", "list", "obj", "kw", "dict", "map"): ok = sum(1 for x, y in zip(a.args, b.args) if x is not y) == 1
            if ok and a.op == "map" and any(z.op == "ix" and z.args[0] == a.args[0] for z in T.walk(v)): ok = False
            if ok:
                na = [x if x is y or not isinstance(x, Term) else self.ite2(v, x, y, None) for x, y in zip(a.args, b.args)]
                return self.fin(a, mk(a.op, *na))
        if a.op == "poly" or b.op == "poly":
            if self.numericlike(a) and self.numericlike(b):
                p, q = self.topoly(a), self.topoly(b)
                common = {k: c for k, c in p.items() if q.get(k) == c}
                if common:
                    pa = self.frompoly({k: c for k, c in p.items() if k not in common}); qb = self.frompoly({k: c for k, c in q.items() if k not in common})
                    return self.frompoly(self.padd(common, self.topoly(self.ite2(v, pa, qb, None))))
        r = mk("ite", v, a, b)
        if r.kind_ is None:
            ka, kb = kind(a), kind(b)
            r.kind_ = ka if ka == kb else T.ANY if ka[0] != kb[0] else (ka[0], ka[1] if ka[1] == kb[1] else None, ka[2] if ka[2] == kb[2] else None) if T.is_tensor_kind(ka) else ka
            if T.is_tensor_kind(r.kind_) and r.shape_ is None:
                sa, sb = T.shape(a), T.shape(b)
                if sa is not None and sb is not None and len(sa) == len(sb): r.shape_ = tuple(x if x is y else self.ite2(v, x, y, None) for x, y in zip(sa, sb))
        return r
    def n_where(self, t, a):
        c, x, y = a
        if x is y: return x
        x2, y2 = self.strip_b([c, x, y])[1:]
        neg = False
        n = self.tnot(c)
        if x2 is TRUE: return self.tor([c, y2])
        if x2 is FALSE: return self.tand([n, y2])
        if y2 is TRUE: return self.tor([n, x2])
        if y2 is FALSE: return self.tand([c, x2])
        if c is TRUE: return x
        if c is FALSE: return y
        if (key2(n), T.skey(n)) < (key2(c), T.skey(c)): c, x2, y2 = n, y2, x2
        r = self.larger(t, c, x2, y2)
        if r is not None: return r
        r = self.fin(t, mk("where", c, x2, y2))
        if x2.op == "where" or y2.op == "where" or any(z.op == "where" for z in self.support(c)) or any(q.op == "where" for z in self.support(c) for q in T.walk(z)):
            r2 = self.table(t, r)
            if r2 is not None: return r2
        return r
    def larger(self, t, c, x, y):
        """a choice of the larger or smaller of its two alternatives"""
        if not (self.numericlike(x) and self.numericlike(y)): return None
        neg = False; z = c
        if z.op == "bdd" and z.args[1] is FALSE and z.args[2] is TRUE: neg = True; z = z.args[0]
        if z.op not in ("pos", "nonneg"): return None
        p, q = self.topoly(x), self.topoly(y); d = self.padd(p, q, -1); e = self.topoly(z.args[0])
        if not d or set(d) != set(e): return None
        ks = {e[k] / d[k] for k in d}
        if len(ks) != 1: return None
        up = (ks.pop() > 0) != neg
        if x.op == "filled": x = x.args[0] if T.shape(x) is not None and T.shape(y) is not None and len(T.shape(x)) <= len(T.shape(y)) else x
        if y.op == "filled": y = y.args[0] if T.shape(x) is not None and T.shape(y) is not None and len(T.shape(y)) <= len(T.shape(x)) else y
        if d == {k: 2 * v for k, v in p.items()}:          # y is -x
            r = self.n_abs(t, (x,))
            return r if up else self.fin(t, self.frompoly({k: -v for k, v in self.topoly(r).items()}))
        return self.extreme(t, "maximum" if up else "minimum", [x, y])
    def extreme(self, t, op, a):
        """maximum and minimum; a constant array that does not widen the result is its constant"""
        a = list(a); s = T.shape(t)
        for i in (0, 1):
            o = a[1 - i]
            if a[i].op == "filled" and s is not None and T.shape(o) is not None and len(T.shape(o)) == len(s) and all(self(u) is self(v) for u, v in zip(T.shape(o), s)) and is_const(a[i].args[0]): a[i] = a[i].args[0]
        if a[0] is a[1]: return a[0]
        return self.fin(t, mk(op, *srt(a)))
    def n_maximum(self, t, a): return self.extreme(t, "maximum", a) if len(a) == 2 else self.fin(t, mk("maximum", *a))
    def n_minimum(self, t, a): return self.extreme(t, "minimum", a) if len(a) == 2 else self.fin(t, mk("minimum", *a))
    def n_abs(self, t, a):
        x = a[0]
        if self.numericlike(x) and x.op == "poly":
            d = self.topoly(x)
            n = self.frompoly({k: -v for k, v in d.items()})
            if len(d) == 1:
                (m, c), = d.items()
                if m and c != 1: 
                    y = self.frompoly({m: Fraction(1)}); r = mk("abs", y); k = kind(x)
                    if T.is_tensor_kind(k): r.kind_ = k if r.kind_ is None else r.kind_; r.shape_ = T.shape(x) if r.shape_ is None else r.shape_
                    elif r.kind_ is None: r.kind_ = k
                    return self.fin0(t, self.frompoly(self.pmul({(): abs(c)}, self.topoly(r))))
            elif (key2(n), T.skey(n)) < (key2(x), T.skey(x)): x = n
        return self.fin0(t, mk("abs", x))
    def table(self, t, r):
        """nested choices that only compare one array with constants, as a table from its values to the results"""
        keys = set(); xs = []; seen = set()
        def poly1(p):
            q = self.topoly(p); c = q.get((), Fraction(0))
            m = [(k, v) for k, v in q.items() if k != ()]
            if len(m) != 1 or len(m[0][0]) != 1 or m[0][0][0][1] != 1: return None
            return m[0][0][0][0], Fraction(m[0][1]), Fraction(c)
        def scan(y):
            if y in seen: return True
            seen.add(y)
            if len(seen) > 4000: return False
            if y.op in ("where", "bdd"): return all(scan(z) for z in y.args if isinstance(z, Term))
            if y.op == "zero":
                p = poly1(y.args[0])
                if p is None: return False
                keys.add(-p[2] / p[1])
                if p[0].op == "where": return scan(p[0])
                if p[0] not in xs: xs.append(p[0])
                return len(xs) == 1
            return True
        if not scan(r) or len(xs) != 1 or len(keys) > 200: return None
        X = xs[0]; lk = [y for y in seen if y.op == "zero"][0]
        for y in seen:
            if y.op not in ("where", "bdd", "zero") and y is not X and y is not TRUE and y is not FALSE and not is_const(y) and any(z is X or z.op in ("where",) for z in T.walk(y)): return None
        def ev(y, k, memo):
            if y in memo: return memo[y]
            if y is X: v = X if k is None else NUM(k)
            elif y.op == "where" or y.op == "bdd":
                c = ev(y.args[0], k, memo)
                if c is TRUE: v = ev(y.args[1], k, memo)
                elif c is FALSE: v = ev(y.args[2], k, memo)
                else: raise ValueError
            elif y.op == "zero":
                a, m, c = poly1(y.args[0]); v = ev(a, k, memo)
                if v is X: v = FALSE            # none of the listed values
                elif is_num(v): v = TRUE if Fraction(cval(v)) * m + c == 0 else FALSE
                else: raise ValueError
            else: v = y
            memo[y] = v
            return v
        try:
            rest = ev(r, None, {})
            pts = [(k, ev(r, k, {})) for k in sorted(keys)]
        except (ValueError, RecursionError): return None
        pts = [(k, v) for k, v in pts if v is not (NUM(k) if rest is X else rest)]
        if len(pts) < 2: return None
        out = rest
        for k, v in reversed(pts):
            c = self.n_eq(lk, (X, NUM(k)))
            out = self.fin(t, mk("where", c, v, out))
        return out
    def n_masked_fill(self, t, a):
        m = [x for x in a[1:]]
        pos = [x for x in m if x.op != "kw"]; kws = {x.args[0]: x.args[1] for x in m if x.op == "kw"}
        mask = kws.get("mask", pos[0] if pos else None); val = kws.get("value", pos[1] if len(pos) > 1 else None)
        if mask is None or val is None: return self.fin(t, mk("masked_fill", *a))
        return self.n_where(t, (mask, val, a[0]))
    def n_clamp(self, t, a):
        x = a[0]; lo = T.getkw(mk("x", *a), "min", NONE); hi = T.getkw(mk("x", *a), "max", NONE)
        r = x
        if lo is not NONE: r = self.extreme(t, "maximum", [r, lo])
        if hi is not NONE: r = self.extreme(t, "minimum", [r, hi])
        return r
    def n_relu(self, t, a): return self.extreme(t, "maximum", [a[0], NUM(Fraction(0))])
    def n_bitxor(self, t, a):
        if all(self.isbool(x) for x in a): return self.tnot(self.tor([self.tand(list(a)), self.tand([self.tnot(x) for x in a])]))
        return self.fin(t, mk("bitxor", *srt(a)))

    # ------------------------------------------------------------ views
    # V(x, sel_0 .. sel_{n-1}, order): every input axis full / slice / integer, then the output axes
    def view(self, t, x, sel, out):
        """the view of x, computed once"""
        key = (x, tuple(sel), tuple(out))
        r = self.views.get(key)
        if r is None: r = self.views[key] = self.view_(t, x, sel, out)
        return r
    def view_(self, t, x, sel, out):
        n = len(sel)
        if all(s is FULL for s in sel) and list(out) == list(range(n)): return x
        if not n and is_const(x) and is_num(x): return self.setk(mk("filled", x, mk("tuple", *[NUM(Fraction(1))] * len(out))), t, [1] * len(out))
        if x.op == "nonzero" and n == 2 and sel[0] is FULL and is_num(sel[1]) and tuple(out) == (0,) and T.ndim(x.args[0]) and 0 <= int(cval(sel[1])) < T.ndim(x.args[0]) and len(x.args) == 1:
            r = mk("nzcol", x.args[0], sel[1]); r.kind_ = ("tensor", 1, "int")
            return r
        # an axis of length one is an index and a new axis
        sh = T.shape(x)
        if sh is not None and len(sh) == n:
            sel = list(sel); out = list(out); unit = set()
            for k, e in enumerate(sel):
                if not (e is FULL or e.op == "slice"):
                    if is_num(sh[k]) and cval(sh[k]) == 1: unit.add(k)
                    continue
                d = sh[k]
                if not is_num(d): continue
                r = self.rng(e, int(cval(d)))
                if r is None: continue
                if r[1] - r[0] == 1:
                    if cval(d) == 1: unit.add(k)
                    sel[k] = NUM(Fraction(r[0])); out = [-1 if q == k else q for q in out]
            if len(out) == n and all(q == k and sel[k] is FULL or q == -1 and k in unit for k, q in enumerate(out)): return x
        if x.op == "V":
            m = len(x.args[1].args); isel = list(x.args[1].args); iout = list(x.args[2])
            ok = True; nsel = list(isel); nout = []
            # outer axis k corresponds to iout[k]
            m2 = {}
            for k, s in enumerate(sel):
                src = iout[k]
                if src == -1:
                    if s is FULL: m2[k] = -1
                    elif is_num(s): m2[k] = None       # new axis removed again
                    elif s.op == "slice": m2[k] = -1
                    continue
                c = self.compose(isel[src], s)
                if c is None: ok = False; break
                nsel[src] = c; m2[k] = src if not self.isidx(c) else None
            if ok:
                for k in out: nout.append(-1 if k == -1 else m2[k])
                if None not in nout:
                    return self.view(t, x.args[0], nsel, nout)
        lead = 0
        while lead < len(out) and out[lead] == -1: lead += 1
        if x.op in self.ELEM and lead:
            # leading unit axes stay outside of elementwise operations
            y = self.view(t, x, sel, out[lead:])
            return self.leading(y, lead, len(out) - lead)
        if x.op == "ite" and all(T.ndim(y) == n for y in x.args[1:]):
            try: return self.ite(x.args[0], self.view(t, x.args[1], sel, out), self.view(t, x.args[2], sel, out), None)
            except ValueError: pass
        if x.op == "store":
            r = self.instore(t, x, sel, out)
            if r is not None: return r
        r = self.push(t, x, sel, out)
        if r is not None:
            if T.is_tensor_kind(kind(r)) and T.ndim(r) is not None and T.ndim(r) < len(out) and x.op in self.ELEM: r = self.leading(r, len(out) - T.ndim(r))
            return r
        r = self.pieces(t, x, sel, out)
        if r is not None: return r
        r = mk("V", x, mk("sel", *sel), tuple(out))
        if r.kind_ is None: 
            k = kind(x); r.kind_ = (k[0], len(out), k[2]) if T.is_tensor_kind(k) else T.ANY
        if r.shape_ is None:
            s = T.shape(x)
            if s is not None and len(s) == n:
                r.shape_ = tuple(NUM(Fraction(1)) if k == -1 else (s[k] if sel[k] is FULL else self(T.slen(sel[k].args[0], sel[k].args[1], sel[k].args[2], s[k]))) for k in out)
        return r
    def instore(self, t, x, sel, out):
        """a view of an array with one region overwritten: the old array or the stored value, when the view lies on one side"""
        base, i, v = x.args
        n = len(sel)
        its = list(i.args) if i.op == "tuple" else [i]
        if ELL in its: its = T.expand_ellipsis(its, n)
        if its is None or len(its) > n or T.ndim(base) != n: return None
        its = list(its) + [FULL] * (n - len(its))
        sh = T.shape(base)
        if sh is None or len(sh) != n: return None
        def pt(e, d):
            j = int(cval(e))
            if j < 0 and is_num(d): j += int(cval(d))
            return j
        def isint(e): return is_num(e) and not isinstance(cval(e), bool)
        rsel = []; raxes = []; hit = True
        for k in range(n):
            e, r = sel[k], its[k]; d = self(sh[k])
            if not (isint(r) or r.op == "slice"): return None
            if isint(r):
                j = pt(r, d)
                if isint(e):
                    q = pt(e, d)
                    if q != j:
                        if (q < 0) == (j < 0): return self.view(t, base, sel, out)
                        hit = False
                    continue
                if e.op == "slice" and e is not FULL and is_num(d):
                    w = self.rng(e, int(cval(d)))
                    if w is not None and j >= 0 and not w[0] <= j < w[1]: return self.view(t, base, sel, out)
                hit = False; continue
            raxes.append(k)
            if r is FULL: rsel.append(e); continue
            if not is_num(d) and not (is_num(r.args[0]) or r.args[0] is NONE) : hit = False; rsel.append(None); continue
            big = int(cval(d)) if is_num(d) else None
            if big is None:
                if any(z is not NONE and (not is_num(z) or cval(z) < 0) for z in r.args[:2]) or r.args[2] is not NONE: hit = False; rsel.append(None); continue
                lo = 0 if r.args[0] is NONE else int(cval(r.args[0])); hi = None if r.args[1] is NONE else int(cval(r.args[1]))
            else:
                w = self.rng(r, big)
                if w is None: hit = False; rsel.append(None); continue
                lo, hi = w
            if isint(e):
                q = pt(e, d)
                if q < 0: hit = False; rsel.append(None); continue
                if q < lo or hi is not None and q >= hi: return self.view(t, base, sel, out)
                rsel.append(NUM(Fraction(q - lo))); continue
            if e.op == "slice" and big is not None:
                w = self.rng(e, big)
                if w is not None:
                    if w[1] <= lo or w[0] >= hi: return self.view(t, base, sel, out)
                    if w[0] >= lo and w[1] <= hi: rsel.append(self.sl(w[0] - lo, w[1] - lo, hi - lo)); continue
            hit = False; rsel.append(None)
        if not hit: return None
        if any(k != -1 and k not in raxes for k in out): return None
        kv = kind(v)
        rout = [-1 if k == -1 else raxes.index(k) for k in out]
        if is_const(v) or kv[0] in ("int", "float", "bool") or T.is_tensor_kind(kv) and T.shape(v) == ():
            if not out: return v
            shp = tuple(NUM(Fraction(1)) if k == -1 else self(sh[k]) if sel[k] is FULL else self(T.slen(*sel[k].args, sh[k])) for k in out)
            return self.mkexpand(v, shp)
        sv = T.shape(v)
        if sv is None or len(sv) > len(raxes): return None
        reg = []
        for k in raxes:
            d = self(sh[k]); r = its[k]
            reg.append(d if r is FULL else self(T.slen(*r.args, d)))
        try:
            r = self.bview(t, v, tuple(self(d) for d in sv), tuple(reg), rsel, rout)
        except ValueError: return None
        if T.ndim(r) == len(out): return r
        if T.is_tensor_kind(kind(r)) and T.ndim(r) is not None and T.ndim(r) < len(out):
            shp = tuple(NUM(Fraction(1)) if k == -1 else self(sh[k]) if sel[k] is FULL else self(T.slen(*sel[k].args, sh[k])) for k in out)
            return self.mkexpand(r, shp)
        return None
    def leading(self, y, k, n0=None):
        n = T.ndim(y)
        if n is None: n = n0
        if y.op == "V":
            return self.view(y, y.args[0], list(y.args[1].args), [-1] * k + list(y.args[2])) if y.args[0].op not in self.ELEM else self.leadV(y.args[0], k + len(y.args[2]) - T.ndim(y.args[0]))
        if n is None or y.op not in self.ELEM: return self.index(y, y, [NEWAX] * k) if T.is_tensor_kind(kind(y)) else y
        return self.leadV(y, k, n)
    def leadV(self, y, k, n=None):
        if n is None: n = T.ndim(y)
        r = mk("V", y, mk("sel", *([FULL] * n)), tuple([-1] * k + list(range(n))))
        ky = kind(y)
        if r.kind_ is None and T.is_tensor_kind(ky): r.kind_ = (ky[0], n + k, ky[2])
        if r.shape_ is None and T.shape(y) is not None: r.shape_ = (NUM(Fraction(1)),) * k + tuple(T.shape(y))
        return r
    ELEM = {"poly", "pos", "nonneg", "zero", "bdd", "where", "maximum", "minimum", "trunc", "sq"} | UNARY_FLOAT
    def push(self, t, x, sel, out):
        """views commute with elementwise operations, reductions over the last axis and batched products"""
        n = len(sel)
        if x.op in self.ELEM:
            s = T.shape(x)
            if s is None: return None
            def sub(y):
                sy = T.shape(y)
                if sy is None: raise ValueError
                if sy == (): return y
                return self.bview(t, y, sy, s, sel, out)
            try:
                if x.op == "poly":
                    d = {}
                    for m in x.args:
                        p = {(): m.args[0]}
                        for f in m.args[1:]: p = self.pmul(p, self.ppow(sub(f.args[0]), f.args[1]))
                        d = self.padd(d, p)
                    return self.frompoly(d)
                na = [sub(y) if isinstance(y, Term) and not is_const(y) else y for y in x.args]
            except ValueError: return None
            if x.op == "bdd": return self.tor([self.tand([na[0], na[1]]), self.tand([self.tnot(na[0]), na[2]])])
            if x.op == "sq": return self.sq(na[0])
            if x.op in ("pos", "nonneg", "zero"):
                lk = mk("like", *na); b = T.bshape([T.shape(na[0])]) if T.is_tensor_kind(kind(na[0])) else ()
                lk.kind_ = kind(x); lk.shape_ = b
                if x.op == "zero": return self.n_eq(lk, (na[0], NUM(Fraction(0))))
                return self.ge0(self.topoly(na[0]), x.op == "pos", lk)
            if x.op in ("where", "maximum", "minimum"):
                lk = mk(x.op, *na)
                if lk.kind_ is None:
                    k = kind(x); lk.kind_ = (k[0], len(out), k[2]) if T.is_tensor_kind(k) else k
                if lk.shape_ is None:
                    ss = [T.shape(y) if not is_const(y) else () for y in na]
                    if all(z is not None for z in ss): lk.shape_ = T.bshape(ss)
                if x.op == "where": return self.n_where(lk, tuple(na))
                return self.fin(lk, mk(x.op, *srt(na)))
            r = mk(x.op, *na)
            if r.kind_ is None:
                k = kind(x); r.kind_ = (k[0], len(out), k[2]) if T.is_tensor_kind(k) else k
            if r.shape_ is None:
                ss = [T.shape(y) for y in na if isinstance(y, Term) and not is_const(y)]
                b = T.bshape(ss)
                if b is not None: r.shape_ = b
            return self.fin(x, r) if x.op == "abs" and r.shape_ is not None else r
        if x.op in ("sum", "mean", "any", "prod") and T.getkw(x, "dim") is not None and is_num(T.getkw(x, "dim")) and cval(T.getkw(x, "dim")) == -1 and T.getkw(x, "keepdim") is None:
            y = x.args[0]
            if T.ndim(y) != n + 1: return None
            y2 = self.view(t, y, list(sel) + [FULL], list(out) + [n])
            r = mk(x.op, self.squares(y2) if x.op == "sum" else y2, *x.args[1:])
            if r.kind_ is None:
                k = kind(x); r.kind_ = (k[0], len(out), k[2]) if T.is_tensor_kind(k) else k
            if r.shape_ is None and T.shape(y2) is not None: r.shape_ = T.shape(y2)[:-1]
            return r
        if x.op == "getitem" and any(e is not FULL for e in sel):
            ix = list(x.args[1].args) if x.args[1].op == "tuple" else [x.args[1]]; ks = [kind(e) for e in ix]
            if not all(T.is_tensor_kind(k) and k[2] in ("bool", "int") and T.ndim(e) for k, e in zip(ks, ix)): return None
            if any(k[2] == "bool" for k in ks) and len(ix) > 1: return None
            m = T.ndim(ix[0]) if ks[0][2] == "bool" else len(ix)
            outn = 1 if ks[0][2] == "bool" else max(T.ndim(e) for e in ix)
            z = x.args[0]; nz = T.ndim(z)
            if nz is None or n != nz - m + outn or all(e is FULL for e in sel[outn:]): return None
            rs = sel[outn:]; keep = [k for k, e in enumerate(rs) if e is FULL or e.op == "slice"]
            r = self.gather(self.view(t, z, [FULL] * m + list(rs), list(range(m)) + [m + k for k in keep]), ix)
            if T.ndim(r) != outn + len(keep): return None
            pos = {outn + k: outn + j for j, k in enumerate(keep)}
            return self.view(t, r, list(sel[:outn]) + [FULL] * len(keep), [-1 if k == -1 else k if k < outn else pos[k] for k in out])
        if x.op == "inverse" and n >= 2 and sel[-1] is FULL and sel[-2] is FULL and tuple(out[-2:]) == (n - 2, n - 1) and len(x.args) == 1 and T.shape(x.args[0]) is not None:
            y = self.view(t, x.args[0], list(sel), list(out)); r = mk("inverse", y); k = kind(x)
            if r.kind_ is None: r.kind_ = (k[0], len(out), k[2])
            if r.shape_ is None and T.shape(y) is not None: r.shape_ = T.shape(y)
            return self(r) if r.op == "inverse" and hasattr(self, "n_inverse") else r
        if x.op == "expand" and T.shape(x) is not None and T.shape(x.args[0]) is not None:
            one = lambda z: is_num(z) and cval(z) == 1
            y = x.args[0]; sx = [self(d) for d in T.shape(x)]; sy = [self(d) for d in T.shape(y)]; off = n - len(sy)
            rep = [k < off or (one(sy[k - off]) and not one(sx[k])) for k in range(n)]
            nout = []; shp = []
            for k in out:
                if k == -1: nout.append(-1); shp.append(ONE_); continue
                if sel[k] is FULL: d = sx[k]
                elif is_num(sx[k]) and self.rng(sel[k], int(cval(sx[k]))) is not None:
                    r = self.rng(sel[k], int(cval(sx[k]))); d = NUM(Fraction(r[1] - r[0]))
                else: d = self(T.slen(sel[k].args[0], sel[k].args[1], sel[k].args[2], sx[k]))
                shp.append(d); nout.append(-1 if rep[k] else k - off)
            while nout and nout[0] == -1: nout.pop(0)
            return self.mkexpand(self.view(t, y, [ZERO if rep[k] else sel[k] for k in range(off, n)], nout), tuple(shp))
        if x.op == "sumprod" and any(e is not FULL for e in sel):
            ei, eo = cval(x.args[0]).split("->"); ei = ei.split(",")
            m = dict(zip(eo, sel)); ys = []; ls = []
            for q, y in zip(ei, x.args[1:]):
                es = [m.get(c, FULL) for c in q]
                keep = [k for k, e in enumerate(es) if e is FULL or e.op == "slice"]
                ys.append(self.view(t, y, es, keep) if any(e is not FULL for e in es) else y); ls.append([q[k] for k in keep])
            o2 = [("n", i) if k == -1 else eo[k] for i, k in enumerate(out)]
            r = self.sumprod(t, ls, [c for c in o2 if not isinstance(c, tuple)], ys)
            if r is None: return None
            if any(k == -1 for k in out): r = self.index(t, r, [NEWAX if k == -1 else FULL for k in out])
            return r
        if x.op == "matmul" and n >= 3 and all(T.shape(y) is not None and len(T.shape(y)) >= 2 for y in x.args) and T.shape(x) is not None:
            # the batch part of the view moves to the operands
            bo = [k for k in out if k == -1 or k < n - 2]
            rest = [k for k in out if k != -1 and k >= n - 2]
            tail_new = [i for i, k in enumerate(out) if k == -1 and any(q != -1 and q >= n - 2 for q in out[:i])]
            if tail_new or out != bo + rest and tuple(out) != tuple(bo + rest): return None
            if all(z is FULL for z in sel[:-2]) and bo == list(range(n - 2)): return None
            ys = []
            bs = T.shape(x)[:-2]
            for y in x.args:
                sy = T.shape(y)
                try: ys.append(self.bview(t, y, sy, bs + (None, None), list(sel[:-2]) + [FULL, FULL], bo + [n - 2, n - 1]))
                except ValueError: return None
            r = self.n_matmul(mk("matmul", *ys[:2]) if len(ys) == 2 else t, tuple(ys))
            if r.shape_ is None and all(T.shape(y) is not None for y in ys): 
                bb = T.bshape([T.shape(y)[:-2] for y in ys])
                if bb is not None: r.shape_ = bb + (T.shape(ys[0])[-2], T.shape(ys[-1])[-1])
            m = len(bo)
            return self.view(t, r, [FULL] * m + list(sel[-2:]), list(range(m)) + [k - (n - 2) + m for k in rest])
        return None
    # ---- arrays assembled from pieces: stack, cat, filled, constants, with known sizes
    def ishape(self, x):
        s = T.shape(x)
        if s is None: return None
        s = [self(d) for d in s]
        return [int(cval(d)) for d in s] if all(is_num(d) for d in s) else None
    def setk(self, r, like, shp):
        k = kind(like)
        if r.kind_ is None: r.kind_ = (k[0] if T.is_tensor_kind(k) else "tensor", len(shp), k[2] if T.is_tensor_kind(k) else None)
        if r.shape_ is None: r.shape_ = tuple(NUM(Fraction(d)) for d in shp)
        return r
    def setk2(self, r, like, shp):
        k = kind(like)
        if r.kind_ is None: r.kind_ = ("tensor", len(shp), k[2])
        if r.shape_ is None: r.shape_ = tuple(shp)
        return r
    def n_meshgrid(self, t, a):
        """the coordinate vector of one axis, repeated along the others"""
        xs = [y for y in a[1:] if not (isinstance(y, Term) and y.op == "kw")]; i = int(cval(a[0])); sh = T.shape(t)
        if sh is None or any(T.ndim(y) != 1 for y in xs): return self.fin(t, mk("meshgrid", *a))
        ind = T.getkw(mk("x", *a[1:]), "indexing")
        ax = i
        if ind is not None and T.is_const(ind) and cval(ind) == "xy" and len(xs) >= 2 and i < 2: ax = 1 - i
        y = self.index(t, xs[i], [FULL] + [NEWAX] * (len(xs) - 1 - ax))
        return self.mkexpand(y, tuple(self(d) for d in sh))
    def lit(self, v, shp):
        """literal nested list as a term"""
        if not isinstance(v, list): return TRUE if v is True else FALSE if v is False else NUM(Fraction(v))
        fl = T._flat(v)
        if fl and all(x == fl[0] and type(x) == type(fl[0]) for x in fl): 
            r = mk("filled", self.lit(fl[0], ()), mk("tuple", *[NUM(Fraction(d)) for d in shp]))
        else: r = mk("tensor", self.litl(v))
        k = "bool" if fl and isinstance(fl[0], bool) else "int"
        if r.kind_ is None: r.kind_ = ("tensor", len(shp), k)
        if r.shape_ is None: r.shape_ = tuple(NUM(Fraction(d)) for d in shp)
        return r
    def litl(self, v): return mk("list", *[self.litl(x) for x in v]) if isinstance(v, list) else self.lit(v, ())
    def rng(self, e, d):
        """(lo, hi) of a constant unit slice of an axis of known length; None if not constant"""
        lo, hi, st = e.args
        if st is not NONE and not (is_num(st) and cval(st) == 1): return None
        if any(z is not NONE and not is_num(z) for z in (lo, hi)): return None
        l, h, _ = slice(None if lo is NONE else int(cval(lo)), None if hi is NONE else int(cval(hi))).indices(d)
        return l, max(l, h)
    def sl(self, l, h, d): return FULL if (l, h) == (0, d) else mk("slice", NONE if l == 0 else NUM(Fraction(l)), NONE if h == d else NUM(Fraction(h)), NONE)
    def take(self, t, x, sel):
        """selection without reordering"""
        return self.view(t, x, list(sel), [k for k, e in enumerate(sel) if e is FULL or e.op == "slice"])
    def pieces(self, t, x, sel, out):
        if x.op == "tensor" and all(k == -1 for k in out) and all(is_num(e) for e in sel):
            v = x.args[0]
            try:
                for e in sel: v = v.args[int(cval(e))] if v.op in ("list", "tuple") else None
                if not self.numericlike(v) or T.ndim(v) not in (0, None) and kind(v)[0] not in ("int", "float", "bool"): return None
                return v if not out else self.leadV(v, len(out), 0)
            except (TypeError, IndexError, AttributeError): return None
        if x.op not in ("stack", "cat", "filled"): return None
        s = self.ishape(x)
        if s is None and x.op == "cat": return self.partpieces(t, x, sel, out)
        if s is None and x.op == "stack": return self.partstack(t, x, sel, out)
        if s is None and x.op == "filled": return self.partfilled(x, sel, out)
        if s is None or len(s) != len(sel): return None
        sel = list(sel)
        out = list(out)
        for k, e in enumerate(sel):
            if e is FULL: continue
            if e.op == "slice":
                r = self.rng(e, s[k])
                if r is None:
                    if x.op == "filled":
                        if not is_num(T.slen(*e.args, NUM(Fraction(s[k])))): return None
                    elif not is_num(x.args[1]): return None
                    elif int(cval(x.args[1])) % len(s) == k:
                        if x.op != "cat" or all(z is FULL for j, z in enumerate(sel) if j != k) or not is_num(T.slen(*e.args, NUM(Fraction(s[k])))): return None
                        # a stepped selection along the joined axis stays outside, the rest moves to the pieces
                        sel2 = list(sel); sel2[k] = FULL; keep2 = [j for j, z in enumerate(sel2) if z.op == "slice"]
                        y = self.pieces(t, x, sel2, keep2)
                        if y is None or T.ndim(y) != len(keep2): return None
                        o3 = [-1 if j == -1 else keep2.index(j) for j in out]
                        r2 = mk("V", y, mk("sel", *[e if j == k else FULL for j in keep2]), tuple(o3))
                        ys = T.shape(y)
                        if ys is None: return None
                        self.setk2(r2, x, [NUM(Fraction(1)) if j == -1 else T.slen(*e.args, NUM(Fraction(s[k]))) if keep2[j] == k else ys[j] for j in o3])
                        return r2
                    continue
                sel[k] = self.sl(*r, s[k])
            elif is_num(e):
                j = int(cval(e)); j = j + s[k] if j < 0 else j
                if not 0 <= j < s[k]: return None
                sel[k] = NUM(Fraction(j))
            else: return None
        kept = [k for k, e in enumerate(sel) if e is FULL or e.op == "slice"]
        def finish(r):
            """put the axes of r, which are kept, in the order asked for"""
            n = len(kept)
            order = [-1 if k == -1 else kept.index(k) for k in out]
            if order == list(range(n)): return r
            r2 = mk("V", r, mk("sel", *([FULL] * n)), tuple(order))
            rs = self.ishape(r)
            if rs is not None: self.setk(r2, r, [1 if k == -1 else rs[k] for k in order])
            return r2
        if x.op == "filled":
            shp = [s[k] if sel[k] is FULL else int(cval(T.slen(*sel[k].args, NUM(Fraction(s[k]))))) for k in kept]
            shp = [1 if k == -1 else shp[kept.index(k)] for k in out]
            if not shp and is_const(x.args[0]): return x.args[0]
            return self.setk(mk("filled", x.args[0], mk("tuple", *[NUM(Fraction(d)) for d in shp])), x, shp)
        if x.args[0].op not in ("list", "tuple") or not is_num(x.args[1]) or any(y.op == "splat" for y in x.args[0].args): return None
        ax = int(cval(x.args[1])) % len(s); items = x.args[0].args
        pos_ = out.index(ax) if ax in out else None
        if x.op == "stack":
            sub = sel[:ax] + sel[ax + 1:]
            e = sel[ax]
            if len(items) != s[ax] or any(self.ishape(y) is None for y in items): return None
            o2 = [k if k < ax else k - 1 for k in out if k != ax]
            if is_num(e): return self.view(t, items[int(cval(e))], sub, o2)
            l, h = self.rng(e, s[ax])
            return self.mkstack(t, [self.view(t, y, sub, o2) for y in items[l:h]], pos_, x)
        sizes = [self.ishape(y) for y in items]
        if any(z is None for z in sizes): return None
        pos = 0; got = []
        e = sel[ax]
        for y, z in zip(items, sizes):
            d = z[ax]
            if is_num(e):
                j = int(cval(e)) - pos
                if 0 <= j < d: return self.view(t, y, sel[:ax] + [NUM(Fraction(j))] + sel[ax + 1:], out)
            else:
                l, h = self.rng(e, s[ax])
                l2, h2 = max(l - pos, 0), min(h - pos, d)
                if h2 > l2: got.append(self.view(t, y, sel[:ax] + [self.sl(l2, h2, d)] + sel[ax + 1:], out))
            pos += d
        if is_num(e) or not got: return None
        return self.mkcat(t, got, pos_, x)
    def partstack(self, t, x, sel, out):
        """a part of a stack of arrays of symbolic size"""
        if x.args[0].op != "list" or not is_num(x.args[1]) or any(y.op == "splat" for y in x.args[0].args): return None
        n = len(sel); ax = int(cval(x.args[1])) % n; items = list(x.args[0].args); e = sel[ax]
        if any(T.ndim(y) != n - 1 for y in items): return None
        sub = list(sel[:ax]) + list(sel[ax + 1:]); o2 = [k if k < ax else k - 1 for k in out if k != ax]
        if is_num(e):
            j = int(cval(e)); j = j + len(items) if j < 0 else j
            return self.view(t, items[j], sub, o2) if 0 <= j < len(items) else None
        if e.op != "slice" or ax not in out: return None
        r = self.rng(e, len(items))
        if r is None or r[1] <= r[0]: return None
        ys = [self.view(t, y, sub, o2) for y in items[r[0]:r[1]]]; q = list(out).index(ax)
        g = mk("stack", mk("list", *ys), NUM(Fraction(q - len(out))))
        kk = kind(x)
        if g.kind_ is None: g.kind_ = (kk[0], len(out), kk[2])
        if g.shape_ is None and T.shape(ys[0]) is not None:
            sh = list(T.shape(ys[0])); sh.insert(q, NUM(Fraction(len(ys)))); g.shape_ = tuple(sh)
        return g
    def partfilled(self, x, sel, out):
        """a part of a constant array of symbolic size is a smaller constant array"""
        dims = T.shape(x)
        if dims is None or len(dims) != len(sel): return None
        dims = [self(d) for d in dims]
        for k, e in enumerate(sel):
            if e is FULL or is_num(e): continue
            if e.op != "slice" or not is_num(dims[k]): return None
            r = self.rng(e, int(cval(dims[k])))
            if r is None: return None
            dims[k] = NUM(Fraction(r[1] - r[0]))
        if any(not is_num(sel[k]) for k in range(len(sel)) if k not in out): return None
        shp = [ONE_ if k == -1 else dims[k] for k in out]
        if not shp: return x.args[0] if is_const(x.args[0]) else None
        return self.setk2(mk("filled", x.args[0], mk("tuple", *shp)), x, shp)
    def partpieces(self, t, x, sel, out):
        """a part of a concatenation whose last pieces have unknown lengths"""
        if x.args[0].op != "list" or not is_num(x.args[1]) or any(y.op == "splat" for y in x.args[0].args): return None
        n = len(sel); ax = int(cval(x.args[1])) % n; items = list(x.args[0].args); e = sel[ax]
        if any(T.ndim(y) != n for y in items): return None
        if ax not in out and not is_num(e): return None
        def sub(y, f): return self.view(t, y, list(sel[:ax]) + [f] + list(sel[ax + 1:]), list(out))
        def rest(ys):
            if len(ys) == 1: return ys[0]
            k = list(out).index(ax)
            r = mk("cat", mk("list", *ys), NUM(Fraction(k - len(out))))
            kk = kind(x)
            if r.kind_ is None: r.kind_ = (kk[0], len(out), kk[2])
            return r
        size = []
        for y in items:
            s = T.shape(y); d = self(s[ax]) if s is not None else None
            size.append(int(cval(d)) if d is not None and is_num(d) else None)
        if e is FULL:
            if all(z is FULL for z in sel) and list(out) == list(range(n)): return None
            return rest([sub(y, FULL) for y in items])
        if is_num(e): l = int(cval(e)); h = l + 1
        else:
            l, h, st = e.args
            if st is not NONE and not (is_num(st) and cval(st) == 1): return None
            if any(z is not NONE and not (is_num(z) and cval(z) >= 0) for z in (l, h)): return None
            l = 0 if l is NONE else int(cval(l)); h = None if h is NONE else int(cval(h))
        if l < 0: return None
        got = []; pos = 0
        for j, (y, d) in enumerate(zip(items, size)):
            if d is None:
                if h is not None or pos < l: return None
                got.append(sub(y, FULL)); pos = l if pos < l else pos; l = pos
                continue
            if is_num(e):
                if l < pos + d: return sub(y, NUM(Fraction(l - pos)))
            elif None in size[:j]: got.append(sub(y, FULL))
            else:
                l2 = max(l - pos, 0); h2 = d if h is None else min(h - pos, d)
                if h2 > l2: got.append(sub(y, self.sl(l2, h2, d)))
            pos += d
            if h is not None and pos >= h: break
        if is_num(e) or not got: return None
        return rest(got)
    def mkcat(self, t, items, ax, like):
        """concatenation along ax of tensors of known shapes"""
        flat = []
        for y in items:
            n = len(self.ishape(y))
            if y.op == "cat" and y.args[0].op == "list" and int(cval(y.args[1])) % n == ax and all(self.ishape(z) is not None for z in y.args[0].args): flat.extend(y.args[0].args)
            else: flat.append(y)
        n = len(self.ishape(flat[0]))
        flat2 = [y for y in flat if self.ishape(y)[ax] != 0] or flat[:1]
        res = []
        for y in flat2:
            j = self.join(t, res[-1], y, ax) if res else None
            if j is not None: res[-1] = j
            else: res.append(y)
        if len(res) == 1: return res[0]
        shp = self.ishape(res[0]); shp[ax] = sum(self.ishape(y)[ax] for y in res)
        r = self.setk(mk("cat", mk("list", *res), NUM(Fraction(ax - n))), like, shp)
        if any(y.op == "cat" and int(cval(y.args[1])) % n < ax for y in res) and self.isgrid(r): return self.mkgrid(t, r, lambda i: self.view(t, r, [NUM(Fraction(j)) for j in i], []))
        return r
    def isgrid(self, x):
        """a small array put together from scalars"""
        s = self.ishape(x)
        if s is None or not s or x.op != "cat" or x.args[0].op != "list": return False
        n = 1
        for d in s: n *= d
        def leaf(y):
            if y.op == "filled": return True
            if y.op == "cat" and y.args[0].op == "list": return all(leaf(z) for z in y.args[0].args)
            q = self.ishape(y)
            return q is not None and all(d == 1 for d in q)
        return 2 <= n <= 16 and leaf(x)
    def mkgrid(self, t, like, entry, pre=()):
        """the array of the shape of like with the entries given, rows outermost"""
        s = self.ishape(like); k = len(pre)
        if k == len(s):
            e = entry(pre)
            if is_const(e): return self.setk(mk("filled", e, mk("tuple", *[NUM(Fraction(1))] * k)), like, [1] * k)
            return self.view(like, e, [], [-1] * k) if e.op == "V" else self.leadV(e, k, 0)
        return self.mkcat(t, [self.mkgrid(t, like, entry, pre + (j,)) for j in range(s[k])], k, like)
    def gridsum(self, d):
        """sums of small arrays put together from scalars are taken entry by entry"""
        groups = {}
        for k, c in d.items():
            g = [(i, a) for i, (a, e) in enumerate(k) if a.op == "cat" and e == 1 and self.isgrid(a)]
            if len(g) == 1: groups.setdefault(tuple(f for i, f in enumerate(k) if i != g[0][0]), []).append((k, c, g[0][1]))
        for rest, ms in groups.items():
            if len(ms) < 2 or any(self.ishape(m[2]) != self.ishape(ms[0][2]) for m in ms): continue
            t = ms[0][2]
            def entry(i):
                o = {}
                for k, c, a in ms: o = self.padd(o, {q: v * c for q, v in self.topoly(self.view(a, a, [NUM(Fraction(j)) for j in i], [])).items()})
                return self.frompoly(o)
            d = {k: v for k, v in d.items() if not any(k == m[0] for m in ms)}
            return self.gridsum(self.padd(d, self.pmul({rest: Fraction(1)}, self.topoly(self.mkgrid(t, t, entry)))))
        return d
    def join(self, t, a, b, ax):
        """one array for two adjacent pieces, if they are"""
        if a.op == b.op == "inverse" and T.ndim(a) and ax < T.ndim(a) - 2:
            j = self.join(t, a.args[0], b.args[0], ax)
            if j is None or T.shape(j) is None: return None
            r = mk("inverse", j)
            if r.kind_ is None: r.kind_ = kind(a)
            if r.shape_ is None: r.shape_ = T.shape(j)
            return r
        if a.op == b.op == "trunc" and kind(a)[::2] == kind(b)[::2]:
            j = self.join(t, a.args[0], b.args[0], ax)
            if j is None: return None
            r = mk("trunc", j)
            if r.kind_ is None: r.kind_ = kind(a)
            if r.shape_ is None and T.shape(j) is not None: r.shape_ = T.shape(j)
            return r
        if a.op == b.op == "getitem" and a.args[1] is b.args[1] and kind(a.args[1])[2:3] == ("bool",) and (T.ndim(a.args[1]) or 9) <= ax + 1 and T.ndim(a.args[1]) == 1 and ax > 0:
            j = self.join(t, a.args[0], b.args[0], ax)       # columns of the rows a mask picks
            if j is None or T.shape(j) is None: return None
            r = mk("getitem", j, a.args[1])
            if r.kind_ is None: r.kind_ = kind(a)
            if r.shape_ is None and T.shape(a) is not None and T.ndim(j) == T.ndim(a): r.shape_ = T.shape(a)[:1] + tuple(self(d) for d in T.shape(j)[1:])
            return r
        if a.op == "filled" and b.op == "filled" and a.args[0] is b.args[0]:
            sa, sb = self.ishape(a), self.ishape(b)
            if sa is None or sb is None: return None
            shp = list(sa); shp[ax] += sb[ax]
            return self.setk(mk("filled", a.args[0], mk("tuple", *[NUM(Fraction(d)) for d in shp])), a, shp)
        if a.op == "V" and b.op == "V" and a.args[0] is b.args[0] and len(a.args[2]) == len(b.args[2]) and all(p == q for i, (p, q) in enumerate(zip(a.args[2], b.args[2])) if i != ax):
            A, B = list(a.args[1].args), list(b.args[1].args)
            diff = [i for i, (x, y) in enumerate(zip(A, B)) if x is not y]
            s = T.shape(a.args[0])
            if len(diff) != 1 or s is None or diff[0] >= len(s): return None
            k = diff[0]
            s = {k: self(s[k])}
            if not is_num(s[k]): return None
            s[k] = int(cval(s[k]))
            if a.args[2][ax] not in (-1, k) or b.args[2][ax] not in (-1, k): return None
            def span(e, o):
                if o == k: return self.rng(e, s[k])
                return (int(cval(e)) % s[k], int(cval(e)) % s[k] + 1) if is_num(e) else None
            ra, rb = span(A[k], a.args[2][ax]), span(B[k], b.args[2][ax])
            if ra and rb and ra[1] == rb[0]:
                A[k] = self.sl(ra[0], rb[1], s[k]); o = list(a.args[2]); o[ax] = k
                return self.view(t, a.args[0], A, o)
        return None
    def mkstack(self, t, items, ax, like):
        if not items: raise ValueError("stack of nothing")
        n = len(self.ishape(items[0]))
        shp = self.ishape(items[0]); shp.insert(ax, len(items))
        if all(y.op == "filled" and y.args[0] is items[0].args[0] for y in items):
            return self.setk(mk("filled", items[0].args[0], mk("tuple", *[NUM(Fraction(d)) for d in shp])), items[0], shp)
        # rows of one array
        y0 = items[0]
        if len(items) > 1 and all(y.op == "cat" and y.args[0].op == "list" and y.args[1] is y0.args[1] and len(y.args[0].args) == len(y0.args[0].args) for y in items):
            cols = list(zip(*[y.args[0].args for y in items]))
            if all(self.ishape(z) is not None and self.ishape(z) == self.ishape(c[0]) for c in cols for z in c):
                pc = int(cval(y0.args[1])) % n
                return self.mkcat(t, [self.mkstack(t, list(c), ax, like) for c in cols], pc + (1 if ax <= pc else 0), like)
        if all(y.op == "V" for y in items) and all(y.args[0] is y0.args[0] and y.args[2] == y0.args[2] for y in items):
            s = self.ishape(y0.args[0])
            if s is not None:
                ss = [list(y.args[1].args) for y in items]
                for k in range(len(s)):
                    if s[k] == len(items) and all(is_num(q[k]) and cval(q[k]) == j for j, q in enumerate(ss)) and all(q[i] is ss[0][i] for q in ss for i in range(len(s)) if i != k):
                        sel = list(ss[0]); sel[k] = FULL; out = list(y0.args[2]); out.insert(ax, k)
                        return self.view(t, y0.args[0], sel, out)
        return self.mkcat(t, [self.view(t, y, [FULL] * n, list(range(ax)) + [-1] + list(range(ax, n))) for y in items], ax, like)
    def maskstore(self, t, y, i, v):
        """the same value (or row) written wherever a mask is set is a choice by the mask"""
        if i.op == "tuple" and len(i.args) == 1: i = i.args[0]
        if i.op == "call" and i.args[0] in ("numpy.where", "torch.where", "numpy.nonzero") and len(i.args) == 2: i = i.args[1]
        ki, ky = kind(i), kind(y)
        if not (T.is_tensor_kind(ki) and ki[2] == "bool" and T.is_tensor_kind(ky)): return None
        n, m = T.ndim(y), T.ndim(i)
        if n is None or m is None or not 1 <= m <= n: return None
        if v.op in ("tuple", "list") and v.args and all(is_num(z) for z in v.args):
            if m == n: return None
            v = self.lit([cval(z) for z in v.args], (len(v.args),))
        elif not is_num(v) and v not in (TRUE, FALSE):
            return None
        if is_num(v) and isinstance(cval(v), float) and ky[2] == "int": return None
        c = self.index(t, i, [FULL] * m + [NEWAX] * (n - m)) if m < n else i
        return self.n_where(t, (c, v, y))
    def n_store(self, t, a):
        y, i, v = a
        if is_num(v) and kind(y)[0] in ("tensor", "ndarray") and kind(y)[2] == "bool": v = TRUE if cval(v) else FALSE      # stored in an array of truth values
        r = self.maskstore(t, y, i, v)
        if r is not None: return r
        keep = self.fin(t, mk("store", y, i, v))
        s = self.ishape(y)
        if s is None or not T.is_tensor_kind(kind(y)) or not s: return keep
        its = list(i.args) if i.op == "tuple" else [i]
        if ELL in its:
            its = T.expand_ellipsis(its, len(s))
            if its is None: return keep
        if len(its) > len(s): return keep
        ent = []
        for k, e in enumerate(its):
            if e.op == "slice":
                r = self.rng(e, s[k])
                if r is None: return keep
                ent.append(r)
            elif is_num(e) and not isinstance(cval(e), bool):
                j = int(cval(e)); j = j + s[k] if j < 0 else j
                if not 0 <= j < s[k]: return keep
                ent.append(j)
            else: return self.putix(t, y, its, v, s, keep)
        while len(ent) < len(s): ent.append((0, s[len(ent)]))
        reg = [e[1] - e[0] for e in ent if isinstance(e, tuple)]
        if any(d == 0 for d in reg): return y
        kv = kind(v)
        if T.is_tensor_kind(kv):
            sv = self.ishape(v)
            if sv is not None and len(sv) > len(reg) and all(q == 1 for q in sv[:len(sv) - len(reg)]):
                v = self.index(t, v, [ZERO] * (len(sv) - len(reg))); sv = sv[len(sv) - len(reg):]
            if sv is None or len(sv) > len(reg): return keep
            if sv != reg:
                v = self.mkexpand(v, tuple(NUM(Fraction(d)) for d in reg))
        elif is_num(v) or is_const(v) or kv[0] in ("int", "float", "bool"):
            v = self.setk(mk("filled", v, mk("tuple", *[NUM(Fraction(d)) for d in reg])), y, reg)
        else: return keep
        def put(y, shp, ent, v):
            """y with the region ent replaced by v"""
            for k, e in enumerate(ent):
                if e == (0, shp[k]): continue
                break
            else: return v
            if isinstance(e, int):
                # the integer axis becomes a unit slice of v
                vs = self.ishape(v); kk = k           # all earlier axes are slices
                v2 = self.view(t, v, [FULL] * len(vs), list(range(kk)) + [-1] + list(range(kk, len(vs))))
                if shp[k] <= 16 and k == 0:
                    rows = [put(self.take(t, y, [NUM(Fraction(j))] + [FULL] * (len(shp) - 1)), shp[1:], ent[1:], v) if j == e else self.take(t, y, [NUM(Fraction(j))] + [FULL] * (len(shp) - 1)) for j in range(shp[0])]
                    return self.mkstack(t, rows, 0, y)
                e2 = (e, e + 1); v = v2
                if shp[k] == 1: return put(y, shp, ent[:k] + [e2] + ent[k + 1:], v)
            else: e2 = e
            pre = [FULL] * k; post = [FULL] * (len(shp) - k - 1)
            mid = self.take(t, y, pre + [self.sl(*e2, shp[k])] + post) if e2 != (0, shp[k]) else y
            shp2 = list(shp); shp2[k] = e2[1] - e2[0]
            ent2 = list(ent); ent2[k] = (0, shp2[k])
            m = put(mid, shp2, ent2, v)
            ps = []
            if e2[0] > 0: ps.append(self.take(t, y, pre + [self.sl(0, e2[0], shp[k])] + post))
            ps.append(m)
            if e2[1] < shp[k]: ps.append(self.take(t, y, pre + [self.sl(e2[1], shp[k], shp[k])] + post))
            return self.mkcat(t, ps, k, y)
        return put(y, s, ent, v)

    def putix(self, t, y, its, v, s, keep):
        """a store through integer-array or mask indices"""
        kv = kind(v)
        scal = is_num(v) or is_const(v) or (T.is_tensor_kind(kv) and T.shape(v) == ()) or kv[0] in ("int", "float", "bool")
        if kv[0] == "int" or is_num(v):
            if kind(y)[2] == "bool" and is_num(v): v = FALSE if cval(v) == 0 else TRUE
        if v.op == "filled" and is_const(v.args[0]): v = v.args[0]; scal = True
        ks = [kind(e) for e in its]
        if any(T.is_tensor_kind(k) and k[2] == "bool" for k in ks):
            if len(its) != 1: return keep
            m = its[0]; sm = T.shape(m); n = len(s)
            if sm is None or len(sm) > n: return keep
            mm = self.index(t, m, [FULL] * len(sm) + [NEWAX] * (n - len(sm))) if len(sm) < n else m
            if scal: w = v
            elif v.op == "getitem" and v.args[1] is m and T.shape(v.args[0]) is not None and tuple(self(d) for d in T.shape(v.args[0])) == tuple(NUM(Fraction(d)) for d in s): w = v.args[0]
            else: return self.setk(mk("put", y, mk("tuple", m), v), y, s)
            lk = mk("where", mm, w, y)
            self.setk(lk, y, s)
            return self.n_where(lk, (mm, w, y))
        ok = all(e.op == "slice" or is_num(e) or k[0] == "int" or (T.is_tensor_kind(k) and k[2] == "int") for e, k in zip(its, ks))
        if not ok or not any(T.is_tensor_kind(k) for k in ks): return keep
        its = [self.normslice(e, NUM(Fraction(d))) if e.op == "slice" else e for e, d in zip(its, s)]
        while its and its[-1] is FULL: its.pop()
        ix = mk("tuple", *its)
        if scal:
            h = mk("hits", ix, mk("tuple", *[NUM(Fraction(d)) for d in s]))
            h.kind_ = ("tensor", len(s), "bool"); h.shape_ = tuple(NUM(Fraction(d)) for d in s)
            if len(its) < len(s):
                ss = s[:len(its)]
                h = mk("hits", ix, mk("tuple", *[NUM(Fraction(d)) for d in ss])); h.kind_ = ("tensor", len(ss), "bool"); h.shape_ = tuple(NUM(Fraction(d)) for d in ss)
                h = self.index(t, h, [FULL] * len(ss) + [NEWAX] * (len(s) - len(ss)))
            lk = mk("where", h, v, y); self.setk(lk, y, s)
            return self.n_where(lk, (h, v, y))
        return self.setk(mk("put", y, ix, v), y, s)
    def gpush(self, t, x, ex):
        """x[ex] with integer-array or mask indices, moved into elementwise operations and resolved on stores"""
        if x.op == "put":
            if x.args[1] is mk("tuple", *ex): return x.args[2]
            return None
        if x.op == "filled" and T.shape(t) is not None and T.is_tensor_kind(kind(t)):
            return self.setk2(mk("filled", x.args[0], mk("tuple", *T.shape(t))), x, T.shape(t))
        if x.op == "hits":
            return TRUE if x.args[0] is mk("tuple", *ex) else None
        if x.op in ("sum", "any", "prod") and T.getkw(x, "keepdim") is None and len(x.args) == 2:
            d = T.getkw(x, "dim"); n = T.ndim(x.args[0])
            if d is None or not is_num(d) or n is None or int(cval(d)) not in (-1, n - 1) or self.span(ex) is None or self.span(ex) > n - 1: return None
            if not T.is_tensor_kind(kind(ex[0])): return None
            y = self.gather(x.args[0], ex)
            if T.shape(y) is None: return None
            return self.fin(t, mk(x.op, self.squares(y) if x.op == "sum" else y, mk("kw", "dim", NUM(Fraction(-1)))))
        if x.op == "sumprod":
            k = self.span(ex)
            if k is None or not T.is_tensor_kind(kind(ex[0])): return None
            ei, eo = cval(x.args[0]).split("->"); ei = ei.split(",")
            if k > len(eo): return None
            # (index arrays only in front, no slices in between)
            if any(e.op == "slice" for e in ex): return None
            G = list(eo[:k]); ys = []; ls = []
            for q, y in zip(ei, x.args[1:]):
                have = [c for c in G if c in q]
                if not have: ys.append(y); ls.append(list(q)); continue
                if len(have) != len(G): return None
                order = [q.index(c) for c in G] + [j for j, c in enumerate(q) if c not in G]
                y2 = self.gather(self.view(t, y, [FULL] * len(q), order), ex)
                if T.shape(y2) is None: return None
                ys.append(y2); ls.append(["P"] + [c for c in q if c not in G])
            return self.sumprod(t, ls, ["P"] + list(eo[k:]), ys)
        if x.op not in self.ELEM: return None
        s = T.shape(x)
        if s is None: return None
        span = 0
        for e in ex:
            k = kind(e)
            if T.is_tensor_kind(k) and k[2] == "bool":
                if T.ndim(e) is None: return None
                span += T.ndim(e)
            else: span += 1
        n = len(s)
        if span > n: return None
        # the index arrays must produce their axes in front
        first = ex[0]
        if not T.is_tensor_kind(kind(first)): return None
        arr = [T.is_tensor_kind(kind(e)) or e.op != "slice" for e in ex]
        if False in arr and True in arr[arr.index(False):]: return None
        s = [self(d) for d in s]
        def sub(y):
            sy = T.shape(y)
            if sy is None: raise ValueError
            if sy == (): return y
            sy = [self(d) for d in sy]
            off = n - len(sy)
            if off >= span: return y
            if off: raise ValueError
            for k in range(span):
                if sy[k] is not s[k]: raise ValueError
            return self.gather(y, ex)
        try:
            if x.op == "poly":
                d = {}
                for m in x.args:
                    p = {(): m.args[0]}
                    for f in m.args[1:]: p = self.pmul(p, self.ppow(sub(f.args[0]), f.args[1]))
                    d = self.padd(d, p)
                return self.frompoly(d)
            na = [sub(y) if isinstance(y, Term) and not is_const(y) else y for y in x.args]
        except ValueError: return None
        if x.op == "bdd": return self.tor([self.tand([na[0], na[1]]), self.tand([self.tnot(na[0]), na[2]])])
        if x.op == "sq": return self.sq(na[0])
        lk = mk("like2", *na)
        if T.is_tensor_kind(kind(t)): lk.kind_ = kind(t); lk.shape_ = T.shape(t)
        if x.op == "zero": return self.n_eq(lk, (na[0], NUM(Fraction(0))))
        if x.op in ("pos", "nonneg"): return self.ge0(self.topoly(na[0]), x.op == "pos", lk)
        if x.op == "where": return self.n_where(lk, tuple(na))
        if x.op in ("maximum", "minimum"): return self.fin(lk, mk(x.op, *srt(na)))
        return self.fin(lk, mk(x.op, *na))
    def span(self, ex):
        """number of axes selected by an index tuple"""
        n = 0
        for e in ex:
            k = kind(e)
            if T.is_tensor_kind(k) and k[2] == "bool":
                if T.ndim(e) is None: return None
                n += T.ndim(e)
            else: n += 1
        return n
    def gather(self, y, ex):
        if len(ex) == 1 and T.is_tensor_kind(kind(ex[0])) and T.shape(y) is not None:
            r = self.maskchain(y, y, ex)
            if r is not None: return r
        if T.shape(y) is not None and any(not T.is_tensor_kind(kind(e)) for e in ex):
            r = self.withints(y, y, ex)
            if r is not None: return r
        raw = mk("getitem", y, ex[0] if len(ex) == 1 else mk("tuple", *ex))
        r = self.gpush(raw, y, ex)
        return raw if r is None else self.fin(raw, r)
    def bview(self, t, y, sy, s, sel, out):
        """the view (sel, out) of a result of shape s, applied to an operand of shape sy that broadcasts to it"""
        n = len(s); off = n - len(sy)
        nsel = []; one = set()
        for k in range(off, n):
            d = sy[k - off]; e = sel[k]
            if s[k] is not None and (d is not s[k] or (is_num(d) and cval(d) == 1)):
                if d is ONE_ or (is_num(d) and cval(d) == 1):
                    one.add(k); e = ZERO
                elif e is not FULL: raise ValueError
            nsel.append(e)
        nout = []
        for k in out:
            if k == -1 or k < off or k in one: nout.append(-1)
            else: nout.append(k - off)
        while nout and nout[0] == -1: nout.pop(0)          # leading unit axes broadcast
        return self.view(t, y, nsel, nout)
    def isidx(self, s): return s.op != "slice"
    def compose(self, inner, outer):
        if inner is FULL: return outer
        if outer is FULL: return inner
        if inner.op == "slice" and (inner.args[2] is NONE) and is_num(inner.args[0]) and cval(inner.args[0]) >= 0 or (inner.op == "slice" and inner.args[0] is NONE and inner.args[2] is NONE):
            lo = num(cval(inner.args[0])) if inner.args[0] is not NONE else Fraction(0)
            if outer.op == "slice" and outer.args[2] is NONE:
                ol = Fraction(0) if outer.args[0] is NONE else (num(cval(outer.args[0])) if is_num(outer.args[0]) else None)
                if ol is None or ol < 0: return None
                nlo = lo + ol
                if outer.args[1] is NONE: hi = inner.args[1]
                elif is_num(outer.args[1]) and cval(outer.args[1]) >= 0 and (inner.args[1] is NONE):
                    hi = NUM(lo + num(cval(outer.args[1])))
                elif is_num(outer.args[1]) and is_num(inner.args[1]) and cval(outer.args[1]) >= 0 and cval(inner.args[1]) >= 0:
                    hi = NUM(min(lo + num(cval(outer.args[1])), num(cval(inner.args[1]))))
                else: return None
                return mk("slice", NONE if nlo == 0 else NUM(nlo), hi, NONE)
            if self.isidx(outer):
                if is_num(outer) and cval(outer) >= 0: return NUM(lo + num(cval(outer)))
                if kind(outer)[0] == "int" and not is_num(outer): return self.frompoly(self.padd(self.topoly(outer), {(): lo}))
        return None
    def normslice(self, s, dim=None):
        lo, hi, st = s.args
        if is_num(lo) and cval(lo) == 0: lo = NONE
        if is_num(st) and cval(st) == 1: st = NONE
        if dim is not None:
            if hi is dim: hi = NONE
            if is_num(dim):
                if is_num(hi) and cval(hi) >= cval(dim): hi = NONE
                if is_num(hi) and cval(hi) < 0: hi = NUM(num(cval(dim)) + num(cval(hi)))
                if is_num(lo) and cval(lo) < 0: lo = NUM(num(cval(dim)) + num(cval(lo)))
                if is_num(lo) and cval(lo) == 0: lo = NONE
        return mk("slice", lo, hi, st)
    def index(self, t, x, entries):
        """entries: per output specification of getitem with NEWAX for None; advanced indices not allowed"""
        s = T.shape(x); n = T.ndim(x)
        sel = []; out = []
        for e in entries:
            if e is NEWAX or e is NONE: out.append(-1); continue
            d = s[len(sel)] if s is not None and len(sel) < len(s) else None
            if e.op == "slice":
                e = self.normslice(e, d)
                # a slice covering one leading element of a unit axis is full
                out.append(len(sel)); sel.append(e)
            else:
                if is_num(e) and cval(e) < 0 and d is not None:
                    e = self.frompoly(self.padd(self.topoly(d), self.topoly(e)))
                if is_num(e) and cval(e) == -1 and d is ONE_: e = NUM(Fraction(0))
                sel.append(e)
        if n is not None:
            while len(sel) < n: out.append(len(sel)); sel.append(FULL)
        return self.fin2(t, self.view(t, x, sel, out))
    def fin2(self, t, r): return r
    def n_slice(self, t, a): return self.normslice(mk("slice", *a))
    def n_getitem(self, t, a):
        x, i = a
        its = list(i.args) if i.op == "tuple" else [i]
        if x.op in ("tuple", "list") and len(its) == 1 and is_num(its[0]) and not any(z.op == "splat" for z in x.args):
            j = int(cval(its[0]))
            if -len(x.args) <= j < len(x.args): return x.args[j]
        if x.op == "ite": 
            pass
        if x.op == "map" and len(its) == 1 and its[0].op not in ("slice", "tuple", "list") and kind(its[0])[0] == "int":
            return self(T.getitem(x, its[0]))
        kx = kind(x)
        if kx[0] in ("list", "tuple", "str", "dict") or not T.is_tensor_kind(kx):
            return self.fin(t, mk("getitem", x, i))
        n = T.ndim(x)
        ex = its
        if ELL in its:
            if n is None: return self.fin(t, mk("getitem", x, i))
            ex = T.expand_ellipsis(its, n)
            if ex is None: return self.fin(t, mk("getitem", x, i))
        ex = self.unhit(ex)
        if any(z.op == "arange" for z in ex) and T.shape(x) is not None and not any(z is NONE or T.is_tensor_kind(kind(z)) and kind(z)[2] == "bool" for z in ex) and sum(1 for z in ex if z.op == "list" or T.is_tensor_kind(kind(z))) == 1:
            ex = [FULL if z.op == "arange" and j < len(T.shape(x)) and self.covers(z, T.shape(x)[j]) else z for j, z in enumerate(ex)]
        basic = all(z is NONE or z.op == "slice" or is_num(z) or kind(z)[0] == "int" for z in ex)
        js = [j for j, z in enumerate(ex) if z.op in ("list", "tensor") and self.intlist(z) is not None]
        if len(js) == 1 and n is not None and all(j in js or z is FULL for j, z in enumerate(ex)) and len(self.intlist(ex[js[0]])) <= 6:
            r = self.pick(t, x, js[0], self.intlist(ex[js[0]]))
            if r is not None: return r
        if basic and n is not None:
            return self.index(t, x, ex)
        # boolean / integer tensor indices: strip trailing full slices
        while len(ex) > 1 and ex[-1].op == "slice" and ex[-1] is FULL: ex = ex[:-1]
        if basic:
            while len(ex) > 1 and ex[-1] is FULL: ex = ex[:-1]
        s = T.shape(x)
        if ex and s is not None and T.is_tensor_kind(kind(ex[0])) and all(z is not NONE for z in ex):
            r = self.maskchain(t, x, ex)
            if r is not None: return r
        if all(z is not NONE for z in ex) and s is not None:
            j = 0; ne = []
            for z in ex:
                kz = kind(z)
                d = s[j] if j < len(s) else None
                if z.op == "slice": ne.append(self.normslice(z, d)); j += 1
                else:
                    ne.append(z); j += T.ndim(z) or 1 if T.is_tensor_kind(kz) and kz[2] == "bool" else 1
            ex = ne
            r = self.gpush(t, x, ex)
            if r is not None: return self.fin(t, r) if r.op not in ("const", "sym") else r
        r = self.onearray(t, x, ex)
        if r is not None: return r
        r = self.withints(t, x, ex)
        if r is not None: return r
        r = mk("getitem", x, ex[0] if len(ex) == 1 else mk("tuple", *ex))
        return self.fin(t, r)
    def withints(self, t, x, ex):
        """index arrays and single positions side by side: the positions are taken first"""
        n = T.ndim(x)
        if n is None or T.shape(x) is None or len(ex) > n: return None
        arr = []
        for e in ex:
            k = kind(e)
            if e is NONE or e is NEWAX or e.op == "slice": return None
            if T.is_tensor_kind(k):
                if k[2] != "int" or not T.ndim(e): return None
                arr.append(e)
            elif not (is_num(e) or k[0] == "int"): return None
        if not arr or len(arr) == len(ex): return None
        y = self.index(t, x, [FULL if T.is_tensor_kind(kind(e)) else e for e in ex])
        if T.ndim(y) != n - (len(ex) - len(arr)) or T.shape(y) is None: return None
        return self.gather(y, arr)
    def intlist(self, z):
        if z.op == "tensor": z = z.args[0]
        if z.op != "list" or not z.args or not all(is_num(q) and num(cval(q)) is not None and num(cval(q)).denominator == 1 and not isinstance(cval(q), bool) for q in z.args): return None
        return [int(cval(q)) for q in z.args]
    def unhit(self, ex):
        """x[positions where m holds] is x[m]"""
        out = []; i = 0; ex = list(ex)
        while i < len(ex):
            z = ex[i]
            if z.op == "nzcol" and is_num(z.args[1]) and int(cval(z.args[1])) == 0:
                m = z.args[0]; k = T.ndim(m)
                if k and len(ex) >= i + k and all(ex[i + j].op == "nzcol" and ex[i + j].args[0] is m and int(cval(ex[i + j].args[1])) == j for j in range(k)) and kind(m)[2] == "bool":
                    out.append(m); i += k; continue
            out.append(z); i += 1
        return out
    def covers(self, z, d):
        """an arange over a whole axis selects all of it"""
        if z.op != "arange" or d is None: return False
        kw = {q.args[0]: q.args[1] for q in z.args if isinstance(q, Term) and q.op == "kw"}
        if set(kw) - {"start", "end", "step"} or kw.get("end") is None: return False
        for k, v in (("start", 0), ("step", 1)):
            if k in kw and not (is_num(kw[k]) and cval(kw[k]) == v): return False
        return self(kw["end"]) is self(d)
    def n_index_select(self, t, a):
        d = T.getkw(mk("x", *a), "dim"); ix = T.getkw(mk("x", *a), "index"); n = T.ndim(a[0])
        if d is not None and ix is not None and is_num(d) and n and T.ndim(ix) == 1:
            k = int(cval(d)) % n
            if k == 0: return self.n_getitem(t, (a[0], ix))
            return self.n_getitem(t, (a[0], mk("tuple", *([FULL] * k + [ix]))))
        return self.fin(t, mk("index_select", *a))
    def maskchain(self, t, x, ex):
        """y[all true] is y; y[m][h(y[m])] is y[m & h(y)] for an elementwise h"""
        if len(ex) > 1: return None
        e = ex[0]; k = kind(e)
        if k[2] != "bool" or T.ndim(e) is None: return None
        if e.op == "filled" and e.args[0] is TRUE:
            m = T.ndim(e); s = T.shape(x)
            if m == 1: return x
            d = {(): Fraction(1)}
            for z in s[:m]: d = self.pmul(d, self.topoly(z))
            return self.reshape(t, x, (self.frompoly(d),) + tuple(s[m:]))
        se = T.shape(e); sx = T.shape(x)
        if T.ndim(e) > 1 and se is not None and sx is not None and len(sx) >= len(se):
            u = [q for q in range(len(se)) if is_num(self(se[q])) and cval(self(se[q])) == 1 and self(sx[q]) is self(se[q])]
            if u and len(u) < len(se):
                y = self.index(t, x, [ZERO if q in u else FULL for q in range(len(sx))])
                e2 = self.index(t, e, [ZERO if q in u else FULL for q in range(len(se))])
                return self.gather(y, [e2])
        if T.ndim(e) != 1 or x.op != "getitem" or T.ndim(x.args[0]) is None: return None
        m = x.args[1]
        if m.op == "tuple" or kind(m)[2] != "bool" or T.ndim(m) != 1 or not T.is_tensor_kind(kind(m)): return None
        try: h = self.ungather(e, m, {})
        except ValueError: return None
        if h is None or T.ndim(h) != 1: return None
        r = self.gather(x.args[0], [self.tand([m, h])])
        return self.fin(t, r) if r.op not in ("const", "sym") else r
    def within(self, m):
        """pairs (A, K): m chooses among the rows that A has chosen, and y[A][m] is y[K]"""
        c = self.memo.setdefault("within", {})
        if m in c: return c[m]
        c[m] = []; out = []; seen = set(); todo = [m]; As = []
        while todo:
            e = todo.pop()
            if not isinstance(e, Term) or e in seen: continue
            seen.add(e)
            if e.op == "getitem":
                A = e.args[1]
                if kind(A)[2] == "bool" and T.is_tensor_kind(kind(A)) and T.ndim(A) == 1 and T.ndim(e) == 1 and A not in As: As.append(A)
            elif e.op in self.ELEM or e.op in ("mod", "remainder"): todo += [y for y in e.args]
        for A in As[:3]:
            try: h = self.ungather(m, A, {})
            except ValueError: continue
            if h is not None and T.ndim(h) == 1: out.append((A, self.tand([A, h])))
        c[m] = out
        return out
    def ungather(self, e, m, memo):
        """e' with e == e'[m] for an elementwise expression over arrays gathered by m"""
        if e in memo: return memo[e]
        if not isinstance(e, Term) or is_const(e) or T.shape(e) == () or not T.is_tensor_kind(kind(e)): return e
        if e.op == "getitem" and e.args[1] is m: r = e.args[0]
        elif e.op == "getitem" and kind(e.args[1])[2] == "bool" and T.ndim(e.args[1]) == 1 and T.ndim(e) == 1:
            r = None
            for A, K in self.within(m):
                if K is e.args[1]: r = self.gather(e.args[0], [A]); break
            if r is None: raise ValueError
        elif e.op in self.ELEM and (e.op in ("where", "maximum", "minimum", "trunc", "sq") or e.op in UNARY_FLOAT):
            na = [self.ungather(y, m, memo) if isinstance(y, Term) else y for y in e.args]
            if e.op == "sq": r = self.sq(na[0])
            else:
                lk = mk(e.op, *na)
                if lk.kind_ is None: lk.kind_ = kind(e)
                if lk.shape_ is None: lk.shape_ = T.shape(m)
                r = self.n_where(lk, tuple(na)) if e.op == "where" else self.fin(lk, mk(e.op, *(srt(na) if e.op in COMM else na)))
        elif e.op in self.ELEM:
            sub = lambda y: self.ungather(y, m, memo) if isinstance(y, Term) else y
            if e.op == "poly":
                d = {}
                for q in e.args:
                    p = {(): q.args[0]}
                    for f in q.args[1:]: p = self.pmul(p, self.ppow(sub(f.args[0]), f.args[1]))
                    d = self.padd(d, p)
                r = self.frompoly(d)
            else:
                na = tuple(sub(y) for y in e.args)
                lk = mk("like3", e, m); lk.kind_ = kind(e); lk.shape_ = T.shape(m)
                if e.op == "bdd": r = self.tor([self.tand([na[0], na[1]]), self.tand([self.tnot(na[0]), na[2]])])
                elif e.op == "zero": r = self.n_eq(lk, (na[0], ZERO))
                elif e.op in ("pos", "nonneg"): r = self.ge0(self.topoly(na[0]), e.op == "pos", lk)
                else: raise ValueError
        elif e.op in ("mod", "remainder") and len(e.args) == 2:
            r = mk(e.op, *[self.ungather(y, m, memo) for y in e.args])
            if r.kind_ is None: r.kind_ = kind(e)
            if r.shape_ is None: r.shape_ = T.shape(m)
        else: raise ValueError
        memo[e] = r
        return r
    def onearray(self, t, x, ex):
        """one index array among integers, slices and new axes: the indexed axes move to the front"""
        n = T.ndim(x); s = T.shape(x)
        if n is None or len(ex) < 2: return None
        ks = [kind(e) for e in ex]
        adv = [i for i, k in enumerate(ks) if T.is_tensor_kind(k)]
        if len(adv) != 1: return None
        i = adv[0]; A = ex[i]; na = T.ndim(A)
        if na is None or na == 0 or ks[i][2] not in ("bool", "int"): return None
        for j, (e, k) in enumerate(zip(ex, ks)):
            if j != i and not (e is NONE or e is NEWAX or e.op == "slice" or is_num(e) or k[0] == "int"): return None
        m, outn = (na, 1) if ks[i][2] == "bool" else (1, na)
        isint = [not (e is NONE or e is NEWAX or e.op == "slice" or j == i) for j, e in enumerate(ex)]
        group = [j for j in range(len(ex)) if isint[j] or j == i]
        together = group == list(range(group[0], group[-1] + 1))
        sel = []; order = []; rest = []; kp = []      # kp: what the result has, in order: ("a",) the array, ("n",) new axis, axis number
        for j, e in enumerate(ex):
            if e is NONE or e is NEWAX: kp.append("n"); continue
            if j == i:
                kp.append("a"); order = list(range(len(sel), len(sel) + m)); sel += [FULL] * m; continue
            q = len(sel)
            if q >= n: return None
            d = s[q] if s is not None and q < len(s) else None
            if e.op == "slice":
                sel.append(self.normslice(e, d)); kp.append(q); rest.append(q)
            else:
                if is_num(e) and cval(e) < 0 and d is not None: e = self.frompoly(self.padd(self.topoly(d), self.topoly(e)))
                sel.append(e)
        while len(sel) < n: kp.append(len(sel)); rest.append(len(sel)); sel.append(FULL)
        if len(sel) > n: return None
        if not together: kp.remove("a"); kp.insert(0, "a")
        y = self.view(t, x, sel, order + rest)
        r = self.gather(y, [A])
        pos = {q: outn + j for j, q in enumerate(rest)}; out = []
        for q in kp:
            if q == "a": out += list(range(outn))
            elif q == "n": out.append(-1)
            else: out.append(pos[q])
        if T.ndim(r) != outn + len(rest): return None
        return self.view(t, r, [FULL] * (outn + len(rest)), out)
    def n_unsqueeze(self, t, a):
        d = T.getkw(mk("x", *a), "dim"); n = T.ndim(a[0])
        if d is not None and is_num(d) and n is not None:
            i = int(cval(d)); i = i + n + 1 if i < 0 else i
            if 0 <= i <= n:
                ent = [FULL] * n; ent.insert(i, NEWAX)
                return self.index(t, a[0], ent)
        return self.fin(t, mk("unsqueeze", *a))
    def n_squeeze(self, t, a):
        d = T.getkw(mk("x", *a), "dim"); s = T.shape(a[0])
        if s is not None and d is not None and is_num(d) and -len(s) <= int(cval(d)) < len(s):
            i = int(cval(d)) % len(s)
            if is_num(s[i]) and cval(s[i]) == 1:
                ent = [FULL] * len(s); ent[i] = NUM(Fraction(0))
                return self.index(t, a[0], ent)
            if is_num(s[i]): return a[0]
        return self.fin(t, mk("squeeze", *a))
    def n_transpose(self, t, a):
        n = T.ndim(a[0]); p, q = T.getkw(mk("x", *a), "dim0"), T.getkw(mk("x", *a), "dim1")
        if n is not None and n < 2: return a[0]
        if n is not None and p is not None and q is not None and is_num(p) and is_num(q):
            l = list(range(n)); i, j = int(cval(p)), int(cval(q))
            if -n <= i < n and -n <= j < n:
                l[i], l[j] = l[j], l[i]
                return self.perm(t, a[0], l)
        return self.fin(t, mk("transpose", *a))
    def n_T(self, t, a):
        n = T.ndim(a[0])
        if n is not None: return self.perm(t, a[0], list(reversed(range(n))))
        return self.fin(t, mk("T", *a))
    def n_permute(self, t, a):
        n = T.ndim(a[0]); p = T.seqitems(T.getkw(mk("x", *a), "dims"))
        if p is not None and all(is_num(z) for z in p):
            return self.perm(t, a[0], [int(cval(z)) % len(p) for z in p])
        return self.fin(t, mk("permute", *a))
    def perm(self, t, x, order):
        if x.op == "matmul" and len(order) >= 2 and order[:-2] == list(range(len(order) - 2)) and order[-2:] == [len(order) - 1, len(order) - 2]:
            xs = [self.perm(t, y, self.swap(y)) for y in reversed(x.args) if T.ndim(y) is not None and T.ndim(y) >= 2]
            if len(xs) == len(x.args):
                r = mk("matmul", *xs); return self.fin(t, r)
        return self.view(t, x, [FULL] * len(order), order)
    def swap(self, y):
        n = T.ndim(y); l = list(range(n)); l[-1], l[-2] = l[-2], l[-1]; return l
    def n_slicekeep(self, t, a):
        n = T.ndim(a[0])
        if n is not None: return self.index(t, self.index(t, a[0], [a[1]]), [NEWAX])
        return self.fin(t, mk("slicekeep", *a))
    def n_expand(self, t, a):
        s, so = T.shape(t), T.shape(a[0])
        if s is None: return self.fin(t, mk("expand", *a))
        s = tuple(self(d) for d in s)
        if so is not None and s == so: return a[0]
        return self.mkexpand(a[0], s)
    def mkexpand(self, x, shp):
        """x repeated to the shape; leading axes of size one are implied"""
        s = T.shape(x)
        if s is not None:
            s = tuple(self(d) for d in s)
            if s == tuple(shp): return x
            k = 0
            while k < len(s) and is_num(s[k]) and cval(s[k]) == 1: k += 1
            if k: x = self.index(x, x, [NUM(Fraction(0))] * k); s = s[k:]
            m = len(shp) - len(s)
            if m >= 0 and tuple(shp[m:]) == s and all(is_num(d) and cval(d) == 1 for d in shp[:m]): return self.leading(x, m) if T.is_tensor_kind(kind(x)) else x
        if x.op == "expand": x = x.args[0]
        if x.op == "filled": r = mk("filled", x.args[0], mk("tuple", *shp))
        else: r = mk("expand", x, mk("tuple", *shp))
        if r.kind_ is None:
            k = kind(x); r.kind_ = (k[0], len(shp), k[2]) if T.is_tensor_kind(k) else ("tensor", len(shp), None)
        if r.shape_ is None: r.shape_ = tuple(shp)
        return r
    def n_repeat(self, t, a):
        so = T.shape(a[0]); s = T.shape(t); p = T.seqitems(T.getkw(mk("x", *a), "sizes"))
        if so is not None and p is not None and len(p) >= len(so):
            pad = (NUM(Fraction(1)),) * (len(p) - len(so)) + so
            one = lambda z: is_num(z) and cval(z) == 1
            if all(one(q) or one(z) for q, z in zip(p, pad)):
                if all(one(q) for q in p) and len(p) == len(so): return a[0]
                return self.mkexpand(a[0], tuple(z if one(q) else q for q, z in zip(p, pad)))
            if len(p) == len(so) and all(is_num(q) and 1 <= int(cval(q)) <= 6 for q in p) and kind(a[0])[0] == "tensor":
                y = a[0]
                for ax, q in enumerate(p):
                    if one(q): continue
                    lk = mk("like3", y, NUM(Fraction(ax)), q); lk.kind_ = kind(a[0])
                    sh = list(T.shape(y)); sh[ax] = self.frompoly(self.padd({}, self.pmul(self.topoly(sh[ax]), self.topoly(q)))); lk.shape_ = tuple(sh)
                    y = self.n_cat(lk, (mk("list", *[y] * int(cval(q))), mk("kw", "dim", NUM(Fraction(ax)))))
                    if T.shape(y) is None: return self.fin(t, mk("repeat", *a))
                return y
        return self.fin(t, mk("repeat", *a))
    def n_normalize(self, t, a):
        """x / max(|x|, eps)"""
        x = a[0]; kw = {q.args[0]: q.args[1] for q in a[1:] if isinstance(q, Term) and q.op == "kw"}; n = T.ndim(x)
        p = kw.pop("p", None); d = kw.pop("dim", NUM(Fraction(1))); e = kw.pop("eps", NUM(Fraction(1, 10 ** 12)))
        if kw or n is None or T.shape(x) is None or not is_num(d) or not is_num(e) or not (p is None or is_num(p) and num(cval(p)) == 2): return self.fin(t, mk("normalize", *a))
        k = int(cval(d)) % n
        lk = mk("like4", "norm", x, d); lk.kind_ = (kind(x)[0] if T.is_tensor_kind(kind(x)) else "tensor", n - 1, "float"); lk.shape_ = tuple(z for j, z in enumerate(T.shape(x)) if j != k)
        r = self.n_norm(lk, (x, T.kw("dim", NUM(Fraction(k)))))
        if T.ndim(r) != n - 1 or T.shape(r) is None: return self.fin(t, mk("normalize", *a))
        r = self.index(t, self.extreme(lk, "maximum", [r, e]), [NEWAX if j == k else FULL for j in range(n)])
        return self.n_div(t, (x, r))
    def n_flip(self, t, a):
        """a flip of short axes is a list of their elements"""
        keep = self.fin(t, mk("flip", *a)); p = T.getkw(mk("x", *a), "dims"); s = T.shape(a[0])
        p = T.seqitems(p) if p is not None else None
        if p is None or s is None or not all(is_num(z) for z in p): return keep
        y = a[0]
        for z in p:
            ax = int(cval(z)) % len(s); d = self(s[ax])
            if not is_num(d) or int(cval(d)) > 6: return keep
            y = self.pick(t, y, ax, list(range(int(cval(d))))[::-1])
            if y is None: return keep
        return y
    def pick(self, t, x, ax, js):
        """the elements js of one axis, as a concatenation of slices"""
        s = T.shape(x)
        if s is None or not is_num(self(s[ax])): return None
        d = int(cval(self(s[ax]))); n = len(s); us = []
        for j in js:
            if not -d <= j < d: return None
            e = [FULL] * n; e[ax] = self.sl(j % d, j % d + 1, d); us.append(self.index(t, x, e))
        if any(T.shape(u) is None or T.ndim(u) != n for u in us): return None
        if len(us) == 1: return us[0]
        lk = mk("like3", x, *[NUM(Fraction(j)) for j in js], NUM(Fraction(ax)))
        if T.is_tensor_kind(kind(x)): lk.kind_ = kind(x)
        sh = list(s); sh[ax] = NUM(Fraction(len(js))); lk.shape_ = tuple(sh)
        return self.n_cat(lk, (mk("list", *us), mk("kw", "dim", NUM(Fraction(ax)))))
    def n_flatten(self, t, a):
        so = T.shape(a[0])
        i = T.getkw(mk("x", *a), "start_dim"); j = T.getkw(mk("x", *a), "end_dim")
        i = int(cval(i)) if i is not None else 0; j = int(cval(j)) if j is not None else -1
        if so is not None and so:
            i %= len(so); j %= len(so)
            d = {(): Fraction(1)}
            for z in so[i:j + 1]: d = self.pmul(d, self.topoly(z))
            return self.reshape(t, a[0], so[:i] + (self.frompoly(d),) + so[j + 1:])
        if i == 0 and j == -1: return self.reshape(t, a[0], (NUM(Fraction(-1)),))
        return self.fin(t, mk("flatten", *a))
    def n_view(self, t, a):
        p = T.getkw(mk("x", *a), "shape")
        q = T.seqitems(p) if p is not None else None
        if q is None: return self.fin(t, mk("reshape", a[0], p if p is not None else NONE))
        return self.reshape(t, a[0], tuple(q))
    n_reshape = n_view
    def reshape(self, t, x, p):
        while x.op == "reshape": x = x.args[0]
        so = T.shape(x)
        m1 = [i for i, z in enumerate(p) if is_num(z) and cval(z) == -1]
        if len(m1) == 1 and so is not None:
            tot = {(): Fraction(1)}
            for z in so: tot = self.pmul(tot, self.topoly(self(z)))
            for i, z in enumerate(p):
                if i != m1[0]: tot = self.pmul(tot, self.ppow(z, Fraction(-1)))
            p = p[:m1[0]] + (self.frompoly(tot),) + p[m1[0] + 1:]
        if so is not None:
            so = tuple(self(z) for z in so)
            if so == tuple(p): return x
            one = lambda z: is_num(z) and cval(z) == 1
            if len(m1) == 1 and len(so) == 1 and all(one(z) for k, z in enumerate(p) if k != m1[0]): p = p[:m1[0]] + (so[0],) + p[m1[0] + 1:]
            if [z for z in so if not one(z)] == [z for z in p if not one(z)]:
                # only unit axes change
                zero = NUM(Fraction(0))
                ent = []; i = 0; j = 0
                core = [z if not one(z) else None for z in so]
                y = self.index(t, x, [zero if one(z) else FULL for z in so])
                ent = [NEWAX if one(z) else FULL for z in p]
                return self.index(t, y, ent)
        r = mk("reshape", x, mk("tuple", *p))
        if r.shape_ is None and not m1: r.shape_ = tuple(p)
        elif r.shape_ is None and so is not None: r.shape_ = tuple(p)
        k = kind(x)
        if r.kind_ is None: r.kind_ = (k[0], len(p), k[2]) if T.is_tensor_kind(k) else ("tensor", len(p), None)
        return r
    def n_unview(self, t, a): return self.fin(t, mk("unview", *a))

    # ------------------------------------------------------------ products
    # Every contraction (matrix product, einsum) of operands of known rank is one node
    #     sumprod(eq, x1, .., xn)
    # with operands in content order, letters in order of first appearance and output axes in letter order; the
    # requested output order is a view around it.  Nested contractions are flattened, scale factors and factors that do
    # not depend on a contracted axis are pulled out, sums are distributed, identity matrices disappear.
    def n_matmul(self, t, a):
        xs = []
        for x in a:
            if x.op == "matmul": xs.extend(x.args)
            else: xs.append(x)
        if all(T.ndim(x) is not None and T.ndim(x) >= 1 for x in xs) and all(T.ndim(x) >= 2 for x in xs[1:-1]):
            r = self.chain(t, xs)
            if r is not None: return r
        # scalars factor out of matrix products
        coeff = {(): Fraction(1)}; ys = []
        for x in xs:
            if x.op == "poly" and len(x.args) == 1:
                m = x.args[0]
                sc = [f for f in m.args[1:] if kind(f.args[0])[0] in ("int", "float")]
                if m.args[0] != 1 or sc:
                    rest = {tuple((f.args[0], f.args[1]) for f in m.args[1:] if f not in sc): Fraction(1)}
                    coeff = self.pmul(coeff, {tuple((f.args[0], f.args[1]) for f in sc): m.args[0]})
                    x = self.frompoly(rest)
            ys.append(x)
        zs = [y for y in ys if y.op != "eye"]
        if len(zs) < len(ys) and zs and all((T.ndim(z) or 0) >= 2 for z in zs): ys = zs
        if len(ys) == 1: r = ys[0]
        else: r = self.fin(t, mk("matmul", *ys))
        if coeff == {(): Fraction(1)}: return r
        return self.frompoly(self.pmul(coeff, self.topoly(r)))
    def chain(self, t, xs):
        nb = max([max(T.ndim(x) - 2, 0) for x in xs])
        bl = [("b", k) for k in range(nb)]
        ins = []
        for i, x in enumerate(xs):
            n = T.ndim(x)
            if n == 1: ins.append([("m", 1 if i == 0 else i)])
            else: ins.append(bl[nb - (n - 2):] + [("m", i), ("m", i + 1)])
        out = bl + ([("m", 0)] if T.ndim(xs[0]) >= 2 else []) + ([("m", len(xs))] if T.ndim(xs[-1]) >= 2 else [])
        return self.sumprod(t, ins, out, xs)
    def n_einsum(self, t, a):
        eq = a[0]
        if not is_const(eq): return self.fin(t, mk("einsum", *a))
        e = cval(eq).replace(" ", "")
        xs = list(a[1:])
        if len(xs) == 1 and xs[0].op in ("list", "tuple"): xs = list(xs[0].args)
        if "." in e: return self.fin(t, mk("einsum", const(e), *xs))
        if "->" not in e:
            ls = e.replace(",", "")
            e += "->" + "".join(sorted(c for c in set(ls) if ls.count(c) == 1))
        ins, out = e.split("->"); ins = ins.split(",")
        if len(ins) != len(xs) or any(T.ndim(x) is not None and T.ndim(x) != len(l) for x, l in zip(xs, ins)): return self.fin(t, mk("einsum", const(e), *xs))
        r = self.sumprod(t, [list(i) for i in ins], list(out), xs)
        return r if r is not None else self.fin(t, mk("einsum", const(e), *xs))
    def n_outer(self, t, a):
        xs = [x for x in a if x.op != "kw"]
        if len(xs) == 2 and len(a) == 2 and all(T.ndim(x) == 1 for x in xs):
            r = self.sumprod(t, [["a"], ["b"]], ["a", "b"], xs)
            if r is not None: return r
        return self.fin(t, mk("outer", *a))
    def n_dot(self, t, a):
        if len(a) == 2 and all(T.ndim(x) == 1 for x in a): return self.n_matmul(t, a)
        return self.fin(t, mk("dot", *srt(a)))
    def psum(self, lists):
        d = {}
        for p in lists: d = self.padd(d, p)
        return d
    def sumprod(self, t, ins, out, xs, depth=0, size=None):
        """contraction in normal form; None if it cannot be put into it"""
        if any(len(set(l)) != len(l) for l in ins) or len(set(out)) != len(out): return None
        size = dict(size or {})
        for l in ins:
            for c in l: size.setdefault(c, None)
        one = lambda z: is_num(z) and cval(z) == 1
        def note(l, x):
            s = T.shape(x)
            if s is None: return
            for c, d in zip(l, s):
                d = self(d)
                if size.get(c) is None or one(size[c]): size[c] = d
        for l, x in zip(ins, xs): note(l, x)
        if any(c not in size for c in out): return None
        todo = [(list(l), x) for l, x in zip(ins, xs)]; done = []
        coeff = {(): Fraction(1)}
        fresh = [0]
        steps = 0
        while todo:
            steps += 1
            if steps > 400: return None
            l, x = todo.pop()
            if x.op == "sumprod":
                ei, eo = cval(x.args[0]).split("->"); ei = ei.split(",")
                m = dict(zip(eo, l)); 
                for q in ei:
                    for c in q:
                        if c not in m: fresh[0] += 1; m[c] = ("f", depth, fresh[0]); size[m[c]] = None
                for q, y in zip(ei, x.args[1:]):
                    note([m[c] for c in q], y); todo.append(([m[c] for c in q], y))
                continue
            if x.op == "V":
                o = list(x.args[2]); kept = sorted(k for k in o if k != -1)
                if o != kept:
                    m = {k: c for k, c in zip(o, l) if k != -1}
                    y = self.view(t, x.args[0], list(x.args[1].args), kept)
                    todo.append(([m[k] for k in kept], y)); continue
            if x.op == "expand":
                y = x.args[0]; sy = T.shape(y)
                if sy is not None:
                    sx = [self(d) for d in T.shape(x)]; off = len(l) - len(sy); nl = []; keep = []
                    ok = True
                    for k, c in enumerate(l):
                        if k < off or (one(self(sy[k - off])) and not one(sx[k])):
                            # the axis is only repeated here
                            if size.get(c) is None or one(size[c]): size[c] = sx[k]
                        else: nl.append(c); keep.append(k - off)
                    if ok:
                        y = self.view(t, y, [FULL if k in keep else ZERO for k in range(len(sy))], keep)
                        todo.append((nl, y)); continue
            if x.op == "filled" and is_const(x.args[0]) and not isinstance(cval(x.args[0]), str):
                coeff = self.pmul(coeff, self.topoly(x.args[0])); continue
            s = T.shape(x)
            if s is not None and len(s) == len(l) and any(one(self(d)) for d in s):
                keep = [k for k, d in enumerate(s) if not one(self(d))]
                y = self.view(t, x, [FULL if k in keep else ZERO for k in range(len(s))], keep)
                todo.append(([l[k] for k in keep], y)); continue
            if x.op == "poly":
                if len(x.args) == 1 :
                    m = x.args[0]
                    fs = [(f.args[0], f.args[1]) for f in m.args[1:]]
                    if m.args[0] != 1 or len(fs) > 1:
                        ns = [T.ndim(f) if T.is_tensor_kind(kind(f)) else 0 for f, _ in fs]
                        if all(n is not None for n in ns):
                            coeff = self.pmul(coeff, {(): m.args[0]})
                            for (f, e), n in zip(fs, ns):
                                g = self.frompoly({((f, e),): Fraction(1)})
                                if n == 0: coeff = self.pmul(coeff, self.topoly(g))
                                else: todo.append((l[len(l) - n:], g))
                            continue
                elif len(x.args) <= 6 and depth < 4 and self.distributable(x):
                    rest = todo + done
                    tot = {}
                    for m in x.args:
                        fs = {tuple((f.args[0], f.args[1]) for f in m.args[1:]): m.args[0]}
                        y = self.frompoly(fs); n = T.ndim(y) if T.is_tensor_kind(kind(y)) else 0
                        if n is None: break
                        r = self.sumprod(t, [q for q, _ in rest] + [l[len(l) - n:] if n else []], out, [z for _, z in rest] + [y], depth + 1, size)
                        if r is None: break
                        tot = self.padd(tot, self.topoly(r))
                    else:
                        return self.shaped(self.frompoly(self.pmul(coeff, tot)), out, size, depth)
            if not l:
                coeff = self.pmul(coeff, self.topoly(x)); continue
            if len(l) == 2 and x.op in ("ite", "poly", "where") and T.ndim(x) == 2:
                # a matrix and its transpose are written one way round
                y = self.view(t, x, [FULL, FULL], [1, 0])
                if T.ndim(y) == 2 and y.op == x.op and self.upright(y) < self.upright(x): l, x = l[::-1], y
            done.append((l, x))
        return self.sumprod3(t, done, out, size, coeff, depth)
    def upright(self, x):
        n = 0; todo = [x]; seen = set()
        while todo and len(seen) < 300:
            y = todo.pop()
            if y in seen: continue
            seen.add(y)
            if y.op == "V": n += [k for k in y.args[2] if k != -1] != sorted(k for k in y.args[2] if k != -1)
            elif y.op in ("poly", "ite", "where"): todo += [z for z in (y.args if y.op != "poly" else [f.args[0] for m in y.args for f in m.args[1:]])]
        return n, key2(x)
    def distributable(self, x):
        for m in x.args:
            for f in m.args[1:]:
                if T.is_tensor_kind(kind(f.args[0])) and T.ndim(f.args[0]) is None: return False
        return True
    def sumprod3(self, t, ops, out, size, coeff, depth):
        one = lambda z: is_num(z) and cval(z) == 1
        # identity matrices
        ch = True
        while ch:
            ch = False
            for i, (l, x) in enumerate(ops):
                if x.op == "eye" and len(x.args) == 1 and len(l) == 2 and l[0] != l[1]:
                    a, b = l
                    if a in out and b in out: continue
                    if b in out: a, b = b, a          # b disappears
                    rest = [o for k, o in enumerate(ops) if k != i]
                    if not any(a in q or b in q for q, _ in rest): continue
                    if any(a in q and b in q for q, _ in rest): continue
                    ops = [([a if c == b else c for c in q], y) for q, y in rest]
                    if size.get(a) is None and size.get(b) is not None: size[a] = size[b]
                    if b in size: size = {c: d for c, d in size.items() if c != b}
                    ch = True; break
        have = {c for l, _ in ops for c in l}
        # products along a short axis are written out
        for c in [c for c in size if c in have and c not in out]:
            d = size[c]
            if d is None or not is_num(d) or not 2 <= cval(d) <= 4: continue
            S = [(l, x) for l, x in ops if c in l]
            if len(S) < 2 or any(set(l) != set(S[0][0]) or l.count(c) != 1 or len(set(l)) != len(l) or x.op in ("eps", "eye") for l, x in S): continue
            if all(x is S[0][1] and l == S[0][0] for l, x in S): continue
            sh = [T.shape(x) for _, x in S]
            if any(q is None or not is_num(self(q[l.index(c)])) for q, (l, _) in zip(sh, S)): continue
            rest = {e: f for e, f in size.items() if e != c}; tot = {}
            for j in range(int(cval(d))):
                o2 = []
                for l, x in ops:
                    if c in l:
                        k = l.index(c); w = int(cval(self(T.shape(x)[k])))
                        x = self.index(t, x, [FULL] * k + [NUM(Fraction(j if w > 1 else 0))]); l = l[:k] + l[k + 1:]
                    o2.append((l, x))
                r = self.sumprod(t, [l for l, _ in o2], out, [x for _, x in o2], depth + 1, dict(rest))
                if r is None: break
                tot = self.padd(tot, self.topoly(r))
            else: return self.shaped(self.frompoly(self.pmul(coeff, tot)), out, size, depth)
        # homogeneous coordinates: a contraction over an axis with a constant piece, piece by piece
        for c in [c for c in size if c in have and c not in out]:
            cut = None
            for l, x in ops:
                if c in l and x.op == "cat" and x.args[0].op == "list" and is_num(x.args[1]) and int(cval(x.args[1])) % len(l) == l.index(c) and 2 <= len(x.args[0].args) <= 3 and any(y.op == "filled" and is_const(y.args[0]) for y in x.args[0].args):
                    w = [T.shape(y) for y in x.args[0].args]
                    if all(q is not None and len(q) == len(l) and is_num(self(q[l.index(c)])) for q in w): cut = [int(cval(self(q[l.index(c)]))) for q in w]; break
            if not cut or sum(cut) > 6 or any(l.count(c) != 1 for l, x in ops if c in l): continue
            sh = [T.shape(x) for l, x in ops if c in l]; ok = all(q is not None for q in sh)
            ok = ok and all(x.op not in ("eps",) and is_num(self(T.shape(x)[l.index(c)])) and int(cval(self(T.shape(x)[l.index(c)]))) == sum(cut) for l, x in ops if c in l)
            if not ok: continue
            tot = {}; at = 0; rest = {e: f for e, f in size.items() if e != c}
            for w in cut:
                o2 = []
                for l, x in ops:
                    if c in l:
                        k = l.index(c); e = NUM(Fraction(at)) if w == 1 else self.sl(at, at + w, sum(cut))
                        x = self.index(t, x, [FULL] * k + [e])
                        if w == 1: l = l[:k] + l[k + 1:]
                    o2.append((l, x))
                at += w
                r = self.sumprod(t, [l for l, _ in o2], out, [x for _, x in o2], depth + 1, dict(rest) if w == 1 else {**rest, c: NUM(Fraction(w))})
                if r is None: break
                tot = self.padd(tot, self.topoly(r))
            else: return self.shaped(self.frompoly(self.pmul(coeff, tot)), out, size, depth)
        # contracted axes without operand
        for c, d in list(size.items()):
            if c not in have and c not in out and (d is None or not one(d)):
                if d is None: return None
                coeff = self.pmul(coeff, self.topoly(d))
        # factors without contracted axis, and connected components
        con = {c for c in have if c not in out}
        comps = []
        for l, x in ops:
            cs = set(l) & con
            if not cs: comps.append((cs, [(l, x)])); continue
            hit = [k for k in comps if k[0] & cs]
            for k in hit: comps.remove(k); cs |= k[0]
            comps.append((cs, [o for k in hit for o in k[1]] + [(l, x)]))
        res = coeff
        terms = []
        for cs, os in comps:
            if not cs: (l, x), = os; terms.append((l, x)); continue
            l, x, sg = self.component(t, os, cs, size)
            if sg < 0: res = self.pmul(res, {(): Fraction(-1)})
            terms.append((l, x))
        for l, x in terms:
            order = [l.index(c) if c in l else -1 for c in out]
            while order and order[0] == -1: order.pop(0)
            if order != list(range(len(l))): x = self.view(t, x, [FULL] * len(l), order)
            res = self.pmul(res, self.topoly(x))
        return self.shaped(self.frompoly(res), out, size, depth)
    def shaped(self, r, out, size, depth):
        """give a product the axes of size one and the repetitions that its operands no longer show"""
        if depth or not out: return r
        one = lambda z: is_num(z) and cval(z) == 1
        if any(size.get(c) is None for c in out): return r
        full = tuple(size[c] for c in out)
        if not T.is_tensor_kind(kind(r)): q = mk("filled", r, mk("tuple", *full))
        else:
            s = T.shape(r)
            if s is None: return r
            s = tuple(self(d) for d in s)
            if s == full: return r
            k = len(full) - len(s)
            if k > 0 and all(one(d) for d in full[:k]) and s == full[k:]: return self.index(r, r, [NEWAX] * k)
            return self.mkexpand(r, full)
        if q.kind_ is None: q.kind_ = ("tensor", len(full), "float")
        if q.shape_ is None: q.shape_ = full
        return q
    def component(self, t, os, cs, size):
        """canonical node for operands connected by contracted axes; returns its axes, the node and a sign"""
        import itertools
        canon_ = []
        for l, x in os:
            g = self.axsig(x)
            if len(l) > 1 and x.op not in ("eps",) and g is not None:
                o = sorted(range(len(l)), key=lambda k: (g[k], k))
                if o != list(range(len(l))): x = self.view(t, x, [FULL] * len(l), o); l = [l[k] for k in o]
            canon_.append((l, x))
        os = canon_
        if len(os) == 2 and os[0][1] is os[1][1] and os[0][0] == os[1][0]: os = [(os[0][0], self.sq(os[0][1]))]
        if len(os) == 1:
            (l, x), = os
            free = [c for c in l if c not in cs]
            if not free:
                r = self.fin_(mk("sum", self.squares(x)), kind(x), ())
                return free, r, 1
            y = self.view(t, x, [FULL] * len(l), [l.index(c) for c in free] + [k for k, c in enumerate(l) if c in cs])
            for _ in cs:
                sh = T.shape(y); y = self.fin_(mk("sum", self.squares(y), T.kw("dim", NUM(-1))), kind(y), sh[:-1] if sh is not None else None, T.ndim(y))
            return free, y, 1
        os = sorted(os, key=lambda o: (o[1].op == "eps", key2(o[1]), T.skey(o[1])))
        groups = []
        for o in os:
            if groups and groups[-1][0][1] is o[1]: groups[-1].append(o)
            else: groups.append([o])
        perms = [list(itertools.permutations(g)) if len(g) <= 3 else [tuple(g)] for g in groups]
        best = None
        for pick in itertools.islice(itertools.product(*perms), 64):
            seq = [o for g in pick for o in g]
            ren = {}
            for l, x in seq:
                if x.op != "eps":
                    for c in l: ren.setdefault(c, chr(97 + len(ren)))
            sign = 1
            for l, x in seq:
                if x.op == "eps":
                    for c in l: ren.setdefault(c, chr(97 + len(ren)))
                    p = [ren[c] for c in l]
                    if sum(1 for i in range(3) for j in range(i) if p[j] > p[i]) % 2: sign = -sign
            free = [c for c in ren if c not in cs]
            eq = ",".join("".join(sorted(ren[c] for c in l) if x.op == "eps" else [ren[c] for c in l]) for l, x in seq) + "->" + "".join(ren[c] for c in free)
            k = (eq, tuple(repr(c) for c in free), -sign)
            if best is None or k < best[0]: best = (k, eq, seq, free, sign)
        _, eq, seq, free, sign = best
        r = mk("sumprod", const(eq), *[x for _, x in seq])
        if r.kind_ is None: r.kind_ = ("tensor", len(free), "float") if free else ("tensor", 0, "float")
        if r.shape_ is None and all(size.get(c) is not None for c in free): r.shape_ = tuple(size[c] for c in free)
        return free, r, sign
    def fin_(self, r, k, shp, n=None):
        if r.kind_ is None: r.kind_ = (k[0], n - 1 if n else 0, k[2]) if T.is_tensor_kind(k) else k
        if r.shape_ is None: r.shape_ = shp
        return r
    _axs = {}
    def axsig(self, x):
        """for every axis, the axes of input arrays it runs along: an order of axes that does not depend on permutations"""
        r = Norm._axs.get(x)
        if r is not None: return r
        n = T.ndim(x)
        if n is None: return None
        parts = None
        if x.op == "V":
            g = self.axsig(x.args[0])
            if g is not None: r = tuple(() if k == -1 else g[k] for k in x.args[2])
        elif x.op == "poly": parts = [(f.args[0], 0) for m in x.args for f in m.args[1:]]
        elif x.op in self.ELEM or x.op in ("expand", "sq"): parts = [(y, 0) for y in x.args if isinstance(y, Term)]
        elif x.op == "cat" and x.args[0].op == "list": parts = [(y, 0) for y in x.args[0].args]
        elif x.op == "stack" and x.args[0].op == "list" and is_num(x.args[1]):
            g = [self.axsig(y) for y in x.args[0].args]; ax = int(cval(x.args[1])) + n
            if all(q is not None and len(q) == n - 1 for q in g):
                u = [tuple(sorted(set().union(*[q[k] for q in g]))) for k in range(n - 1)]; u.insert(ax, (("stack", 0),))
                r = tuple(u)
        elif x.op in ("sum", "any", "prod", "mean") and T.ndim(x.args[0]) == n + 1:
            g = self.axsig(x.args[0])
            if g is not None: r = g[:-1]
        elif x.op == "filled": r = ((),) * n
        elif x.op == "sumprod":
            ei, eo = cval(x.args[0]).split("->"); ei = ei.split(",")
            u = {c: set() for c in eo}; ok = True
            for q, y in zip(ei, x.args[1:]):
                g = self.axsig(y)
                if g is None or len(g) != len(q): ok = False; break
                for c, z in zip(q, g):
                    if c in u: u[c].update(z)
            if ok: r = tuple(tuple(sorted(u[c])) for c in eo)
        if parts is not None:
            u = [set() for _ in range(n)]; ok = True
            for y, _ in parts:
                if not T.is_tensor_kind(kind(y)): continue
                g = self.axsig(y)
                if g is None or len(g) > n: ok = False; break
                for k, z in enumerate(g): u[n - len(g) + k].update(z)
            if ok: r = tuple(tuple(sorted(z)) for z in u)
        if r is None: r = tuple(((key2(x), k),) for k in range(n))
        Norm._axs[x] = r
        return r

    # ------------------------------------------------------------ sequences, calls
    def sized(self, t, xs):
        """numbers that stand for arrays in a list of pieces get their shape back"""
        raw = t.args[0] if t.args and isinstance(t.args[0], Term) else None
        if xs.op not in ("list", "tuple") or raw is None or raw.op not in ("list", "tuple") or len(raw.args) != len(xs.args): return xs
        out = []
        for r, y in zip(raw.args, xs.args):
            if is_num(y) and T.is_tensor_kind(kind(r)) and T.shape(r):
                sh = tuple(self(d) for d in T.shape(r)); f = mk("filled", y, mk("tuple", *sh))
                y = self.setk2(f, r, sh)
            out.append(y)
        return mk(xs.op, *out)
    def n_cat(self, t, a):
        xs = self.sized(t, a[0]); d = T.getkw(mk("x", *a), "dim") or (a[1] if len(a) > 1 and is_num(a[1]) else NUM(Fraction(0)))
        items = list(xs.args) if xs.op in ("list", "tuple") else None
        n = None
        if items:
            for x in items:
                if x.op != "splat" and T.ndim(x) is not None: n = T.ndim(x)
            if is_num(d) and n: d = NUM(Fraction(int(cval(d)) % n - n))
            flat = []
            for x in items:
                if x.op == "cat" and x.args[1] is d and x.args[0].op == "list": flat.extend(x.args[0].args)
                else: flat.append(x)
            if len(flat) == 1 and flat[0].op != "splat": return flat[0]
            if is_num(d) and n and not any(x.op == "splat" for x in flat):
                # legacy rule of torch.cat: one-dimensional empty pieces are skipped
                flat = [x for x in flat if self.ishape(x) != [0]] or flat
                if all(T.is_tensor_kind(kind(x)) and self.ishape(x) is not None and T.ndim(x) == n for x in flat): return self.mkcat(t, flat, int(cval(d)) + n, t)
                res = []
                for y in flat:
                    j = self.join(t, res[-1], y, int(cval(d)) + n) if res else None
                    if j is not None: res[-1] = j
                    else: res.append(y)
                if len(res) == 1: return res[0]
                flat = res
            xs = mk("list", *flat)
        return self.fin(t, mk("cat", xs, d))
    def n_pad(self, t, a):
        """constant padding as concatenation with constant pieces"""
        x = mk("x", *a)
        p = T.getkw(x, "pad"); m = T.getkw(x, "mode"); v = T.getkw(x, "value")
        p = T.seqitems(p) if p is not None else None
        s = self.ishape(a[0])
        keep = self.fin(t, mk("pad", *a))
        if p is not None and s is None and T.shape(a[0]) is not None and len(p) % 2 == 0 and len(p) // 2 <= len(T.shape(a[0])) and all(is_num(z) and cval(z) >= 0 for z in p) and (m is None or is_const(m) and cval(m) == "constant"):
            y = a[0]; v = ZERO if v is None or v is NONE else v
            for j in range(len(p) // 2):
                lo, hi = int(cval(p[2 * j])), int(cval(p[2 * j + 1])); sh = [self(z) for z in T.shape(y)]; ax = len(sh) - 1 - j
                if not lo + hi: continue
                def fill(k):
                    z = list(sh); z[ax] = NUM(Fraction(k))
                    return self.setk2(mk("filled", v, mk("tuple", *z)), a[0], z)
                ps = ([fill(lo)] if lo else []) + [y] + ([fill(hi)] if hi else [])
                lk = mk("like3", y, NUM(Fraction(ax)), NUM(Fraction(lo)), NUM(Fraction(hi))); lk.kind_ = kind(y)
                sh[ax] = self.frompoly(self.padd(self.topoly(sh[ax]), {(): Fraction(lo + hi)})); lk.shape_ = tuple(sh)
                y = self.n_cat(lk, (mk("list", *ps), mk("kw", "dim", NUM(Fraction(ax)))))
                if T.shape(y) is None: return keep
            return y
        if p is None or s is None or len(p) % 2 or len(p) // 2 > len(s) or not all(is_num(z) for z in p): return keep
        if m is not None and not (is_const(m) and cval(m) == "constant"): return keep
        if v is None or v is NONE: v = ZERO
        y = a[0]
        for j in range(len(p) // 2):
            lo, hi = int(cval(p[2 * j])), int(cval(p[2 * j + 1])); ax = len(s) - 1 - j
            if lo < 0 or hi < 0: return keep
            def fill(k):
                z = list(self.ishape(y)); z[ax] = k
                return self.setk(mk("filled", v, mk("tuple", *[NUM(Fraction(d)) for d in z])), a[0], z)
            ps = ([fill(lo)] if lo else []) + [y] + ([fill(hi)] if hi else [])
            if len(ps) > 1: y = self.mkcat(t, ps, ax, y)
        return y
    def n_hstack(self, t, a): return self.fin(t, mk("hstack", *a))
    def n_stack(self, t, a):
        xs = self.sized(t, a[0]); d = T.getkw(mk("x", *a), "dim") or (a[1] if len(a) > 1 and is_num(a[1]) else NUM(Fraction(0)))
        items = list(xs.args) if xs.op in ("list", "tuple") else None
        n = None
        if items:
            for x in items:
                if x.op != "splat" and T.ndim(x) is not None: n = T.ndim(x)
        elif xs.op == "map": n = T.ndim(xs.args[2])
        if is_num(d) and n is not None:
            i = int(cval(d)); d = NUM(Fraction((i if i < 0 else i - n - 1)))
        if items and is_num(d) and n is not None and all(x.op != "splat" and T.is_tensor_kind(kind(x)) and self.ishape(x) is not None and T.ndim(x) == n for x in items):
            return self.mkstack(t, items, int(cval(d)) + n + 1, t)
        if items and is_num(d) and n is not None and len(items) <= 16 and all(x.op != "splat" and T.is_tensor_kind(kind(x)) and T.shape(x) is not None and T.ndim(x) == n and kind(x)[2] == kind(items[0])[2] for x in items):
            ax = int(cval(d)) + n + 1
            us = [self.view(t, x, [FULL] * n, list(range(ax)) + [-1] + list(range(ax, n))) for x in items]
            if all(T.ndim(u) == n + 1 and T.shape(u) is not None for u in us): return self.n_cat(t, (mk("list", *us), mk("kw", "dim", NUM(Fraction(ax)))))
        # an array taken apart and put together again
        if T.is_tensor_kind(kind(xs)) and is_num(d):
            n = T.ndim(xs)
            if n: 
                i = int(cval(d)); i = i if i >= 0 else i + n
                return self.view(t, xs, [FULL] * n, list(range(1, i + 1)) + [0] + list(range(i + 1, n)))
        # stack of x[0], x[1], .. along the same axis
        if xs.op == "map" and is_num(d) and n is not None:
            b = xs.args[2]; ix = mk("ix", xs.args[0])
            if b.op == "V":
                sel = list(b.args[1].args)
                js = [j for j, s in enumerate(sel) if s is ix]
                if len(js) == 1 and not any(x is ix for x in T.walk(b.args[0])) and not any(x is ix for s in sel if s is not ix for x in T.walk(s)):
                    j = js[0]; s0 = T.shape(b.args[0])
                    if s0 is not None and self(s0[j]) is xs.args[1]:
                        out = list(b.args[2]); k = int(cval(d)) + n + 1
                        sel[j] = FULL; out.insert(k, j)
                        return self.view(t, b.args[0], sel, out)
        return self.fin(t, mk("stack", xs, d))
    def n_list(self, t, a):
        out = []
        for x in a:
            if x.op == "splat" and x.args[0].op == "list": out.extend(x.args[0].args)
            else: out.append(x)
        if len(out) == 1 and out[0].op == "splat": return out[0].args[0]
        return self.fin(t, mk("list", *out))
    def n_map(self, t, a):
        lv, n, b = a
        # [x for x in xs]
        ix = mk("ix", lv)
        if b.op == "getitem" and b.args[1] is ix and not any(x is ix for x in T.walk(b.args[0])) and b.args[0].op != "map" and kind(b.args[0])[0] == "list": return b.args[0]
        return self.fin(t, mk("map", lv, n, b))
    def n_len(self, t, a):
        x = a[0]
        if x.op == "map": return x.args[1]
        if x.op in ("list", "tuple") and not any(z.op == "splat" for z in x.args): return NUM(Fraction(len(x.args)))
        if x.op == "set" and x.args and x.args[0].op == "list" and all(self.plain(z) for z in x.args[0].args): return NUM(Fraction(len(set(x.args[0].args))))
        return self.fin(t, mk("len", x))
    def plain(self, z): return is_const(z) or z.op == "tuple" and all(self.plain(q) for q in z.args)
    def n_dim(self, t, a):
        i = t.args[1]
        s = T.shape(a[0])
        if s is not None and -len(s) <= i < len(s): return self(s[i]) if s[i] is not t else t
        n = T.ndim(a[0])
        if n is not None and i >= 0: i = i - n
        if a[0].op in ("poly",): pass
        return self.fin(t, mk("dim", a[0], i))
    def n_ndim(self, t, a):
        n = T.ndim(a[0])
        return NUM(Fraction(n)) if n is not None else self.fin(t, mk("ndim", a[0]))
    def n_numel(self, t, a):
        s = T.shape(a[0])
        if s is not None:
            d = {(): Fraction(1)}
            for z in s: d = self.pmul(d, self.topoly(self(z)))
            return self.frompoly(d)
        return self.fin(t, mk("numel", a[0]))
    def n_inverse(self, t, a):
        """inverse of a matrix of known numbers, and of one matrix repeated"""
        x = a[0]
        if len(a) == 1:
            if x.op == "expand" and T.shape(x.args[0]) is not None and T.shape(x) is not None and len(T.shape(x.args[0])) >= 2 and T.shape(x.args[0])[-2:] == T.shape(x)[-2:]:
                i = self.n_inverse(t, (x.args[0],))
                if i.shape_ in (None, False): i.shape_ = T.shape(x.args[0])
                return self.fin(t, self.mkexpand(i, tuple(self(z) for z in T.shape(x))))
            m = self.numbers(x)
            if m is not None:
                n = len(m)
                if all(len(r) == n for r in m):
                    w = [list(r) + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(m)]
                    for c in range(n):
                        p = next((r for r in range(c, n) if w[r][c]), None)
                        if p is None: break
                        w[c], w[p] = w[p], w[c]
                        w[c] = [v / w[c][c] for v in w[c]]
                        for r in range(n):
                            if r != c and w[r][c]: w[r] = [u - w[r][c] * v for u, v in zip(w[r], w[c])]
                    else:
                        r = mk("tensor", mk("list", *[mk("list", *[NUM(v) for v in row[n:]]) for row in w]))
                        r.kind_ = ("tensor", 2, "float"); r.shape_ = (NUM(Fraction(n)),) * 2
                        return r
        return self.fin(t, mk("inverse", *a))
    def numbers(self, x):
        """rows of a literal matrix of numbers"""
        if x.op == "clone" or x.op == "float": x = x.args[0]
        if x.op != "tensor" or x.args[0].op != "list": return None
        m = []
        for r in x.args[0].args:
            if not isinstance(r, Term) or r.op not in ("list", "tuple") or not all(isinstance(v, Term) and is_num(v) for v in r.args): return None
            m.append([Fraction(cval(v)) for v in r.args])
        return m
    def n_attr(self, t, a):
        if a[0] == "shape":
            s = T.shape(a[1])
            if s is not None: return mk("tuple", *[self(z) for z in s])
        if a[0] in ("device", "dtype"): return mk("attr", a[0], mk("anytensor"))
        return self.fin(t, mk("attr", *a))
    def n_call(self, t, a):
        n = a[0]
        if n in ("torch.from_numpy", "numpy.asarray", "numpy.ascontiguousarray", "torch.as_tensor", "torch.asarray"): 
            if len(a) == 2 or all(x.op == "kw" and x.args[0] in ("device",) for x in a[2:]): return a[1]
        if n in ("float", "int") and len(a) == 2:
            k = kind(a[1])[0]
            if n == "float": return a[1]
            if k == "int": return a[1]
        return self.fin(t, mk("call", *a))
    def n_fold(self, t, a): return self.fin(t, mk("fold", *a))
    def crosscat(self, t, x, y, k, m):
        """the three components of a vector product next to each other"""
        n = T.ndim(x); s = T.shape(x); sy = T.shape(y)
        if s is None or sy is None or not (is_num(self(s[k])) and cval(self(s[k])) == 3): return None
        ky = k - (n - m)
        if ky < 0 or not (is_num(self(sy[ky])) and cval(self(sy[ky])) == 3): return None
        unit = lambda i: mk("slice", NUM(Fraction(i)), NUM(Fraction(i + 1)), NONE)
        px = lambda i: self.topoly(self.index(t, x, [FULL] * k + [self.normslice(unit(i), NUM(Fraction(3)))]))
        py = lambda i: self.topoly(self.index(t, y, [FULL] * ky + [self.normslice(unit(i), NUM(Fraction(3)))]))
        ps = []
        for i in range(3):
            j, l = (i + 1) % 3, (i + 2) % 3
            q = self.frompoly(self.padd(self.pmul(px(j), py(l)), {f: -c for f, c in self.pmul(px(l), py(j)).items()}))
            if T.ndim(q) != n: return None
            ps.append(q)
        if all(self.ishape(q) is not None for q in ps): return self.mkcat(t, ps, k, t)
        return self.fin(t, mk("cat", mk("list", *ps), NUM(Fraction(k - n))))
    def n_cross(self, t, a):
        """bilinear: a contraction with the alternating tensor"""
        kws = [x for x in a[2:] if not (x.op == "kw" and x.args[0] == "dim")]
        d = T.getkw(mk("x", *a), "dim"); n = T.ndim(a[0]); x, y = a[:2]
        s = T.shape(a[0])
        if (d is None or d is NONE) and s is not None:
            k3 = [k for k, z in enumerate(s) if is_num(self(z)) and cval(self(z)) == 3]
            if k3: d = NUM(Fraction(k3[0]))
        if d is not None and is_num(d) and n is not None: d = NUM(Fraction(int(cval(d)) % n - n))
        if d is not None and is_num(d) and n is not None and T.ndim(y) is not None and T.ndim(y) <= n and T.ndim(y) >= -cval(d):
            k = n + int(cval(d)); m = T.ndim(y)
            la = [("x", i) for i in range(n)]; lb = la[n - m:]; lo = list(la)
            la[k] = "p"; lb[k - (n - m)] = "q"; lo[k] = "r"
            r = self.crosscat(t, x, y, k, m)
            if r is not None: return r
            e = mk("eps"); e.kind_ = ("tensor", 3, "int"); e.shape_ = (NUM(Fraction(3)),) * 3
            r = self.sumprod(t, [["p", "q", "r"], la, lb], lo, [e, x, y])
            if r is not None: return r
        s = srt([x, y])
        if s[0] is x: r = mk("cross", x, y, *([T.kw("dim", d)] if d is not None else []), *kws); return self.fin(t, r)
        r = self.fin(t, mk("cross", y, x, *([T.kw("dim", d)] if d is not None else []), *kws))
        return self.frompoly({((r, Fraction(1)),): Fraction(-1)})

def num_ok(x):
    return num(cval(x)) if is_num(x) else 0

# ---------------------------------------------------------------- canonical binder names
def canon(t):
    """de Bruijn style renaming of loop indices and loop-carried variables"""
    memo = {}
    def go(x, env, depth):
        if not x.args: return x
        if x.op in ("ix",): return env.get(x, x)
        if x.op == "mu": return env.get(x, x)
        key = (x, depth, tuple(sorted(((k.op, k.args, v.args) for k, v in env.items()), key=repr))) if env else (x, depth)
        r = memo.get(key)
        if r is not None: return r
        if x.op in T.BINDERS:
            lv = x.args[0]
            e2 = dict(env); e2[mk("ix", lv)] = mk("ix", depth)
            if x.op == "fold":
                for i, fv in enumerate(x.args[4:]):
                    e2[fv.args[0]] = mk("mu", depth, i)
                args = [depth, go(x.args[1], env, depth) if x.args[1].op != "while" else go(x.args[1], e2, depth + 1), go(x.args[2], e2, depth + 1), go(x.args[3], e2, depth + 1)]
                for fv in x.args[4:]:
                    args.append(mk("fv", e2[fv.args[0]], go(fv.args[1], env, depth), go(fv.args[2], e2, depth + 1)))
                r = mk("fold", *args)
            else:
                args = [depth]
                for i, y in enumerate(x.args[1:]):
                    args.append(go(y, env if i == 0 else e2, depth if i == 0 else depth + 1) if isinstance(y, Term) else y)
                r = mk(x.op, *args)
        else:
            r = mk(x.op, *[go(y, env, depth) if isinstance(y, Term) else y for y in x.args])
        memo[key] = r
        if r.kind_ is None and x.kind_ is not None: r.kind_ = x.kind_
        return r
    return go(t, {}, 0)

def normal(t, facts=None):
    import sys
    sys.setrecursionlimit(20000)
    return canon(Norm(facts)(t))
