"""Alignment of two normal forms and the verdict on their difference.

`compare(a, b)` aligns the two graphs and returns the minimal pairs on which they differ.  A pair is *definite* when
both sides consist of operations whose meaning the normaliser models, so that the difference cannot be a mere change
of spelling; otherwise it is *undecided* and never reported as a violation.
"""
from . import terms as T
from .terms import Term, mk, NONE, TRUE, FALSE, is_const

# operations the analysis gives no exact meaning to: a difference inside them is never definite
VAGUE = {"fold", "flatmap", "first", "exists", "while", "whilecount", "undef", "lost", "cycle", "opaque", "splatarg", "store", "einsum", "reshape", "unview", "mu", "dictupd", "idxmut", "sumfold", "slicelen", "undefined"}
# structural operations with the same name may be aligned argument by argument
SOFT = {"reshape", "expand", "repeat", "dim", "numel", "ndim", "slicekeep", "V", "unsqueeze", "squeeze", "getitem", "len", "trunc", "filled", "stack", "cat", "list", "map", "tuple", "tensor", "item", "concat", "cast", "arange", "sorted"}
MODELLED = {"put", "hits", "poly", "maximum", "minimum", "where", "bdd", "ite", "pos", "nonneg", "zero", "max", "min", "sum", "mean", "prod", "any", "all", "argmin", "argmax", "matmul", "sumprod", "eps", "exp", "log", "sin", "cos", "tan", "acos", "asin", "atan", "atan2", "abs", "sign", "floor", "ceil", "round", "sigmoid", "tanh", "cross", "eye", "filled", "V", "const", "sym", "attr", "inverse", "obj", "tuple", "list", "dict", "kw", "pow", "floordiv", "mod", "is", "str.join", "concat", "nonzero", "nzcol", "unique", "sort", "cumsum", "norm", "normalize", "getitem", "cat", "stack", "map", "ix", "dim", "len", "item", "tensor", "slice", "newaxis", "ellipsis", "isinstance", "call", "cls", "func", "ext", "sorted", "arange", "linspace", "trunc", "outer", "mono", "f", "sel", "sq", "dtype", "splat", "unsqueeze", "expand", "repeat", "slicekeep", "count", "tensor1", "astype", "bool", "strcat", "format", "truth", "in", "eq", "lt", "le", "searchsorted", "set", "range", "reversed", "global", "mod", "rand", "randperm", "empty", "hstack"}

class Pair:
    def __init__(self, a, b, path, definite, why): self.a = a; self.b = b; self.path = path; self.definite = definite; self.why = why
    def __repr__(self):
        return "[%s] at %s: %s  <>  %s" % (self.why, "/".join(self.path) or ".", T.show(self.a, 5)[:300] if isinstance(self.a, Term) else self.a, T.show(self.b, 5)[:300] if isinstance(self.b, Term) else self.b)

def ops(t, limit=20000):
    s = set()
    for x in T.walk(t): s.add(x.op)
    return s
def extcalls(t):
    return {x.args[0] for x in T.walk(t) if x.op == "call" and isinstance(x.args[0], str)}

# a view of one of these would have been moved inside, had the shapes been understood
INNER = {"poly", "store", "cat", "stack", "filled", "ite", "where", "expand", "maximum", "minimum", "sq", "pos", "nonneg", "zero", "bdd", "tensor"}
def vague(x):
    return x.op in VAGUE or x.op == "V" and x.args[0].op in INNER and not (x.args[0].op in ("cat", "stack") and all(e.op == "slice" for e in x.args[1].args))

def sizeish(t):
    """numeric expressions over sizes only: equal values are possible for different graphs"""
    if T.is_num(t): return True
    if t.op in ("dim", "len", "numel", "ndim", "count", "ucount"): return True
    if t.op == "sym": return T.kind(t)[0] == "int"
    if t.op in ("poly", "mono", "f", "ite", "maximum", "minimum", "max", "min", "floordiv", "mod"):
        return all(sizeish(a) for a in t.args if isinstance(a, Term))
    return False

def close(a, b):
    """numbers that may only differ by the rounding of constants"""
    if not (T.is_num(a) and T.is_num(b)): return False
    x, y = T.cval(a), T.cval(b)
    try: return abs(x - y) <= 1e-9 * max(abs(x), abs(y))
    except (TypeError, OverflowError): return False

class Cmp:
    def __init__(self, N=None):
        self.N = N; self.level = 0
        self.pairs = []; self.seen = set(); self.steps = 0
    def leaf(self, a, b, path, why=None):
        d, w = self.judge(a, b)
        self.pairs.append(Pair(a, b, path, d, why or w))
    def judge(self, a, b):
        if not isinstance(a, Term) or not isinstance(b, Term): return True, "payload differs"
        if is_const(a) and is_const(b):
            if close(a, b): return False, "rounding of a constant"
            return True, "constant differs"
        oa, ob = ops(a), ops(b)
        # a vague operation that occurs identically on both sides is a shared atom, not a difference
        sa = {x for x in T.walk(a) if vague(x)}; sb = {x for x in T.walk(b) if vague(x)}
        if sa ^ sb: return False, "involves %s" % ",".join(sorted({x.op for x in sa | sb}))
        pick = {"pymax", "pymin"} if not ((oa | ob) & {"max", "min", "pymaxof", "pyminof", "item", "maximum", "minimum", "sorted", "topk", "cummax"}) else set()
        un = {o for o in (oa | ob) if o not in MODELLED and o not in pick and not o.startswith("str.")}
        if un:
            sa = {x for x in T.walk(a) if x.op in un}; sb = {x for x in T.walk(b) if x.op in un}
            if {x.op for x in sa} ^ {x.op for x in sb}: return False, "involves %s" % ",".join(sorted(un))[:80]
        if extcalls(a) ^ extcalls(b):
            ca = extcalls(a) ^ extcalls(b)
            # a call that merely disappeared or was added around the same operand
            if not (a in set(T.walk(b)) or b in set(T.walk(a))): return False, "calls differ: " + ",".join(sorted(ca))[:80]
            return True, "call dropped or added: " + ",".join(sorted(ca))[:80]
        if sizeish(a) != sizeish(b) and (sizeish(a) or sizeish(b)):
            u, v = (a, b) if sizeish(a) else (b, a)
            while v.op in ("expand", "filled", "V"): v = v.args[0]
            if u is v: return False, "one value against an array of it"
            return True, "size against value"
        if sizeish(a) and a.op != b.op and not (a.op == "sym" and b.op == "sym"):
            sy = {x for x in T.walk(a) if x.op in ("dim", "len", "numel", "ndim", "ite")} | {x for x in T.walk(b) if x.op in ("dim", "len", "numel", "ndim", "ite")}
            return (not sy), "size expression differs"
        if a.op == "V" or b.op == "V":
            if (a.op == "V" and a.args[0] is b) or (b.op == "V" and b.args[0] is a):
                v = a if a.op == "V" else b
                sel, out = v.args[1].args, tuple(v.args[2])
                if all(isinstance(e, Term) and e.op == "slice" for e in sel) and out == tuple(range(len(sel))):
                    return False, "slice of unknown extent"
                return True, "view dropped or added"
        return True, "differs"
    def cmp(self, a, b, path=()):
        if a is b: return
        self.steps += 1
        if self.steps > 60000 or len(self.pairs) > 200: return
        if (a, b) in self.seen: return
        self.seen.add((a, b))
        if not isinstance(a, Term) or not isinstance(b, Term):
            self.leaf(a, b, path); return
        if self.N is not None and self.level < 4 and (a.op == "ite" or b.op == "ite") and not (a.op == b.op and a.args[0] is b.args[0]):
            v = (a if a.op == "ite" else b).args[0]
            got = []
            for q in (True, False):
                c = Cmp(self.N); c.level = self.level + 1
                c.cmp(self.N.restrict(a, v, q), self.N.restrict(b, v, q), path + ("if" if q else "else",))
                got.append(c.pairs)
            one = not got[0] or not got[1]
            known = not (ops(v) - MODELLED) and not (ops(v) & VAGUE) and not any(x.op == "attr" and x.args[0] == "device" for x in T.walk(v))
            every = all(any(p.definite for p in g) for g in got)
            for p in got[0] + got[1]:
                if one and (countish(v)): p.definite = False; p.why = "differs only under a condition on a size"
                if not known and not every: p.definite = False; p.why = "differs under an unknown condition"
                self.pairs.append(p)
            return
        if a.op != b.op:
            self.leaf(a, b, path); return
        o = a.op
        if o in ("const", "sym"):
            self.leaf(a, b, path, "constant differs" if o == "const" else "different input used"); return
        if o == "poly":
            ma, mb = list(a.args), list(b.args)
            ua = [m for m in ma if m not in mb]; ub = [m for m in mb if m not in ma]
            if len(ua) == len(ub):
                rest = list(ub); pr = []
                for m in ua:
                    n = self.best(m, rest)
                    if n is None: self.leaf(a, b, path); return
                    rest.remove(n); pr.append((m, n))
                for m, n in pr: self.mono(m, n, path + ("term",), a, b)
            else: self.leaf(a, b, path)
            return
        if o in ("maximum", "minimum", "bdd", "tuple", "list", "unique") and o == "bdd":
            sa, sb = self.atoms(a), self.atoms(b)
            ua = [x for x in sa if x not in sb]; ub = [x for x in sb if x not in sa]
            if not ua and not ub: self.leaf(a, b, path, "condition differs"); return
            if len(ua) == len(ub):
                rest = list(ub)
                for m in ua:
                    n = self.best(m, rest); 
                    if n is None: self.leaf(a, b, path); return
                    rest.remove(n); self.cmp(m, n, path + ("cond",))
                return
            self.leaf(a, b, path, None); return
        if o in ("ite",) and a.args[0] is not b.args[0]:
            n0 = len(self.pairs)
            self.cmp(a.args[0], b.args[0], path + ("condition",))
            if len(self.pairs) > n0: return
        if o == "attr":
            if a.args[0] != b.args[0]: self.leaf(a, b, path); return
        if o == "call" and a.args[0] != b.args[0]:
            self.leaf(a, b, path); return
        if len(a.args) != len(b.args):
            self.leaf(a, b, path); return
        if o == "sumprod" and a.args[0] is not b.args[0]:
            xa, xb = list(a.args[1:]), list(b.args[1:])
            ua = [x for x in xa if x not in xb]; ub = [x for x in xb if x not in xa]
            if not ua and not ub: self.leaf(a, b, path, "contraction differs"); return
            if len(ua) != len(ub): self.leaf(a, b, path); return
            rest = list(ub); n1 = len(self.pairs)
            for x in ua:
                y = self.best(x, rest); rest.remove(y); self.cmp(x, y, path + ("factor",))
            if len(self.pairs) == n1: self.leaf(a, b, path)
            return
        if o == "V" and a.args[0] is not b.args[0] and a.args[1:] != b.args[1:]:
            self.leaf(a, b, path); return
        if o in ("maximum", "minimum") and len(a.args) == 2:
            (x, y), (u, v) = a.args, b.args
            if x is v or y is u or (x is not u and y is not v and self.sim(x, v) + self.sim(y, u) > self.sim(x, u) + self.sim(y, v)): u, v = v, u
            self.cmp(x, u, path + (o,)); self.cmp(y, v, path + (o,))
            return
        n0 = len(self.pairs)
        if o in ("filled", "expand") and path and any(p in ("term", "factor", "maximum", "minimum", "cond") or p.startswith(("where", "sq")) for p in path):
            ta, tb = [[len(y.args) for y in x.args if isinstance(y, Term) and y.op == "tuple"] for x in (a, b)]
            if ta != tb: self.pairs.append(Pair(a, b, path, False, "shape of an operand that is broadcast")); return
        for i, (x, y) in enumerate(zip(a.args, b.args)):
            if x is y: continue
            if not isinstance(x, Term) or not isinstance(y, Term):
                if x != y:
                    if o in T.BINDERS and i == 0: continue
                    self.pairs.append(Pair(a, b, path, o not in VAGUE, "%s differs" % o))
                continue
            self.cmp(x, y, path + ((x.args[0] if x.op == "kw" else o + (str(i) if len(a.args) > 1 else "")),))
        if o == "fold" and len(self.pairs) > n0:
            # a loop summary is only compared as a whole
            sub = self.pairs[n0:]
    def atoms(self, b):
        out = []
        def go(x):
            if isinstance(x, Term) and x.op == "bdd":
                if x.args[0] not in out: out.append(x.args[0])
                go(x.args[1]); go(x.args[2])
        go(b); return out
    def best(self, m, rest):
        if not rest: return None
        c = sorted(rest, key=lambda n: -self.sim(m, n))
        return c[0]
    def sim(self, m, n):
        if m is n: return 100
        s = 0
        if isinstance(m, Term) and isinstance(n, Term):
            if m.op == n.op: s += 2
            am = set(T.walk(m)); an = set(T.walk(n))
            s += 3.0 * len(am & an) / max(1, len(am | an))
        return s
    def mono(self, m, n, path, a, b):
        if m.args[0] != n.args[0]:
            if set(m.args[1:]) == set(n.args[1:]):
                d, w = self.judge(m, n) 
                near = abs(m.args[0] - n.args[0]) <= 1e-9 * max(abs(m.args[0]), abs(n.args[0])) if not isinstance(m.args[0], Term) and not isinstance(n.args[0], Term) else False
                self.pairs.append(Pair(m, n, path, False if near else True if not sizeish(m) else d, "coefficient differs")); return
            self.leaf(m, n, path); return
        fa, fb = list(m.args[1:]), list(n.args[1:])
        ua = [f for f in fa if f not in fb]; ub = [f for f in fb if f not in fa]
        if len(ua) == len(ub) == 1 and ua[0].args[1] == ub[0].args[1]:
            self.cmp(ua[0].args[0], ub[0].args[0], path); return
        if len(ua) == len(ub) and ua:
            rest = list(ub); pr = []
            for f in ua:
                c = [g for g in rest if g.args[1] == f.args[1]]
                if not c: self.leaf(m, n, path); return
                g = self.best(f, c); rest.remove(g); pr.append((f, g))
            for f, g in pr: self.cmp(f.args[0], g.args[0], path)
            return
        self.leaf(m, n, path)

def countish(v):
    """a condition over sizes only"""
    return v.op in ("pos", "nonneg", "zero", "eq", "ne", "lt", "le") and all(sizeish(x) for x in v.args if isinstance(x, Term))

def compare(a, b, N=None):
    c = Cmp(N); c.cmp(a, b)
    return c.pairs
