"""Entry-by-entry normal form of small arrays.

Arrays with few entries (vectors, rotation matrices, homogeneous transforms, and batches of them) are compared entry
by entry: every entry is selected from the normal form, contractions and sums over axes of at most six entries are
written out, and the resulting scalar expressions are normalised again.  Code that builds a matrix row by row, by item
stores, or by matrix algebra then reaches the same form.
"""
import itertools
from fractions import Fraction
from . import terms as T
from .terms import Term, mk, NONE, is_num, cval, kind
from .norm import FULL, NEWAX, NUM, ONE_, ZERO, srt

SMALL = 6; LIMIT = 260

class Elem:
    def __init__(self, N): self.N = N; self.memo = {}; self.steps = 0
    def deep(self, x):
        r = self.memo.get(x)
        if r is not None: return r
        self.steps += 1
        if self.steps > 60000: raise RecursionError("entry budget")
        r = self.deep_(x)
        if r is not x and r.op in ("V",) and self.steps < 50000 and r not in self.memo:
            r2 = self.deep_(r)
            if r2 is not r: r = r2
        self.memo[x] = r
        return r
    def scalar(self, x): return T.shape(x) == () or not T.is_tensor_kind(kind(x))
    def deep_(self, x):
        o = x.op
        if o in ("const", "sym") or not any(isinstance(a, Term) for a in x.args): return x
        N = self.N
        if o == "filled":
            if x.args[1] is NONE or x.args[1].op == "tuple" and not x.args[1].args: return self.deep(x.args[0])
            return x
        if o == "V":
            y, sel, out = x.args
            if y.op == "eye" and not out and all(is_num(e) for e in sel.args): return NUM(Fraction(int(len({cval(e) for e in sel.args}) == 1)))
            if y.op == "eps" and not out and len(sel.args) == 3 and all(is_num(e) for e in sel.args):
                i, j, k = [int(cval(e)) for e in sel.args]
                return NUM(Fraction((i - j) * (j - k) * (k - i) // 2))
            if y.op == "tensor" and not out and all(is_num(e) for e in sel.args):
                v = T.constval(y)
                try:
                    for e in sel.args: v = v[int(cval(e))]
                    if isinstance(v, int): return N.lit(v, ())
                except (TypeError, IndexError): pass
                w = y.args[0]
                for e in sel.args:
                    if not isinstance(w, Term) or w.op not in ("list", "tuple") or not -len(w.args) <= cval(e) < len(w.args): w = None; break
                    w = w.args[int(cval(e))]
                if isinstance(w, Term) and w.op not in ("list", "tuple"): return self.deep(w)
            if y.op in ("linspace", "arange") and not out and len(sel.args) == 1 and is_num(sel.args[0]):
                j = Fraction(cval(sel.args[0])); g = lambda n, d=None: T.getkw(y, n, d)
                if y.op == "arange" and g("start") is None and g("step") is None: return NUM(j)
                lo, hi, n = g("start"), g("end"), g("steps")
                if lo is not None and hi is not None and n is not None and is_num(lo) and is_num(hi) and is_num(n) and cval(n) > 1: return NUM(Fraction(cval(lo)) + j * (Fraction(cval(hi)) - Fraction(cval(lo))) / (int(cval(n)) - 1))
            if y.op == "reshape" and not out and all(is_num(e) for e in sel.args):
                r = self.unreshape(x, y, [int(cval(e)) for e in sel.args])
                if r is not None: return self.deep(r)
            y2 = self.deep(y) if y.op != "sym" else y
            if y2 is not y:
                try: return N.view(x, y2, list(sel.args), list(out))
                except (ValueError, KeyError): return x
            return x
        if o == "sq":
            y = self.deep(x.args[0]); p = N.topoly(y)
            if len(p) <= 6:
                r = self.shape_like(N.frompoly(N.pmul(p, p)), x)
                if r is not None: return r
        if o == "sumprod":
            r = self.product(x)
            if r is not None: return self.deep(r)
        if o == "sum":
            r = self.summed(x)
            if r is not None: return self.deep(r)
        if o == "normalize" and is_num(T.getkw(x, "dim", NONE)) and len(x.args) >= 1:
            r = self.normalized(x)
            if r is not None: return self.deep(r)
        na = tuple(self.deep(a) if isinstance(a, Term) else a for a in x.args)
        if na == x.args: return x
        try: return N.rebuild(x, na)
        except (ValueError, KeyError): return x
    def unreshape(self, t, y, idx):
        """entry of a reshaped array: the entry of the source at the same position in storage order"""
        so = self.N.ishape(y.args[0]); sn = self.N.ishape(y)
        if so is None or sn is None: return None
        lin = 0
        for i, d in zip(idx, sn): lin = lin * d + (i + d if i < 0 else i)
        src = []
        for d in reversed(so): src.append(lin % d); lin //= d
        if lin: return None
        return self.N.index(t, y.args[0], [NUM(Fraction(j)) for j in reversed(src)])
    def product(self, x):
        """contraction over axes of at most six entries written out as a sum of products"""
        N = self.N
        ei, eo = cval(x.args[0]).split("->"); ei = ei.split(",")
        size = {}
        for q, y in zip(ei, x.args[1:]):
            s = N.ishape(y) 
            sh = T.shape(y)
            if sh is None: return None
            for c, d in zip(q, sh):
                d = N(d)
                if is_num(d) and cval(d) != 1: size[c] = int(cval(d))
                else: size.setdefault(c, int(cval(d)) if is_num(d) else None)
        cs = sorted({c for q in ei for c in q} - set(eo))
        if any(size.get(c) is None or size[c] > SMALL for c in cs): return None
        total = {}
        for vals in itertools.product(*[range(size[c]) for c in cs]):
            m = dict(zip(cs, vals))
            p = {(): Fraction(1)}
            for q, y in zip(ei, x.args[1:]):
                sh = T.shape(y)
                free = [c for c in q if c not in m]
                sel = []
                for c, d in zip(q, sh):
                    if c in m: sel.append(NUM(Fraction(0 if is_num(d) and cval(d) == 1 else m[c])))
                    else: sel.append(FULL)
                out = [q.index(c) if c in free else -1 for c in eo]
                while out and out[0] == -1: out = out[1:]
                z = self.deep(N.view(x, y, sel, out))
                p = N.pmul(p, N.topoly(z))
            total = N.padd(total, p)
        r = N.frompoly(total)
        return self.shape_like(r, x)
    def shape_like(self, r, x):
        if T.shape(r) != T.shape(x) and T.shape(x) and (r.op == "const" or T.shape(r) is None or len(T.shape(r) or ()) < len(T.shape(x))):
            if not self.scalar(x): return self.N.mkexpand(r, T.shape(x)) if T.is_tensor_kind(kind(r)) else None
        return r
    def summed(self, x):
        N = self.N; y = x.args[0]; s = T.shape(y)
        if s is None: return None
        d = T.getkw(x, "dim"); 
        if T.getkw(x, "keepdim") not in (None, T.FALSE): return None
        s = [N(q) for q in s]
        if d is None:
            if not all(is_num(q) for q in s): return None
            n = 1
            for q in s: n *= int(cval(q))
            if n > 16: return None
            idx = list(itertools.product(*[range(int(cval(q))) for q in s]))
        elif is_num(d):
            k = int(cval(d)); k = k + len(s) if k < 0 else k
            if not 0 <= k < len(s) or not is_num(s[k]) or cval(s[k]) > SMALL: return None
            idx = [[FULL] * k + [j] for j in range(int(cval(s[k])))]
        else: return None
        total = {}
        for i in idx:
            z = N.index(x, y, [NUM(Fraction(e)) if isinstance(e, int) else e for e in i])
            total = N.padd(total, N.topoly(self.deep(z)))
        r = N.frompoly(total)
        return self.shape_like(r, x)
    def normalized(self, x):
        N = self.N; y = x.args[0]; s = T.shape(y)
        if s is None: return None
        p = T.getkw(x, "p", NUM(Fraction(2))); eps = T.getkw(x, "eps", None)
        d = int(cval(T.getkw(x, "dim"))); k = d + len(s) if d < 0 else d
        if not (is_num(p) and cval(p) == 2) or not is_num(N(s[k])) or cval(N(s[k])) > SMALL: return None
        eps = eps if eps is not None else NUM(Fraction(1, 10 ** 12))
        tot = {}
        for j in range(int(cval(N(s[k])))):
            z = N.index(x, y, [FULL] * k + [NUM(Fraction(j))])
            tot = N.padd(tot, N.topoly(N.sq(z)))
        nrm = N.frompoly(N.ppow(N.frompoly(tot), Fraction(1, 2)))
        den = mk("maximum", *srt([nrm, eps]))
        if den.kind_ is None: den.kind_ = ("tensor", len(s) - 1, "float")
        if den.shape_ is None: den.shape_ = tuple(q for j, q in enumerate(s) if j != k)
        if len(s) > 1: den = N.index(x, den, [FULL] * k + [NEWAX])
        return N.frompoly(N.pmul(N.topoly(y), N.ppow(den, -1)))
    # ------------------------------------------------------------------ entries
    def entries(self, x):
        """[(index, entry)] of a small array, or None"""
        N = self.N
        s = N.ishape(x)
        if s is None:
            sh = T.shape(x)
            if sh is None or not sh: return None
            s = [N(d) for d in sh]
            s = [int(cval(d)) if is_num(d) else None for d in s]
        n = 1
        for d in s: n *= d if d is not None else 10 ** 6
        use = [True] * len(s)
        if n > LIMIT:
            n = 1; use = [False] * len(s)
            for k in range(len(s) - 1, -1, -1):
                if s[k] is not None and s[k] <= 16 and n * s[k] <= LIMIT: use[k] = True; n *= s[k]
                else: break
            if not any(use): return [((), self.deep(x))]
        return [(i, None) for i in itertools.product(*[range(s[k]) if use[k] else [FULL] for k in range(len(s))])]
    def entry(self, x, i):
        return self.deep(self.N.index(x, x, [NUM(Fraction(j)) if isinstance(j, int) else j for j in i]))
    def pairs(self, a, b):
        """entry pairs of two arrays of one shape; None if they cannot be compared entry by entry"""
        if not T.is_tensor_kind(kind(a)) or not T.is_tensor_kind(kind(b)): return None
        sa, sb = T.shape(a), T.shape(b)
        if sa is None or sb is None or len(sa) != len(sb) or any(self.N(x) is not self.N(y) for x, y in zip(sa, sb)): return None
        if not sa: return [((), self.deep(a), self.deep(b))]
        ea, eb = self.entries(a), self.entries(b)
        if ea is None or eb is None: return None
        return self.lazily(a, b, ea, eb)
    def lazily(self, a, b, ea, eb):
        """entries are written out one at a time, from the middle outwards, so that a difference is found early"""
        z = list(zip(ea, eb)); z = z[len(z) // 2:] + z[:len(z) // 2][::-1]
        for (i, x), (_, y) in z: yield (i, x, y) if x is not None else (i, self.entry(a, i), self.entry(b, i))
