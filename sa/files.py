"""A virtual directory model: text values, file objects and directory listings.

A scenario may describe the directory a data loader reads as a map from paths to listings and text files.  Texts are
sequences of known pieces and *tokens*: unknown non-empty words without white space.  Listings are given in an
arbitrary (unsorted) order, as os.listdir and glob.glob do.  Nothing is read from a disk.
"""
import posixpath, fnmatch, re, hashlib
from . import terms as T
from .terms import Term, mk, const, NONE, TRUE, FALSE, is_const, cval, kind
from .values import *

WS = " \t\n\r\x0b\x0c"

def token(path, i, j): return T.sym("tok:%s:%d:%d" % (path, i, j), ("str",))
def is_token(t): return isinstance(t, Term) and t.op == "sym" and str(t.args[0]).startswith("tok:")

def parts(t):
    """pieces of a text: python strings and tokens; None when the text is not of that form"""
    if is_const(t): return [cval(t)] if isinstance(cval(t), str) else None
    if is_token(t): return [t]
    if t.op == "str":
        out = []
        for a in t.args:
            if is_const(a) and isinstance(cval(a), str): out.append(cval(a))
            elif is_token(a): out.append(a)
            elif a.op == "fmt" and a.args[1] is NONE and is_token(a.args[0]): out.append(a.args[0])
            else: return None
        return out
    return None
def has_token(p): return any(isinstance(x, Term) for x in p)
def text(p):
    out = []
    for x in p:
        if isinstance(x, str):
            if not x: continue
            if out and isinstance(out[-1], str): out[-1] += x
            else: out.append(x)
        else: out.append(x)
    if not out: return const("")
    if len(out) == 1: return const(out[0]) if isinstance(out[0], str) else out[0]
    return mk("str", *[const(x) if isinstance(x, str) else x for x in out])
def split(p, sep=None, maxsplit=-1):
    out = [[]]; n = 0
    if sep is None:
        cur = []
        res = []
        for x in p:
            if isinstance(x, Term): cur.append(x); continue
            for ch in x:
                if ch in WS:
                    if cur: res.append(cur); cur = []
                else: cur.append(ch)
        if cur: res.append(cur)
        return res if maxsplit < 0 else None
    if has_token(p) and not all(c in WS + "," for c in sep): return None
    for x in p:
        if isinstance(x, Term): out[-1].append(x); continue
        bits = x.split(sep)
        out[-1].append(bits[0])
        for b in bits[1:]:
            if maxsplit >= 0 and n >= maxsplit: out[-1].append(sep + b)
            else: out.append([b]); n += 1
    return out
def strip(p, chars=None, left=True, right=True):
    p = list(p)
    if chars is not None and has_token(p) and not all(c in WS + "," for c in chars):
        if (left and p and isinstance(p[0], Term)) or (right and p and isinstance(p[-1], Term)): return None
    f = lambda s, side: getattr(s, side)(*([] if chars is None else [chars]))
    if left:
        while p and isinstance(p[0], str):
            p[0] = f(p[0], "lstrip")
            if p[0]: break
            p.pop(0)
    if right:
        while p and isinstance(p[-1], str):
            p[-1] = f(p[-1], "rstrip")
            if p[-1]: break
            p.pop()
    return p
def lines(p, keep):
    out = [[]]
    for x in p:
        if isinstance(x, Term): out[-1].append(x); continue
        bits = x.split("\n")
        for k, b in enumerate(bits):
            out[-1].append(b + ("\n" if keep and k < len(bits) - 1 else ""))
            if k < len(bits) - 1: out.append([])
    if not any(x for x in out[-1]): out.pop()
    return out

def natural(s): return [(0, int(x), "") if x.isdigit() else (1, 0, x) for x in re.split(r"(\d+)", s) if x != ""]

_iv = {}
def ivec(t):
    """the integers of a vector (or scalar) built by numpy from known integers, else None"""
    r = _iv.get(t, 0)
    if r == 0: r = _iv[t] = _ivec(t)
    return r
def _int(t): return cval(t) if is_const(t) and isinstance(cval(t), int) and not isinstance(cval(t), bool) else None
def _ivec(t):
    if is_const(t): return _int(t)
    o = t.op
    if o == "numpy":
        x = t.args[0]
        if x.op == "arange":
            kw = {a.args[0]: a.args[1] for a in x.args if a.op == "kw"}
            v = [_int(kw.get(k, const(d))) for k, d in (("start", 0), ("end", None), ("step", 1))] if "end" in kw else [None]
            if any(y is None for y in v) or v[2] == 0 or len(range(*v)) > 4096: return None
            return tuple(range(*v))
        if x.op == "tensor" and x.args and x.args[0].op == "list":
            v = [_int(y) for y in x.args[0].args]
            return tuple(v) if all(y is not None for y in v) else None
        return ivec(x) if x.op in ("clone", "cast") else None
    if o == "clone": return ivec(t.args[0])
    if o == "cast": return ivec(t.args[0]) if T.dtkind(t.args[1].args[0]) == "int" else None
    if o in ("add", "sub", "mul", "floordiv") and len(t.args) == 2 and all(isinstance(a, Term) for a in t.args):
        a = ivec(t.args[0])
        if a is None: return None
        b = ivec(t.args[1])
        if b is None: return None
        f = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "floordiv": lambda x, y: x // y if y else None}[o]
        if isinstance(a, int) and isinstance(b, int): return f(a, b)
        n = len(a) if isinstance(a, tuple) else len(b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) != len(b): return None
        A = a if isinstance(a, tuple) else (a,) * n; B = b if isinstance(b, tuple) else (b,) * n
        r = tuple(f(x, y) for x, y in zip(A, B))
        return None if None in r else r
    if o == "getitem":
        a = ivec(t.args[0])
        if not isinstance(a, tuple): return None
        i = t.args[1]
        if i.op == "slice" and all(x is NONE or _int(x) is not None for x in i.args): return a[slice(*[cval(x) for x in i.args])]
        j = _int(i)
        return a[j] if j is not None and -len(a) <= j < len(a) else None
    return None

class Files:
    fs = None
    def fs_node(self, p):
        p = posixpath.normpath(p)
        return self.fs.get(p)
    def fs_isdir(self, p):
        p = posixpath.normpath(p)
        return isinstance(self.fs.get(p), (list, tuple)) and not (self.fs[p] and self.fs[p][0] in ("rows", "text"))
    def fs_parts(self, p):
        n = self.fs_node(p)
        if not isinstance(n, tuple): return None
        if n[0] == "text": return [n[1]]
        if n[0] != "rows": return None
        out = []
        for i, r in enumerate(n[1]):
            if isinstance(r, str): out.append(r)
            else:
                for j, x in enumerate(r):
                    if j: out.append(" ")
                    out.append(x if x is not None else token(posixpath.normpath(p), i, j))
            out.append("\n")
        return out
    PATHFN = {"join", "normpath", "basename", "dirname", "isfile", "isdir", "exists", "splitext", "split", "abspath", "realpath", "expanduser"}
    def fs_call(self, st, name, args, kwargs):
        """value of a file-system or ordering function when its arguments are known; None: not handled here"""
        if name.startswith("os.path.") and name[8:] in self.PATHFN and not kwargs:
            ts = [self.snapshot(st, a) for a in args]
            if name[8:] in ("abspath", "realpath", "expanduser") and all(is_const(t) for t in ts): return const(posixpath.normpath(cval(ts[0])))
            if not all(is_const(t) and isinstance(cval(t), str) for t in ts): return self.fs_path(name[8:], ts)
            vs = [cval(t) for t in ts]
            f = name[8:]
            if f in ("isfile", "isdir", "exists"):
                if self.fs is None: return None
                d, n = self.fs_isdir(vs[0]), self.fs_node(vs[0])
                return const(d if f == "isdir" else n is not None if f == "exists" else (n is not None and not d))
            r = getattr(posixpath, f)(*vs)
            return TupleVal([const(x) for x in r]) if isinstance(r, tuple) else const(r)
        if self.fs is None: return None
        if name in ("os.listdir", "os.scandir") and len(args) == 1:
            p = self.snapshot(st, args[0])
            if not is_const(p): return None
            if not self.fs_isdir(cval(p)): self.event(st, "nofile", cval(p)); self.do_raise(st, "FileNotFoundError"); st.dead = True; raise Dead()
            return self.alloc(st, Lst([const(x) for x in self.fs_node(cval(p))]))
        if name in ("glob.glob", "glob.iglob") and len(args) == 1 and not kwargs:
            p = self.snapshot(st, args[0])
            if not is_const(p): return None
            d, pat = posixpath.split(cval(p))
            if any(c in d for c in "*?["): return None
            return self.alloc(st, Lst([const(posixpath.join(d, x)) for x in (self.fs_node(d) if self.fs_isdir(d) else []) if fnmatch.fnmatchcase(x, pat)]))
        if name in ("natsort.natsorted", "natsort.os_sorted") and args:
            return self.ordered(st, args[0], kwargs, natural if name.endswith("natsorted") else natural)
        if name in ("imageio.imread", "imageio.v2.imread", "cv2.imread") and args:
            p = self.snapshot(st, args[0])
            t = self.mark(mk("call", "imread", p, *([mk("ext", name)] if name.startswith("cv2") else []), *[self.snapshot(st, a) for a in args[1:]], *self.kws(st, kwargs)))
            dims = None
            if is_const(p) and self.fs is not None:
                for sub, d in self.fs.get("*images", ()):
                    if sub in cval(p): dims = d; break
            t.kind_ = ("ndarray", len(dims) if dims else None, "int")
            if dims: t.shape_ = tuple(const(x) if isinstance(x, int) else T.sym(x, ("int",)) for x in dims)
            return self.wrap(t)
        if name == "numpy.loadtxt" and args:
            ts = [self.snapshot(st, a) for a in args] + self.kws(st, {k: v for k, v in kwargs.items() if not (k == "dtype" and self.canon_dtype(self.snapshot(st, v)) == "float64")})
            t = self.mark(mk("call", "numpy.loadtxt", *ts))
            t.kind_ = ("ndarray", 2, "float"); t.shape_ = (const(4), const(4))
            return self.wrap(t)
        if name == "open" and args:
            p = self.snapshot(st, args[0])
            if not is_const(p): return None
            mode = self.snapshot(st, args[1]) if len(args) > 1 else self.snapshot(st, kwargs["mode"]) if "mode" in kwargs else const("r")
            self.event(st, "open", [p, mode])
            if not (is_const(mode) and set(cval(mode)) <= set("rt")): return None
            if self.fs_parts(cval(p)) is None:
                self.event(st, "nofile", cval(p)); self.do_raise(st, "FileNotFoundError"); st.dead = True; raise Dead()
            t = mk("file", p); t.kind_ = ("file",)
            return t
        return None
    def fs_path(self, f, ts):
        """path functions over texts with tokens: the join of known directories and a word"""
        ps = [parts(t) for t in ts]
        if any(p is None for p in ps): return None
        if f == "join":
            out = []
            for p in ps:
                if p and isinstance(p[0], str) and p[0].startswith("/"): out = list(p); continue
                if out and not (isinstance(out[-1], str) and out[-1].endswith("/")): out.append("/")
                out += p
            return text(out)
        return None
    def file_lines(self, t): return [text(l) for l in lines(self.fs_parts(cval(t.args[0])), True)]
    def file_method(self, st, t, name, args, kwargs):
        if name in ("__enter__",): return t
        if name in ("close", "__exit__", "flush"): return NONE
        if name == "read" and not args: return text(self.fs_parts(cval(t.args[0])))
        if name == "readlines" and not args: return self.alloc(st, Lst(self.file_lines(t)))
        self.event(st, "method", (name, t, ()))
        return self.wrap(self.mark(mk("method", name, t, *[self.snapshot(st, a) for a in args])))
    # ------------------------------------------------------------ texts with tokens
    def text_method(self, st, t, name, args, kwargs):
        p = parts(t)
        if p is None or kwargs: return None
        at = [self.snapshot(st, self.materialize(st, a)) for a in args]
        if not all(is_const(a) for a in at): return None
        vs = [cval(a) for a in at]
        if name == "split":
            r = split(p, *(vs[:2]))
            return None if r is None else self.alloc(st, Lst([text(x) for x in r]))
        if name == "splitlines" and not vs: return self.alloc(st, Lst([text(x) for x in lines(p, False)]))
        if name in ("strip", "lstrip", "rstrip"):
            r = strip(p, vs[0] if vs else None, name != "rstrip", name != "lstrip")
            return None if r is None else text(r)
        if name == "replace" and len(vs) == 2 and vs[0] and all(c in WS + "," for c in vs[0]):
            return text([x if isinstance(x, Term) else x.replace(*vs) for x in p])
        if name == "startswith" and p and isinstance(p[0], str) and isinstance(vs[0], str) and len(p[0]) >= len(vs[0]): return const(p[0].startswith(vs[0]))
        if name == "startswith" and p and isinstance(p[0], Term) and vs and isinstance(vs[0], str) and vs[0][:1] in "#" + WS: return FALSE
        if name in ("isspace",): return FALSE if has_token(p) else None
        return None
    def text_item(self, t, it):
        p = parts(t)
        if not p or not has_token(p): return None
        if is_const(it) and isinstance(cval(it), int):
            if cval(it) == 0 and isinstance(p[0], str): return const(p[0][0])
            if cval(it) == 0: r = mk("tokchar", p[0]); r.kind_ = ("str",); return r
            if cval(it) > 0 and isinstance(p[0], str) and len(p[0]) > cval(it): return const(p[0][cval(it)])
        if it.op == "slice" and it.args[2] is NONE and all(a is NONE or _int(a) is not None for a in it.args[:2]):
            a, b = [None if x is NONE else cval(x) for x in it.args[:2]]
            if isinstance(p[0], str) and (a or 0) >= 0 and b is not None and 0 <= b <= len(p[0]): return const(p[0][a:b])
            if isinstance(p[0], str) and b is None and a is not None and 0 <= a <= len(p[0]): return text([p[0][a:]] + p[1:])
        return None
    # ------------------------------------------------------------ orderings
    def orderkey(self, st, v):
        v = self.resolve(st, v)
        if isinstance(v, Term):
            if is_const(v): return (cval(v),)
            return None
        its = list(v.items) if isinstance(v, TupleVal) else self.seq_items(st, v) if isinstance(v, Ref) and isinstance(st.heap[v.oid], Lst) else None
        if its is None: return None
        ks = [self.orderkey(st, x) for x in its]
        return None if any(k is None for k in ks) else (tuple(k[0] for k in ks),)
    def ordered(self, st, v, kwargs, conv=None):
        """the sorted list of known items, by a key function evaluated abstractly; None when an order key is not known"""
        items = self.seq_items(st, self.materialize(st, v))
        if items is None or set(kwargs) - {"key", "reverse"}: return None
        rev = self.snapshot(st, kwargs["reverse"]) if "reverse" in kwargs else FALSE
        if not is_const(rev): return None
        keyf = kwargs.get("key")
        ks = []
        for x in items:
            y = x if keyf is None or self.snapshot(st, keyf) is NONE else self.call_value(st, keyf, [x], {})
            k = self.orderkey(st, y)
            if k is None: return None
            k = k[0]
            if conv is not None:
                if not isinstance(k, str): return None
                k = conv(k)
            ks.append(k)
        try: order = sorted(range(len(items)), key=lambda i: ks[i], reverse=bool(cval(rev)))
        except TypeError: return None
        return self.alloc(st, Lst([items[i] for i in order]))
    def scramble(self, items):
        """an arbitrary but fixed order, for unordered collections of words"""
        if self.fs is None or not all(is_const(x) for x in items): return items
        return sorted(items, key=lambda x: hashlib.md5(repr(cval(x)).encode()).hexdigest())
