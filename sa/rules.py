"""Rules decided on the raw value graph of a scenario (before normalisation erases gradient, device and dtype facts)."""
from . import terms as T
from .terms import Term, kind, NONE

NOVALUE = {"lt", "le", "gt", "ge", "eq", "ne", "is", "in", "not", "and", "or", "isinstance", "issubclass", "hasattr", "attr", "len", "dim", "edim", "numel", "ndim", "argmin", "argmax",
           "nonzero", "nonzero_t", "nzcol", "any", "all", "isnan", "isinf", "isfinite", "logical_and", "logical_or", "logical_not", "logical_xor", "count", "ucount", "quant", "zeros_like", "ones_like",
           "full_like", "empty_like", "eye", "zeros", "ones", "full", "arange", "linspace", "empty", "meshgrid", "randperm", "const", "sym", "str", "fmt", "dtype", "ext", "slicelen", "rangelen", "range", "ix", "callable", "exists", "argsort", "lost"}
FIRST = {"getitem", "index_select", "gather", "take", "masked_select", "take_along_dim", "slicekeep"}
SKIPKW = {"dtype", "device", "dim", "keepdim", "axis", "size"}
CUTS = {"detach", "nograd", "item", "tolist", "numpy", "tensor", "long", "int", "bool", "short", "astype"}
CALLCUT = ("numpy.", "torch.tensor", "torch.from_numpy", "builtins.float", "builtins.int", "float", "int")

def value_args(t):
    """operands whose values flow differentiably (or would, without a cut) into the value of t"""
    o = t.op
    if o in NOVALUE: return ()
    if o in FIRST: return (t.args[0],)
    if o in ("ite", "where"): return tuple(a for a in t.args[1:3] if isinstance(a, Term))
    if o == "store": return (t.args[0], t.args[2])
    if o == "unview": return (t.args[0], t.args[2])
    if o == "kw": return (t.args[1],) if t.args[0] not in SKIPKW and isinstance(t.args[1], Term) else ()
    if o == "unique": return (t.args[0],)
    return tuple(a for a in t.args if isinstance(a, Term))

def discrete(t):
    k = kind(t)
    if k[0] in ("tensor", "ndarray") and len(k) > 2 and k[2] in ("int", "bool") or k[0] in ("int", "bool"): return True
    if t.op in ("cat", "stack"): return t.args[0].op in ("list", "tuple") and all(discrete(a) for a in t.args[0].args)
    if t.op in ("long", "int", "bool", "short"): return True
    if t.op in ("cast", "to", "type"): return any(isinstance(a, Term) and T.is_const(a) and "int" in str(T.cval(a)) or isinstance(a, Term) and a.op == "dtype" and "int" in str(a.args) for a in t.args[1:])
    if t.op in FIRST: return discrete(t.args[0])
    if t.op in ("ite", "where"): return all(isinstance(a, Term) and discrete(a) for a in t.args[1:3])
    if t.op in CREATE: return "int" in str(kwargs(t).get("dtype", "")) or "bool" in str(kwargs(t).get("dtype", ""))
    return False
def floaty(k): return k[0] in ("any", "list", "tuple") or k[0] == "float" or k[0] in ("tensor", "ndarray") and k[2] not in ("int", "bool")

def leaffn():
    memo = {}
    def f(t):
        """does a float tensor input reach t through value operands?"""
        if t in memo: return memo[t]
        memo[t] = False
        st = [(t, iter(value_args(t)))]
        if t.op == "sym":
            k = kind(t); memo[t] = k[0] == "tensor" and k[2] not in ("int", "bool") or k[0] == "list" and len(k) > 1 and k[1] and k[1][0] == "tensor"
            return memo[t]
        while st:
            x, it = st[-1]
            nxt = None
            for y in it:
                if y not in memo:
                    memo[y] = False
                    if y.op == "sym":
                        k = kind(y); memo[y] = k[0] == "tensor" and k[2] not in ("int", "bool") or k[0] == "list" and len(k) > 1 and k[1] and k[1][0] == "tensor"
                        if memo[y]: memo[x] = True
                        continue
                    nxt = y; break
                elif memo[y]: memo[x] = True
            if nxt is not None: st.append((nxt, iter(value_args(nxt)))); continue
            st.pop()
            if st and memo[x]: memo[st[-1][0]] = True
        return memo[t]
    return f

def outputs(o):
    out = []
    for lab, v in o.vals.items():
        if lab == "=inputs": continue
        out.append((lab, v[0] if isinstance(v, tuple) else v))
    return out

def loc(o, t):
    for x in T.walk(t):
        l = o.I.locs.get(x)
        if l is not None and not l[0].startswith("<"): return l
    return ("?", 0)

def grad_path(rep, o, name):
    """P15: no cut lies on a value path from a float tensor input to an output"""
    leaf = leaffn(); seen = set(); n = 0; bad = {}
    todo = outputs(o); flat = []
    while todo:
        lab, r = todo.pop()
        if r.op in ("list", "tuple"): todo += [(lab, a) for a in r.args if isinstance(a, Term)]
        elif floaty(kind(r)) and not discrete(r): flat.append((lab, r))            # integer and boolean results are discrete selections
    for lab, root in flat:
        st = [root]
        if root in seen: continue
        seen.add(root)
        if leaf(root): n += 1
        while st:
            t = st.pop()
            cut = t.op in CUTS or t.op == "to" and kind(t)[0] == "tensor" and kind(t)[2] in ("int", "bool") or t.op == "call" and isinstance(t.args[0], str) and t.args[0].startswith(CALLCUT)
            if cut:
                deps = [a for a in value_args(t) if leaf(a) and floaty(kind(a))]
                l = o.I.locs.get(t)
                if deps and l is not None and not l[0].startswith("<"): bad.setdefault((t.op, l), lab)
                elif deps and l is None and t.op == "nograd": bad.setdefault((t.op, loc(o, t)), lab)
            for a in value_args(t):
                if a not in seen: seen.add(a); st.append(a)
    for e in o.I.events:
        if e.kind == "reqgrad" and e.data and isinstance(e.data, tuple) and e.data[1] is T.FALSE and not e.loc[0].startswith("<"):
            bad.setdefault(("requires_grad=False", e.loc), "")
    if bad:
        for (op, l), lab in sorted(bad.items(), key=str):
            rep.bad("gradient-path", "%s/gradient/%s/%s" % (name, lab, op), "%s:%s" % l, "a value path from a tensor input to the output passes through %s, which cuts the gradient" % op)
    elif n: rep.ok(name + "/gradient paths of %d outputs" % n)

# ---------------------------------------------------------------------------------------------- P35
CREATE = {"eye", "zeros", "ones", "full", "arange", "linspace", "empty", "tensor", "rand", "randn"}
PASS1 = {"view", "reshape", "unsqueeze", "squeeze", "expand", "repeat", "transpose", "permute", "contiguous", "clone", "float", "double", "half", "long", "int", "bool", "type", "neg", "flatten", "expand_as", "T", "detach", "alias", "pow", "inverse", "t"}
MATMULS = {"matmul", "mm", "bmm", "mv", "dot", "einsum", "baddbmm"}
def kwargs(t): return {a.args[0]: a.args[1] for a in t.args if isinstance(a, Term) and a.op == "kw"}
def dataleaf():
    memo = {}
    def f(t):
        """does t hold tensor data of an input (so that it lives on the input's device)?"""
        if t in memo: return memo[t]
        memo[t] = False
        k = kind(t)
        if t.op == "sym": r = k[0] == "tensor" or k[0] == "list" and len(k) > 1 and k[1] and k[1][0] == "tensor"
        elif t.op in ("attr", "len", "dim", "numel", "ndim", "item", "const", "dtype", "ext", "zeros", "ones", "eye", "full", "arange", "linspace", "empty"): r = False
        elif k[0] in ("int", "float", "bool", "str"): r = False
        elif t.op in FIRST or t.op in ("zeros_like", "ones_like", "full_like"): r = f(t.args[0])
        elif t.op == "store": r = f(t.args[0]) 
        else: r = any(f(a) for a in t.args if isinstance(a, Term) and a.op != "kw")
        memo[t] = bool(r)
        return memo[t]
    return f
def created(rep, o, name):
    """P35: tensors created inside follow the device (and, where it is not promoted, the dtype) of the data they meet"""
    roots = [r for _, r in outputs(o)]
    parents = {}; order = []
    seen = set(roots); st = list(roots)
    while st:
        t = st.pop(); order.append(t)
        for k, a in enumerate(t.args):
            if not isinstance(a, Term): continue
            parents.setdefault(a, []).append((t, k))
            if a not in seen: seen.add(a); st.append(a)
    rootset = set(roots)
    data = dataleaf()
    n = 0; bad = {}
    if not any(x.op == "sym" and (kind(x)[0] == "tensor" or kind(x)[0] == "list") for x in order): return        # no data to follow
    for c in order:
        if c.op not in CREATE: continue
        l = o.I.locs.get(c)
        if l is None or l[0].startswith("<"): continue
        kws = kwargs(c)
        n += 1
        d = kws.get("device")
        if d is not None and T.is_const(d) and d is not NONE: bad.setdefault((l, "created on a fixed device (%r)" % T.cval(d)), 1)
        scalar = c.op == "tensor" and not (c.args and isinstance(c.args[0], Term) and c.args[0].op in ("list", "tuple")) or T.ndim(c) == 0
        if c.op == "tensor" and c.args and isinstance(c.args[0], Term) and kind(c.args[0])[0] == "tensor": continue
        needdev = d is None or d is NONE
        if needdev and not scalar:
            w = escape(c, parents, rootset, data, "device")
            if w: bad.setdefault((l, "created on the default device and %s" % w), 1)
        intlike = kind(c)[2:3] in (("int",), ("bool",)) if kind(c)[0] == "tensor" else False
        if c.op == "tensor" and c.args and isinstance(c.args[0], Term) and intelems(c.args[0]): intlike = True
        if not scalar and not intlike and kws.get("dtype") in (None, NONE):
            w = escape(c, parents, rootset, data, "dtype")
            if w: bad.setdefault((l, "created in the default dtype and %s" % w), 1)
    for (l, m) in sorted(bad, key=str): rep.bad("created-tensor", "%s/created/%s" % (name, m), "%s:%s" % l, "tensor %s" % m)
    if not bad and n: rep.ok("%s/%d created tensors" % (name, n))
def intelems(t, depth=0):
    """a (nested) sequence of whole numbers"""
    if depth > 6: return False
    k = kind(t)
    if k[0] in ("int", "bool"): return True
    if t.op in ("list", "tuple"): return bool(t.args) and all(isinstance(a, Term) and intelems(a, depth + 1) for a in t.args)
    if t.op in ("map", "flatmap", "concat", "splat"): return all(intelems(a, depth + 1) for a in t.args[-1:] if isinstance(a, Term)) if t.op == "map" else all(intelems(a, depth + 1) for a in t.args if isinstance(a, Term))
    if t.op == "ite": return all(intelems(a, depth + 1) for a in t.args[1:])
    return k[0] in ("list", "tuple") and len(k) > 1 and isinstance(k[1], tuple) and k[1][:1] in (("int",), ("bool",))
def deviceful(t):
    """conversion of t's first operand to the device of data"""
    if t.op == "type_as": return True
    if t.op != "to": return False
    for a in t.args[1:]:
        v = a.args[1] if isinstance(a, Term) and a.op == "kw" else a
        if isinstance(v, Term) and (v.op == "attr" and v.args[0] == "device" or kind(v)[0] in ("device", "tensor") or v.op in ("ite",)): return True
    return False
def dtypeful(t):
    if t.op in ("type_as", "type", "float", "double", "half", "long", "int", "bool", "astype"): return True
    if t.op != "to": return False
    for a in t.args[1:]:
        v = a.args[1] if isinstance(a, Term) and a.op == "kw" else a
        if isinstance(v, Term) and (v.op in ("dtype", "ext") or v.op == "attr" and v.args[0] == "dtype" or kind(v)[0] in ("dtype", "tensor")): return True
    return False
def escape(c, parents, roots, data, what):
    st = [c]; seen = {c}
    while st:
        t = st.pop()
        if t in roots and t is not c: return "returned"
        if t in roots: return "returned"
        for p, k in parents.get(t, ()):
            if p in seen: continue
            if k == 0 and (deviceful(p) if what == "device" else dtypeful(p)): continue
            if p.op in ("attr", "len", "dim", "numel", "ndim", "item", "tolist"): continue
            if p.op == "kw": continue
            if p.op in FIRST and k > 0: continue            # index operands may live on the host
            if p.op == "store" and k == 1: continue
            if p.op == "tuple" and any(q.op in FIRST | {"store"} and kk == 1 for q, kk in parents.get(p, ())): continue
            if what == "dtype":
                if p.op == "store" and k == 0 and data(p.args[2]): return "then filled with input data"
                if p.op in MATMULS and any(isinstance(a, Term) and a is not t and data(a) for a in p.args): return "multiplied with input data"
                if p.op in PASS1 and k == 0 or p.op in FIRST and k == 0: seen.add(p); st.append(p)
                elif p.op in ("list", "tuple") and p in roots: return "returned"
                elif p.op == "store" and k == 0: seen.add(p); st.append(p)
                continue
            if any(isinstance(a, Term) and a is not t and data(a) for j, a in enumerate(p.args) if not (p.op == "store" and j == 1)) and p.op not in ("ite", "list", "tuple", "dict", "obj", "map", "fold", "flatmap", "concat", "splat", "call"):
                return "combined with input data (%s)" % p.op
            if what == "device" and any(isinstance(a, Term) and a is not t and placed(a) for a in p.args) and (p.op in ARITH or p.op in ("list", "tuple") and any(q.op in ("stack", "cat") for q, _ in parents.get(p, ()))):
                return "combined with a tensor on the data's device"
            seen.add(p); st.append(p)
    return None
ARITH = {"add", "sub", "mul", "div", "matmul", "maximum", "minimum", "stack", "cat", "where", "lt", "le", "gt", "ge"}
def placed(t, depth=0):
    """a created tensor of some extent that was put where the data is"""
    if depth > 8: return False
    if deviceful(t): return created_inside(t.args[0])
    if t.op in CREATE and T.ndim(t) != 0 and t.op not in ("zeros_like", "ones_like", "full_like", "empty_like", "rand_like", "randn_like"):
        d = kwargs(t).get("device")
        return d is not None and d.op == "attr" and d.args[0] == "device"
    if t.op in ("type", "float", "double", "half", "long", "int", "unsqueeze", "squeeze", "view", "reshape", "expand", "clone", "contiguous", "neg", "repeat"): return placed(t.args[0], depth + 1)
    return False
def created_inside(t, depth=0):
    if depth > 8 or not isinstance(t, Term): return False
    if t.op in CREATE: return T.ndim(t) != 0 and not (t.op == "tensor" and not (t.args and isinstance(t.args[0], Term) and t.args[0].op in ("list", "tuple")))
    return t.op in ("type", "to", "float", "double", "half", "long", "int", "unsqueeze", "squeeze", "view", "reshape", "expand", "clone", "contiguous", "neg", "repeat") and created_inside(t.args[0], depth + 1)

# ---------------------------------------------------------------------------------------------- P16
GUARDCMP = {"lt", "le", "gt", "ge", "eq", "ne", "isnan", "isinf", "isfinite", "not", "and", "or", "logical_not", "call"}
def positive(d, depth=0):
    """is the denominator kept away from zero by construction (clamped, replaced by where, offset by a constant, exponential)?"""
    if depth > 12: return True
    if T.is_num(d): return T.cval(d) != 0
    if d.op in ("where", "ite"): return True
    if d.op in ("clamp", "exp", "maximum", "normalize"): return True
    if d.op == "add": return any(isinstance(a, Term) and (T.is_num(a) and T.cval(a) != 0) or isinstance(a, Term) and kind(a)[0] == "float" for a in d.args)
    if d.op in ("sqrt", "pow", "square", "abs", "unsqueeze", "squeeze", "getitem", "view", "to", "neg", "expand", "clone", "type", "float", "double", "contiguous", "repeat", "reshape"): return positive(d.args[0], depth + 1)
    if d.op in ("mul", "div"): return positive(d.args[0], depth + 1) and positive(d.args[1], depth + 1)
    return False
def basis(t, out, depth=0):
    """tensor terms a condition or a denominator is made of"""
    if depth > 6 or not isinstance(t, Term): return out
    out.add(t)
    if t.op in GUARDCMP or t.op in ("abs", "norm", "sqrt", "pow", "square", "unsqueeze", "squeeze", "getitem", "neg", "view", "to", "sum", "expand", "expand_as", "repeat", "reshape", "clone", "float", "bool"):
        for a in t.args:
            if isinstance(a, Term) and not T.is_const(a): basis(a, out, depth + 1)
    return out
def safe_div(rep, o, name):
    """P16: a guard protects the denominator, it does not select between an unsafe quotient and a fallback"""
    bad = {}; n = 0; seen = set(); wheres = []
    for lab, root in outputs(o):
        st = [root]
        while st:
            t = st.pop()
            if t in seen: continue
            seen.add(t)
            if t.op == "where" and kind(t)[0] == "tensor": wheres.append(t)
            st.extend(a for a in t.args if isinstance(a, Term))
    for w in wheres:
        l = o.I.locs.get(w)
        if l is None or l[0].startswith("<"): continue
        cb = basis(w.args[0], set())
        n += 1
        for br in w.args[1:3]:
            if not isinstance(br, Term): continue
            st = [br]; s2 = set()
            while st:
                t = st.pop()
                if t in s2: continue
                s2.add(t)
                if t.op in ("div", "reciprocal", "rsqrt") or t.op == "pow" and T.is_num(t.args[1]) and T.cval(t.args[1]) < 0:
                    d = t.args[1] if t.op == "div" else t.args[0]
                    if isinstance(d, Term) and not positive(d):
                        db = basis(d, set())
                        if any(kind(x)[0] == "tensor" for x in (db & cb)) or t in cb or any(x.op in ("isnan", "isinf", "isfinite") for x in cb):
                            bad.setdefault((l, T.show(d, 3)[:80]), 1)
                if t.op in ("where",): continue
                st.extend(value_args(t))
    for (l, d) in sorted(bad, key=str): rep.bad("guarded-division", "%s/unsafe quotient/%s" % (name, d), "%s:%s" % l, "a guard selects between a quotient by a possibly zero denominator (%s) and a fallback; the denominator itself is not made safe" % d)
    if not bad and n: rep.ok("%s/%d guarded selections" % (name, n))

# ---------------------------------------------------------------------------------------------- P04, P12, P34
WRITES = {"P04", "P12", "P34"}
def inplace(o, sure):
    """in-place writes of library code to storage that an input may share: {(input, function): location}"""
    out = {}
    for e in o.I.events:
        if e.kind != "mutate" or e.loc[0].startswith("<"): continue
        if sure and not all(sure(c[0]) for c in e.dec if isinstance(c[0], Term)): continue
        for s, how in e.data[0]: out.setdefault(s, (e.loc, e.data[1], how))
    return out
def writes(rep, o, name, ref, is_sure, devices):
    """no library code writes in place to the storage of an input (a conversion that changes nothing returns its argument)"""
    got = inplace(o, lambda c: is_sure(c) or devices(c))
    if got:
        r = ref()
        if r is None or r.error: return
        have = inplace(r, None)
        for s in sorted(set(got) - set(have), key=str):
            l, what, how = got[s]
            rep.bad("in-place-write", "%s/writes/%s" % (name, s), "%s:%s" % l, "%s on storage that %s the storage of the input %s" % (what, "is" if how == "must" else "may be", s))
        if set(got) - set(have): return
    rep.ok(name + "/no in-place write to an input")
AUTO = {"P15": [grad_path], "P35": [created], "P16": [safe_div]}
RULEONLY = {"P15", "P35"}
