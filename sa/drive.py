"""Runs driver modules (small public-API programs over symbolic inputs) through the abstract interpreter."""
import ast, re, sys
from . import terms as T
from .terms import Term, mk, const, sym, NONE, TRUE, FALSE
from .tree import Tree
from .interp import Interp, Frame
from .values import *
from .norm import Norm, canon, normal

sys.setrecursionlimit(20000)
DT = {"f": "float", "i": "int", "b": "bool"}

def dimsym(s):
    s = s.strip()
    if re.fullmatch(r"-?\d+", s): return const(int(s))
    m = re.fullmatch(r"(\w+)\s*([+*-])\s*(\w+)", s)
    if m:
        return mk({"+": "add", "*": "mul", "-": "sub"}[m.group(2)], dimsym(m.group(1)), dimsym(m.group(3)))
    return sym(s, ("int",))

def split_top(s, sep):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "[({": d += 1
        if ch in "])}": d -= 1
        if ch == sep and d == 0: out.append(cur); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur)
    return out

def build(I, st, name, spec):
    """abstract value for an argument specification"""
    spec = spec.strip()
    if spec.startswith("["):
        items = split_top(spec[1:-1], ",")
        return I.alloc(st, Lst([build(I, st, "%s%d" % (name, k), x) for k, x in enumerate(items)], origin=name))
    if spec.startswith("{"):
        d = {}
        for x in split_top(spec[1:-1], ","):
            k, v = x.split(":", 1)
            d[const(ast.literal_eval(k.strip()))] = build(I, st, name + "_" + str(ast.literal_eval(k.strip())), v)
        return I.alloc(st, Dct(d, origin=name))
    m = re.fullmatch(r"([fibn])\[(.*)\]", spec)
    if m:
        dims = [dimsym(x) for x in split_top(m.group(2), ",")] if m.group(2).strip() else []
        if m.group(1) == "n": k = ("ndarray", len(dims), "float")
        else: k = ("tensor", len(dims), DT[m.group(1)])
        return I.wrap(sym(name + ":" + spec.replace(" ", ""), k, dims))
    m = re.fullmatch(r"list\((.*)\)", spec)
    if m:
        e = m.group(1).strip()
        ek = {"str": ("str",), "int": ("int",), "float": ("float",), "any": T.ANY}.get(e)
        if ek is None:
            mm = re.fullmatch(r"([fib])\[(.*)\]", e); ek = ("tensor", len(split_top(mm.group(2), ",")), DT[mm.group(1)])
        return I.wrap(sym(name + ":" + spec, ("list", ek)))
    if spec in ("int", "float", "bool", "str", "dict", "any"): return I.wrap(sym(name + ":" + spec, (spec,)))
    if spec.startswith("="): 
        v = ast.literal_eval(spec[1:])
        return const(v) if not isinstance(v, tuple) else TupleVal([const(x) for x in v])
    if spec == "tensor": return I.wrap(sym(name + ":" + spec, ("tensor", None, None)))
    if spec == "ftensor": return I.wrap(sym(name + ":" + spec, ("tensor", None, "float")))
    if spec == "ndarray": return I.wrap(sym(name + ":" + spec, ("ndarray", None, None)))
    raise ValueError("argument specification " + spec)

class Out:
    """what one driver run produced"""
    def __init__(self): self.vals = {}; self.dead = False; self.error = None

def drive(tree, src, args="", opaque=(), name="driver", fs=None):
    """abstractly interpret `main` of a driver; returns an Out"""
    tree.add(name, src)
    m = tree.modules[name]
    I = Interp(tree, opaque, fs)
    st = State()
    f = Func(m.binds["main"], m)
    fr = Frame(I.new(), f, m, 0); st.envs[fr.fid] = {}
    I.frames.append(fr)
    vals = []
    for a in split_top(args, ";"):
        n, s = a.split(":", 1)
        vals.append(build(I, st, n.strip(), s))
    o = Out(); o.I = I; o.st = st; o.args = vals
    try:
        v = I.call_func(st, f, vals, {})
    except Dead:
        o.dead = True
    except (Unsupported, RecursionError) as e:
        o.error = "%s: %s" % (type(e).__name__, e)
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        o.error = "internal %s: %s (%s:%s) at %s" % (type(e).__name__, str(e)[:200], tb.filename.split("/")[-1], tb.lineno, I.loc)
    else:
        o.value = v
        if isinstance(v, Ref) and isinstance(st.heap.get(v.oid), Dct):
            for k, x in st.heap[v.oid].items.items():
                key = T.cval(k) if T.is_const(k) else T.show(k)
                if key.startswith("=") and isinstance(x, TupleVal) and len(x.items) == 2:
                    o.vals[key] = tuple(I.snapshot(st, y) for y in x.items)
                else: o.vals[key] = I.snapshot(st, x)
        else: o.vals["result"] = I.snapshot(st, v)
    return o

def raise_condition(o, funcs=None):
    """disjunction of the path conditions on which the driver raises"""
    out = []
    for r in o.I.raises:
        if funcs is not None and not (set(r.stack) & set(funcs)): continue
        cs = [c if p else o.I.tnot(c) for c, p, tag in r.dec]
        out.append(o.I.tand(cs) if cs else TRUE)
    return o.I.tor(out) if out else FALSE
