"""Gated value-graph abstract interpreter: statements, joins, loops, calls.

Every branch whose condition is not decided by the abstract facts is analysed on both sides and joined with an
`ite` node; every loop over a symbolic sequence is summarised by one abstract iteration (a `map` or a `fold`).
No path enumeration and no solver is involved; nothing of the analysed program is executed.
"""
import ast, itertools
from . import terms as T
from .terms import Term, mk, const, NONE, TRUE, FALSE, is_const, cval, kind
from .values import *
from .exprs import Exprs
from .calls import Calls
from .files import Files

class Frame:
    __slots__ = ("fid", "func", "module", "returns", "loops", "yields", "declen", "cls", "node", "self_", "globals_")
    def __init__(self, fid, func, module, declen):
        self.fid = fid; self.func = func; self.module = module; self.returns = []; self.loops = []; self.yields = None
        self.declen = declen; self.cls = func.cls if func else None; self.globals_ = set()

class Loop:
    def __init__(self, declen): self.breaks = []; self.conts = []; self.declen = declen

class Event:
    __slots__ = ("kind", "loc", "dec", "data", "stack")
    def __init__(self, kind, loc, dec, data, stack): self.kind = kind; self.loc = loc; self.dec = dec; self.data = data; self.stack = stack
    def __repr__(self): return "%s@%s %s" % (self.kind, self.loc, self.data)

class Raise:
    __slots__ = ("exc", "cond", "loc", "state", "dec", "func", "stack")

MAXDEPTH = 24
MAXUNROLL = 64

class Interp(Exprs, Calls, Files):
    def __init__(self, tree, opaque=(), fs=None):
        self.tree = tree; self.fs = fs
        self.ids = itertools.count()
        self.events = []; self.raises = []; self.sinks = [self.raises]
        self.frames = []; self.depth = 0; self.loc = ("?", 0); self.locs = {}
        self.nograd = 0
        self.unsupported = []
        self.vague = set()
        self.opaque = {x.split("=")[0]: (x.split("=", 1) + [None])[1] for x in opaque}      # functions kept uninterpreted, with the kind of their result
        self.visited = set()           # qualified names of analysed functions
        self.nsites = 0
        self.steps = 0; self.maxsteps = 400000
        self.globals_cache = {}
        self.cellbase = {}             # storage cell -> initial contents
        self.joined = {}               # storage cell of a joined value -> (condition, value, value) it stands for

    # ------------------------------------------------------------ utilities
    def new(self): return next(self.ids)
    def event(self, st, k, data=None):
        self.events.append(Event(k, self.loc, st.dec, data, tuple(f.func.name if f.func else "?" for f in self.frames)))
    def note(self, msg):
        m = "%s:%s: %s" % (self.loc[0], self.loc[1], msg)
        if m not in self.unsupported: self.unsupported.append(m)
    def mark(self, t):
        if isinstance(t, Term) and t not in self.locs: self.locs[t] = self.loc
        return t

    def alloc(self, st, o):
        oid = self.new(); st.heap[oid] = o; return Ref(oid)

    # ------------------------------------------------------------ facts
    def fact(self, st, c, memo=None):
        """True/False when decided"""
        if c is TRUE: return True
        if c is FALSE: return False
        if is_const(c): return bool(cval(c))
        f = st.facts.get(c)
        if f is not None: return f
        if c.op not in ("not", "and", "or", "ne", "eq", "lt", "le", "ite"): return None
        if memo is None: memo = {}
        elif c in memo: return memo[c]
        r = self.fact_(st, c, memo)
        memo[c] = r
        return r
    def fact_(self, st, c, memo):
        if c.op == "not":
            f = self.fact(st, c.args[0], memo); return None if f is None else not f
        if c.op in ("and", "or"):
            stop = c.op == "or"; r = not stop
            for a in c.args:
                f = self.fact(st, a, memo)
                if f is stop: return stop
                if f is None: r = None
            return r
        if c.op == "ne":
            f = st.facts.get(mk("eq", *c.args)); return None if f is None else not f
        if c.op == "eq":
            f = st.facts.get(mk("ne", *c.args)); return None if f is None else not f
        if c.op == "lt":
            f = st.facts.get(mk("le", c.args[1], c.args[0])); return None if f is None else not f
        if c.op == "le":
            f = st.facts.get(mk("lt", c.args[1], c.args[0])); return None if f is None else not f
        if c.op == "ite":
            v = self.fact(st, c.args[0], memo)
            if v is not None: return self.fact(st, c.args[1] if v else c.args[2], memo)
            x, y = self.fact(st, c.args[1], memo), self.fact(st, c.args[2], memo)
            return x if x is y else None
        return None

    def assume(self, st, c, v):
        if is_const(c): return
        st.facts[c] = v
        if c.op == "not": self.assume(st, c.args[0], not v)
        elif c.op == "and" and v:
            for a in c.args: self.assume(st, a, True)
        elif c.op == "or" and not v:
            for a in c.args: self.assume(st, a, False)

    # ------------------------------------------------------------ merging
    def conj(self, dec, start):
        cs = []
        for c, p, tag in dec[start:]:
            if tag != "b": continue
            cs.append(c if p else self.tnot(c))
        return self.tand(cs)

    def merge_val(self, st, c, a, b, sa, sb):
        if a is b: return a
        if a is UNDEF or b is UNDEF:
            return b if a is UNDEF else a
        if isinstance(a, Term) and isinstance(b, Term): return self.mite(c, a, b)
        if isinstance(a, Ref) and isinstance(b, Ref) and a.oid == b.oid: return a
        if isinstance(a, TRef) and isinstance(b, TRef) and a.cell == b.cell and a.base is b.base and a.chain == b.chain: return a
        if isinstance(a, (TRef, Term)) and isinstance(b, (TRef, Term)):
            ta, tb = self.term(sa, a), self.term(sb, b)
            if ta is NONE or tb is NONE:
                return Choice(c, a, b)
            if ta is tb: return a if isinstance(a, TRef) else b
            r = self.wrap(self.mite(c, ta, tb))
            if isinstance(r, TRef) and not is_const(c): self.joined[r.cell] = (c, a, b)
            return r
        if isinstance(a, TupleVal) and isinstance(b, TupleVal) and len(a.items) == len(b.items):
            return TupleVal([self.merge_val(st, c, x, y, sa, sb) for x, y in zip(a.items, b.items)])
        if isinstance(a, Func) and isinstance(b, Func) and a.node is b.node: return a
        if isinstance(a, (Ext, Cls, Mod)) and type(a) is type(b) and (getattr(a, "name", None) == getattr(b, "name", None)): return a
        if isinstance(a, Bound) and isinstance(b, Bound) and a.func.node is b.func.node and a.self_ == b.self_: return a
        return Choice(c, a, b)

    def mite(self, c, a, b):
        return T.ite(c, a, b)

    def merge(self, c, a, b, base):
        """join of two live states; `c` selects a"""
        if a.dead: return b
        if b.dead: return a
        s = State()
        s.dec = base
        for fid in set(a.envs) | set(b.envs):
            ea, eb = a.envs.get(fid), b.envs.get(fid)
            if ea is None or eb is None:
                s.envs[fid] = ea if eb is None else eb; continue
            e = {}
            for k in list(ea) + [k for k in eb if k not in ea]:
                e[k] = self.merge_val(s, c, ea.get(k, UNDEF), eb.get(k, UNDEF), a, b)
            s.envs[fid] = e
        for oid in list(a.heap) + [o for o in b.heap if o not in a.heap]:
            x, y = a.heap.get(oid), b.heap.get(oid)
            if x is None or y is None:
                s.heap[oid] = y if x is None else x; continue
            s.heap[oid] = self.merge_obj(s, c, x, y, a, b)
        for cell in set(a.over) | set(b.over):
            x, y = a.over.get(cell), b.over.get(cell)
            if x is y: s.over[cell] = x
            else:
                if x is None: x = self.cellbase.get(cell, y)
                if y is None: y = self.cellbase.get(cell, x)
                s.over[cell] = self.mite(c, x, y)
        s.facts = {k: v for k, v in a.facts.items() if b.facts.get(k) is v}
        return s

    def merge_obj(self, s, c, x, y, a, b):
        if isinstance(x, Obj):
            o = Obj(x.cls, {}, x.origin)
            for k in list(x.attrs) + [k for k in y.attrs if k not in x.attrs]:
                o.attrs[k] = self.merge_val(s, c, x.attrs.get(k, UNDEF), y.attrs.get(k, UNDEF), a, b)
            return o
        if isinstance(x, Lst):
            xs, ys = x.segs, y.segs
            def eq(p, q): return p is q or (isinstance(p, Splat) and p == q) or (isinstance(p, Ref) and p == q)
            if len(xs) == len(ys) and not any((isinstance(p, Splat) or isinstance(q, Splat)) and not eq(p, q) for p, q in zip(xs, ys)):
                return Lst([p if eq(p, q) else self.merge_val(s, c, p, q, a, b) for p, q in zip(xs, ys)], x.origin)
            i = 0
            while i < len(xs) and i < len(ys) and eq(xs[i], ys[i]): i += 1
            ta = self.segterm(a, xs[i:]); tb = self.segterm(b, ys[i:])
            return Lst(xs[:i] + [Splat(self.mite(c, ta, tb))], x.origin)
        if isinstance(x, SetV):
            return SetV({k: self.mite(c, x.items.get(k, FALSE), y.items.get(k, FALSE)) for k in list(x.items) + [k for k in y.items if k not in x.items]}, x.origin)
        if isinstance(x, Dct):
            d = Dct({}, None, x.origin)
            for k in list(x.items) + [k for k in y.items if k not in x.items]:
                d.items[k] = self.merge_val(s, c, x.items.get(k, UNDEF), y.items.get(k, UNDEF), a, b)
            if x.base is y.base: d.base = x.base
            else: d.base = self.mite(c, x.base or mk("dict"), y.base or mk("dict"))
            return d
        return x

    # ------------------------------------------------------------ statements
    def exec_block(self, st, body):
        for n in body:
            if st.dead: return
            try:
                self.exec(st, n)
            except Dead:
                st.dead = True
                return

    def exec(self, st, n):
        self.steps += 1
        if self.steps > self.maxsteps: raise Unsupported("step budget exhausted")
        self.loc = (self.frames[-1].module.path, n.lineno)
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            self.note("statement %s not modelled" % type(n).__name__)
            return
        m(st, n)

    def s_Expr(self, st, n):
        if isinstance(n.value, ast.Constant): return
        if isinstance(n.value, ast.Yield):
            self.s_yield(st, n.value); return
        self.eval(st, n.value)
    def s_yield(self, st, n):
        v = self.eval(st, n.value) if n.value else NONE
        fr = self.frames[-1]
        if fr.yields is None: fr.yields = self.alloc(st, Lst([]))
        st.heap[fr.yields.oid].segs.append(v)
    def s_Pass(self, st, n): pass
    def s_Global(self, st, n):
        self.frames[-1].globals_ |= set(n.names)
        self.event(st, "global", tuple(n.names))
    s_Nonlocal = s_Global
    def s_Import(self, st, n):
        for a in n.names:
            st.envs[self.frames[-1].fid][a.asname or a.name.split(".")[0]] = self.import_value(a.name if a.asname else a.name.split(".")[0])
    def s_ImportFrom(self, st, n):
        mod = self.frames[-1].module._abs(n)
        for a in n.names:
            st.envs[self.frames[-1].fid][a.asname or a.name] = self.from_value(st, mod, a.name)
    def s_FunctionDef(self, st, n):
        st.envs[self.frames[-1].fid][n.name] = Func(n, self.frames[-1].module, closure=self.frames[-1].fid, cls=self.frames[-1].cls)
    def s_ClassDef(self, st, n):
        st.envs[self.frames[-1].fid][n.name] = Cls(n, self.frames[-1].module)
    def s_Return(self, st, n):
        v = self.eval(st, n.value) if n.value is not None else NONE
        self.frames[-1].returns.append((st.copy(), v))
        st.dead = True
    def s_Assert(self, st, n):
        c = self.cond(st, self.eval(st, n.test))
        self.guard(st, c, "AssertionError", True)
    def s_Raise(self, st, n):
        name = "Exception"
        if n.exc is not None:
            e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
            if isinstance(e, ast.Name): name = e.id
            elif isinstance(e, ast.Attribute): name = e.attr
        else:
            name = getattr(self, "cur_exc", None) or "reraise"
        self.do_raise(st, name)
        st.dead = True
    def do_raise(self, st, exc, extra=None):
        r = Raise()
        r.exc = exc; r.loc = self.loc; r.dec = st.dec if extra is None else st.dec + (extra,)
        r.state = st.copy(); r.func = self.frames[-1].func.name if self.frames and self.frames[-1].func else "?"
        r.stack = tuple(f.func.name for f in self.frames if f.func)
        r.cond = None
        self.sinks[-1].append(r)
    def guard(self, st, c, exc, want):
        f = self.fact(st, c)
        if f is want: return
        if f is None:
            self.do_raise(st, exc, (c, not want, "b"))
            self.assume(st, c, want)
            return
        self.do_raise(st, exc)
        raise Dead()

    def s_Delete(self, st, n):
        for t in n.targets:
            if isinstance(t, ast.Name): st.envs[self.frames[-1].fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.eval(st, t.value); i = self.eval_index(st, t.slice)
                self.del_item(st, b, i)
            elif isinstance(t, ast.Attribute):
                b = self.eval(st, t.value)
                if isinstance(b, Ref) and isinstance(st.heap[b.oid], Obj): st.heap[b.oid].attrs.pop(t.attr, None)
    def s_Assign(self, st, n):
        v = self.eval(st, n.value)
        for t in n.targets: self.assign(st, t, v)
    def s_AnnAssign(self, st, n):
        if n.value is not None: self.assign(st, n.target, self.eval(st, n.value))
    def s_AugAssign(self, st, n):
        t = n.target
        op = type(n.op).__name__
        if isinstance(t, ast.Name):
            cur = self.eval(st, ast.copy_location(ast.Name(t.id, ast.Load()), t))
            rhs = self.eval(st, n.value)
            self.assign(st, t, self.augmented(st, op, cur, rhs))
        elif isinstance(t, ast.Attribute):
            b = self.eval(st, t.value)
            cur = self.get_attr(st, b, t.attr); rhs = self.eval(st, n.value)
            self.set_attr(st, b, t.attr, self.augmented(st, op, cur, rhs))
        elif isinstance(t, ast.Subscript):
            b = self.eval(st, t.value); i = self.eval_index(st, t.slice)
            cur = self.get_item(st, b, i); rhs = self.eval(st, n.value)
            self.set_item(st, b, i, self.augmented(st, op, cur, rhs, element=True))
    def augmented(self, st, op, cur, rhs, element=False):
        new = self.binop(st, op, cur, rhs)
        if isinstance(cur, Ref) and isinstance(st.heap.get(cur.oid), Lst) and op == "Add":
            o = st.heap[cur.oid]
            if isinstance(new, Ref): o.segs = list(st.heap[new.oid].segs)
            self.event(st, "mutlist", (cur, "+="))
            return cur
        if isinstance(cur, TRef) and not element:
            ct = self.term(st, cur)
            if T.is_tensor_kind(kind(ct)) or kind(ct)[0] in ("any", "list"):
                if T.is_tensor_kind(kind(ct)):
                    self.mutate(st, cur, self.term(st, new), "augmented assignment")
                    return cur
                self.mutevent(st, ct, "augmented assignment")
        return new

    def assign(self, st, t, v):
        if isinstance(t, ast.Name):
            if t.id in self.frames[-1].globals_:
                self.event(st, "globalwrite", t.id)
            st.envs[self.frames[-1].fid][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            k = len(t.elts)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                items = self.seq_items(st, v)
                si = [isinstance(e, ast.Starred) for e in t.elts].index(True)
                if items is None: 
                    self.note("starred unpacking of a symbolic sequence"); raise Unsupported("starred unpack")
                tail = k - si - 1
                for e, x in zip(t.elts[:si], items[:si]): self.assign(st, e, x)
                self.assign(st, t.elts[si].value, self.alloc(st, Lst(items[si:len(items) - tail])))
                for e, x in zip(t.elts[si + 1:], items[len(items) - tail:]): self.assign(st, e, x)
                return
            items = self.unpack(st, v, k)
            for e, x in zip(t.elts, items): self.assign(st, e, x)
        elif isinstance(t, ast.Attribute):
            self.set_attr(st, self.eval(st, t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            b = self.eval(st, t.value)
            self.set_item(st, b, self.eval_index(st, t.slice), v)
        elif isinstance(t, ast.Starred):
            self.assign(st, t.value, v)

    def s_If(self, st, n):
        c = self.cond(st, self.eval(st, n.test))
        f = self.fact(st, c)
        if f is not None:
            self.exec_block(st, n.body if f else n.orelse)
            return
        if c.op == "not": 
            self.branch(st, c.args[0], lambda s: self.exec_block(s, n.orelse), lambda s: self.exec_block(s, n.body))
        else:
            self.branch(st, c, lambda s: self.exec_block(s, n.body), lambda s: self.exec_block(s, n.orelse))

    def branch(self, st, c, fa, fb):
        base = st.dec
        a, b = st.copy(), st.copy()
        self.assume(a, c, True); self.assume(b, c, False)
        a.dec = base + ((c, True, "b"),); b.dec = base + ((c, False, "b"),)
        nr = self.nlive()
        fa(a)
        na = self.nlive()
        fb(b)
        nb = self.nlive()
        if a.dead and b.dead:
            st.assign(a); st.dead = True; return
        if a.dead or b.dead:
            live, pol = (b, False) if a.dead else (a, True)
            exited = (na > nr) if a.dead else (nb > na)
            live.dec = base + ((c, pol, "r" if exited else "x"),) + tuple(x for x in live.dec[len(base) + 1:])
            st.assign(live)
            return
        st.assign(self.merge(c, a, b, base))
        # decisions recorded after the split that survive on both sides are forgotten at the join

    def nlive(self):
        fr = self.frames[-1]
        return len(fr.returns) + sum(len(l.breaks) + len(l.conts) for l in fr.loops)

    def s_With(self, st, n):
        ng = 0
        for it in n.items:
            v = self.eval(st, it.context_expr)
            nm = None
            e = it.context_expr
            t = self.term(st, v) if isinstance(v, (TRef, Term)) else None
            if t is not None and t.op == "call" and (t.args[0] in ("torch.no_grad", "torch.inference_mode") or (t.args[0] == "torch.set_grad_enabled" and len(t.args) > 1 and t.args[1] is FALSE)):
                ng += 1
            if it.optional_vars is not None: self.assign(st, it.optional_vars, v)
        self.nograd += ng
        try:
            self.exec_block(st, n.body)
        finally:
            self.nograd -= ng

    def s_Try(self, st, n):
        sink = []
        self.sinks.append(sink)
        try:
            self.exec_block(st, n.body)
        finally:
            self.sinks.pop()
        live = [st] if not st.dead else []
        outs = []
        for r in sink:
            h = self.match_handler(n.handlers, r.exc)
            if h is None:
                self.sinks[-1].append(r); continue
            s = r.state; s.dead = False
            s.dec = r.dec
            outs.append((r, h, s))
        if not outs:
            if not st.dead: self.exec_block(st, n.orelse)
            self.exec_block_force(st, n.finalbody)
            return
        base = None
        results = []
        if not st.dead: self.exec_block(st, n.orelse)
        entry = len(st.dec)
        for r, h, s in outs:
            if h.name: s.envs[self.frames[-1].fid][h.name] = mk("exc", r.exc)
            prev = getattr(self, "cur_exc", None); self.cur_exc = r.exc
            self.exec_block(s, h.body)
            self.cur_exc = prev
            if not s.dead: results.append(s)
        for s in results:
            cs = self.tand([c if p else self.tnot(c) for c, p, tag in s.dec if (c, p, tag) not in st.dec and tag == "b"])
            if st.dead: st.assign(s)
            else: st.assign(self.merge(cs, s, st, tuple(d for d in st.dec)))
        self.exec_block_force(st, n.finalbody)

    def exec_block_force(self, st, body):
        if body and not st.dead: self.exec_block(st, body)

    SUPER = {"KeyError": ("LookupError",), "IndexError": ("LookupError",), "FileNotFoundError": ("OSError", "IOError"), "NotImplementedError": ("RuntimeError",), "ModuleNotFoundError": ("ImportError",)}
    def match_handler(self, handlers, exc):
        for h in handlers:
            if h.type is None: return h
            ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            for t in ts:
                nm = t.id if isinstance(t, ast.Name) else getattr(t, "attr", "")
                if nm in ("Exception", "BaseException") or nm == exc or nm in self.SUPER.get(exc, ()): return h
        return None

    # ------------------------------------------------------------ loops
    def s_Break(self, st, n):
        self.frames[-1].loops[-1].breaks.append(st.copy()); st.dead = True
    def s_Continue(self, st, n):
        self.frames[-1].loops[-1].conts.append(st.copy()); st.dead = True

    def s_For(self, st, n):
        it = self.eval(st, n.iter)
        dom = self.iter_domain(st, it)
        fr = self.frames[-1]
        if dom[0] == "items":
            items = dom[1]
            if len(items) > MAXUNROLL: raise Unsupported("loop unroll bound")
            self.unroll(st, n, [lambda s, x=x: self.assign(s, n.target, x) for x in items], None)
        else:
            _, count, elem = dom
            self.sym_loop(st, count, lambda s, ix: self.assign(s, n.target, elem(s, ix)), n.body, n.orelse)

    def unroll(self, st, n, binders, test):
        """concrete unrolling of a loop with known items"""
        fr = self.frames[-1]
        done = []                       # states that left by break
        lp0 = len(st.dec)
        for bnd in binders:
            if st.dead: break
            lp = Loop(len(st.dec)); fr.loops.append(lp)
            base = st.dec
            try:
                bnd(st)
                self.exec_block(st, n.body)
            except Dead:
                st.dead = True
            fr.loops.pop()
            acc = st
            for c in reversed(lp.conts):
                acc = c if acc.dead else self.merge(self.conj(c.dec, lp.declen), c, acc, base)
                acc.dec = base
            if acc is not st: st.assign(acc)
            done.extend(lp.breaks)
        if not st.dead and n.orelse: self.exec_block(st, n.orelse)
        for b in reversed(done):
            base = b.dec[:lp0]
            if st.dead: st.assign(b); st.dec = base
            else: st.assign(self.merge(self.conj(b.dec, lp0), b, st, base))

    def s_While(self, st, n):
        fr = self.frames[-1]
        done = []; lp0 = len(st.dec)
        for k in range(MAXUNROLL):
            if st.dead: break
            snap = st.copy(); em, rm = len(self.events), len(self.sinks[-1])
            c = self.cond(st, self.eval(st, n.test))
            f = self.fact(st, c)
            if f is False: break
            if f is None:
                st.assign(snap); del self.events[em:]; del self.sinks[-1][rm:]
                self.sym_loop(st, None, None, n.body, n.orelse, test=n.test)
                break
            lp = Loop(len(st.dec)); fr.loops.append(lp); base = st.dec
            self.exec_block(st, n.body)
            fr.loops.pop()
            acc = st
            for cc in reversed(lp.conts):
                acc = cc if acc.dead else self.merge(self.conj(cc.dec, lp.declen), cc, acc, base)
                acc.dec = base
            if acc is not st: st.assign(acc)
            done.extend(lp.breaks)
        else:
            raise Unsupported("while unroll bound")
        if not st.dead and n.orelse and not done: self.exec_block(st, n.orelse)
        for b in reversed(done):
            base = b.dec[:lp0]
            if st.dead: st.assign(b); st.dec = base
            else: st.assign(self.merge(self.conj(b.dec, lp0), b, st, base))

    # -- slots that a symbolic loop may change
    def read_slot(self, st, s):
        if s[0] == "env": return st.envs.get(s[1], {}).get(s[2], UNDEF)
        if s[0] == "attr":
            o = st.heap.get(s[1]); return o.attrs.get(s[2], UNDEF) if o else UNDEF
        if s[0] in ("list", "dict"): return st.heap.get(s[1])
        if s[0] == "cell": return st.over.get(s[1])
    def write_slot(self, st, s, v):
        if s[0] == "env": st.envs[s[1]][s[2]] = v
        elif s[0] == "attr": st.heap[s[1]].attrs[s[2]] = v
        elif s[0] == "list": st.heap[s[1]].segs = v
        elif s[0] == "dict": st.heap[s[1]] = v
        elif s[0] == "cell": st.over[s[1]] = v

    def same_val(self, a, b):
        if a is b: return True
        if isinstance(a, Ref) and isinstance(b, Ref): return a.oid == b.oid
        if isinstance(a, TRef) and isinstance(b, TRef): return a.cell == b.cell and a.base is b.base and a.chain == b.chain
        if isinstance(a, TupleVal) and isinstance(b, TupleVal):
            return len(a.items) == len(b.items) and all(self.same_val(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, Func) and isinstance(b, Func): return a.node is b.node
        if isinstance(a, (Ext, Cls, Mod, Bound)) and type(a) is type(b): return getattr(a, "name", 1) == getattr(b, "name", 1)
        return False

    def diff_slots(self, s0, s1):
        out = []
        for fid, e in s1.envs.items():
            e0 = s0.envs.get(fid)
            if e0 is None: continue
            for k, v in e.items():
                if k not in e0 or not self.same_val(e0[k], v): out.append(("env", fid, k))
        for oid, o in s1.heap.items():
            o0 = s0.heap.get(oid)
            if o0 is None: continue
            if isinstance(o, Obj):
                for k, v in o.attrs.items():
                    if k not in o0.attrs or not self.same_val(o0.attrs[k], v): out.append(("attr", oid, k))
            elif isinstance(o, Lst):
                if len(o.segs) != len(o0.segs) or not all(x is y or x == y or (not isinstance(x, Splat) and not isinstance(y, Splat) and self.same_val(x, y)) for x, y in zip(o.segs, o0.segs)):
                    out.append(("list", oid))
            elif isinstance(o, SetV):
                if o.items != o0.items: raise Unsupported("set changed in a loop of unknown length")
            elif isinstance(o, Dct):
                if o.base is not o0.base or set(o.items) != set(o0.items) or not all(self.same_val(o.items[k], o0.items[k]) for k in o.items):
                    out.append(("dict", oid))
        for c, t in s1.over.items():
            if s0.over.get(c) is not t: out.append(("cell", c))
        return out

    def mentions(self, t, level):
        return any((x.op in ("ix", "mu")) and x.args[0] == level for x in T.walk(t))

    def sym_loop(self, st, count, bind, body, orelse, test=None, evalbody=None):
        fr = self.frames[-1]
        level = self.depth; self.depth += 1
        ix = mk("ix", level)
        try:
            changed = []      # slots, in order
            mus = {}
            hoisted = set()
            em, rm = len(self.events), len(self.sinks[-1])
            for rnd in range(8):
                del self.events[em:]; del self.sinks[-1][rm:]
                s = st.copy()
                for sl in changed:
                    self.install_mu(s, sl, mus, level, st)
                s0 = s.copy()
                lp = Loop(len(s.dec)); fr.loops.append(lp)
                nret = len(fr.returns)
                cnd = None
                try:
                    if test is not None:
                        cnd = self.cond(s, self.eval(s, test)); self.assume(s, cnd, True)
                    if bind is not None: bind(s, ix)
                    if evalbody is not None: evalbody(s)
                    else: self.exec_block(s, body)
                except Dead:
                    s.dead = True
                fr.loops.pop()
                rets = fr.returns[nret:]; del fr.returns[nret:]
                base = st.dec
                acc = s
                for c in reversed(lp.conts):
                    acc = c if acc.dead else self.merge(self.conj(c.dec, lp.declen), c, acc, base)
                stop = []
                for b in lp.breaks:
                    stop.append(self.conj(b.dec, lp.declen))
                for b, cc in zip(reversed(lp.breaks), reversed(stop)):
                    acc = b if acc.dead else self.merge(cc, b, acc, base)
                if acc.dead and not rets:
                    # every iteration ends in an exception
                    self.depth = level
                    if count is not None:
                        pass
                    break
                if acc.dead: acc = s0
                d = [x for x in self.diff_slots(s0, acc) if x not in changed]
                # loop-invariant caches filled inside the loop are hoisted
                redo = False
                for sl in list(d):
                    if sl[0] == "attr" and sl not in hoisted:
                        v = self.read_slot(acc, sl)
                        tv = self.term(acc, v) if isinstance(v, (Term, TRef)) else (self.segterm(acc, acc.heap[v.oid].segs) if isinstance(v, Ref) and isinstance(acc.heap.get(v.oid), Lst) and v.oid not in st.heap else None)
                        if tv is not None and not self.mentions(tv, level):
                            hoisted.add(sl)
                            if isinstance(v, Ref): st.heap[v.oid] = acc.heap[v.oid].copy()
                            self.write_slot(st, sl, v); d.remove(sl); redo = True
                if not d and not redo: break
                changed.extend(d)
            else:
                raise Unsupported("loop summary did not stabilise")
            if acc.dead:
                return
            n = count if count is not None else mk("whilecount", cnd) 
            stopc = self.tor(stop) if stop else FALSE
            fvs = {}
            for sl in changed:
                if sl[0] in ("env", "attr", "cell"):
                    b = self.read_slot(acc, sl); i0 = self.read_slot(st, sl)
                    if sl[0] == "cell" and i0 is None: i0 = self.cellbase.get(sl[1], mk("undef"))
                    fvs[sl] = (self.slot_term(st, i0), self.slot_term(acc, b), b, i0)
            hdr = mk("while", cnd) if count is None else n
            # returns inside the loop
            for rs, rv in rets:
                cc = self.conj(rs.dec, lp.declen)
                ex = mk("exists", level, hdr, cc)
                rs2 = st.copy()
                rs2.dec = st.dec + ((ex, True, "b"),)
                val = self.term(rs, rv) if not isinstance(rv, (Ref, TupleVal, Func)) else self.snapshot(rs, rv)
                if self.mentions(val, level): val = mk("first", level, hdr, cc, val)
                fr.returns.append((rs2, self.wrap(val) if val is not NONE and not is_const(val) else val))
                self.assume(st, ex, False)
            # appends
            for sl in changed:
                if sl[0] == "list":
                    segs = acc.heap[sl[1]].segs if sl[1] in acc.heap else None
                    mu = mus.get(sl)
                    orig = list(st.heap[sl[1]].segs)
                    if segs and isinstance(segs[0], Splat) and segs[0].term is mu:
                        tail = self.segterm(acc, segs[1:])
                        ok = not any(x is mu for x in T.walk(tail))
                        allmu = [m for s2, m in mus.items() if s2 != sl]
                        if ok:
                            dep = [m for m in allmu if any(x is m for x in T.walk(tail))]
                            if not dep and stopc is FALSE and count is not None:
                                self.write_slot(st, sl, orig + [Splat(self.mkflat(level, hdr, tail))])
                                continue
                    t = self.mkfold(level, hdr, stopc, sl, changed, mus, fvs, acc, st)
                    self.write_slot(st, sl, [Splat(t)])
                elif sl[0] == "dict":
                    st.heap[sl[1]] = Dct({}, self.mkfold(level, hdr, stopc, sl, changed, mus, fvs, acc, st))
            new = {}
            for sl in changed:
                if sl[0] in ("env", "attr", "cell"):
                    i0, b, bv, iv = fvs[sl]
                    t = self.mkfold(level, hdr, stopc, sl, changed, mus, fvs, acc, st)
                    if sl[0] == "cell": new[sl] = t
                    else: new[sl] = self.wrap(t)
            # objects allocated inside the loop may still be reachable
            for oid, o in acc.heap.items():
                if oid not in st.heap: st.heap[oid] = o
            for sl, v in new.items():
                if sl[0] == "attr" and sl[1] not in st.heap: continue
                self.write_slot(st, sl, v)
            if orelse and not st.dead:
                self.exec_block(st, orelse)
        finally:
            self.depth = level

    def slot_term(self, st, v):
        if v is UNDEF or v is None: return mk("undef")
        if isinstance(v, Term): return v
        if isinstance(v, TRef): return self.term(st, v)
        return self.snapshot(st, v)

    def install_mu(self, s, sl, mus, level, st):
        m = mus.get(sl)
        if sl[0] == "list":
            if m is None:
                m = mus[sl] = mk("mu", level, self.new()); m.kind_ = ("list", T.ANY)
            s.heap[sl[1]].segs = [Splat(m)]
            return
        if sl[0] == "dict":
            if m is None:
                m = mus[sl] = mk("mu", level, self.new()); m.kind_ = ("dict",)
            s.heap[sl[1]] = Dct({}, m)
            return
        v0 = self.read_slot(st, sl)
        if m is None:
            m = mus[sl] = mk("mu", level, self.new())
            t0 = self.slot_term(st, v0)
            k = kind(t0) if t0.op != "undef" else T.ANY
            m.kind_ = k if k[0] not in ("none",) else T.ANY
            sh = T.shape(t0) if t0.op != "undef" else None
            if sh is not None: m.shape_ = sh
        if sl[0] == "cell": s.over[sl[1]] = m
        elif sl[0] == "env" and v0 is UNDEF: s.envs[sl[1]].pop(sl[2], None)
        else: self.write_slot(s, sl, self.wrap(m))

    def mkflat(self, level, n, tail):
        """tail: list term appended per iteration"""
        if tail.op == "list" and len(tail.args) == 1 and tail.args[0].op != "splat":
            return mk("map", level, n, tail.args[0])
        return mk("flatmap", level, n, tail)

    def mkfold(self, level, hdr, stop, sl, changed, mus, fvs, acc, st):
        for s2 in changed:
            if s2 not in mus: mus[s2] = mk("mu", level, self.new())
            if s2 not in fvs and s2[0] == "list":
                fvs[s2] = (self.segterm(st, st.heap[s2[1]].segs), self.segterm(acc, acc.heap[s2[1]].segs), None, None)
            if s2 not in fvs and s2[0] == "dict":
                fvs[s2] = (self.snapshot(st, Ref(s2[1])), self.snapshot(acc, Ref(s2[1])), None, None)
        by = {mus[s2]: s2 for s2 in changed}
        need = []; todo = [mus[sl]]
        if stop is not FALSE: todo += [x for x in T.walk(stop) if x in by]
        if hdr.op == "while": todo += [x for x in T.walk(hdr.args[0]) if x in by]
        while todo:
            m = todo.pop(0)
            if m in need: continue
            need.append(m)
            todo += sorted((x for x in T.walk(fvs[by[m]][1]) if x in by), key=lambda x: x.args[1])
        return mk("fold", level, hdr, mus[sl], stop, *[mk("fv", m, fvs[by[m]][0], fvs[by[m]][1]) for m in need])

    # ------------------------------------------------------------ calls of repository functions
    def qual(self, f):
        return f.module.name + ":" + (f.cls.name + "." if f.cls is not None else "") + f.name

    def call_func(self, st, f, args, kwargs, self_=None, starkw=None):
        q = self.qual(f)
        if q in self.opaque or f.name in self.opaque:
            fr = Frame(self.new(), f, f.module, len(st.dec)); fr.self_ = self_; env = {}
            self.visited.add(q)
            self.frames.append(fr)
            try: self.bind_args(st, f, args, kwargs, self_, env)
            finally: self.frames.pop()
            ps = f.node.args
            a = [self.snapshot(st, self.materialize(st, env[p.arg])) for p in ps.posonlyargs + ps.args + ps.kwonlyargs if p.arg in env]
            t = self.mark(mk("call", "repo." + f.name, *a))
            spec = self.opaque.get(q) or self.opaque.get(f.name)
            if not spec: return self.wrap(t)
            from .drive import split_top, dimsym, DT
            parts = split_top(spec, ",")
            out = []
            for i, sp in enumerate(parts):
                r = mk("getitem", t, const(i)) if len(parts) > 1 else t
                dims = [dimsym(z) for z in split_top(sp[2:-1], ",")]
                r.kind_ = ("tensor", len(dims), DT[sp[0]]); r.shape_ = tuple(dims)
                out.append(self.wrap(self.mark(r)))
            return TupleVal(out) if len(out) > 1 else out[0]
        if len(self.frames) > MAXDEPTH or sum(1 for fr in self.frames if fr.func and fr.func.node is f.node) >= 4:
            self.note("recursion on %s cut" % q)
            a = [self.snapshot(st, x) for x in ([self_] if self_ is not None else []) + list(args)]
            return self.wrap(mk("call", "repo." + f.name, *a, *[T.kw(k, self.snapshot(st, v)) for k, v in sorted(kwargs.items())]))
        self.visited.add(q)
        fid = self.new()
        entry = st.dec; cloc = self.loc
        fr = Frame(fid, f, f.module, len(entry))
        fr.self_ = self_
        env = {}
        if isinstance(f.node, ast.Lambda) or isinstance(f.node, ast.FunctionDef):
            self.frames.append(fr)
            try:
                self.bind_args(st, f, args, kwargs, self_, env)
            finally:
                self.frames.pop()
        st.envs[fid] = env
        ng = 0
        for d in getattr(f.node, "decorator_list", []):
            src = ast.unparse(d)
            if "no_grad" in src or "inference_mode" in src: ng += 1
        self.frames.append(fr); self.nograd += ng
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.eval(st, f.node.body)
                fr.returns.append((st.copy(), v)); st.dead = True
            else:
                self.exec_block(st, f.node.body)
                if fr.yields is not None or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in self.own_nodes(f.node)):
                    if not st.dead:
                        if fr.yields is None: fr.yields = self.alloc(st, Lst([]))
                        fr.returns.append((st.copy(), fr.yields)); st.dead = True
        finally:
            self.frames.pop(); self.nograd -= ng
        self.loc = cloc
        rets = list(fr.returns)
        if not st.dead:
            rets.append((st.copy(), NONE))
        if not rets:
            st.dead = True
            raise Dead()
        s, v = rets[-1]
        s = s.copy(); s.dec = entry; s.dead = False
        for rs, rv in reversed(rets[:-1]):
            c = self.conj(rs.dec, len(entry))
            if c is TRUE:
                s, v = rs.copy(), rv; s.dec = entry
                continue
            rs = rs.copy(); rs.dead = False
            nv = self.merge_val(st, c, rv, v, rs, s)
            s = self.merge(c, rs, s, entry)
            v = nv
        keep = any(isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not f.node for x in ast.walk(f.node))
        if not keep: s.envs.pop(fid, None)
        st.assign(s)
        st.dead = False
        return v

    def own_nodes(self, node):
        st = list(ast.iter_child_nodes(node))
        while st:
            x = st.pop()
            yield x
            if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                st.extend(ast.iter_child_nodes(x))

    def bind_args(self, st, f, args, kwargs, self_, env):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = list(args)
        if self_ is not None: vals = [self_] + vals
        kwargs = dict(kwargs)
        for nm, v in zip(names, vals): env[nm] = v
        if len(vals) > len(names):
            if a.vararg: env[a.vararg.arg] = TupleVal(vals[len(names):])
            else:
                self.event(st, "badcall", (f.name, "too many arguments")); self.do_raise(st, "TypeError"); st.dead = True; raise Dead()
        elif a.vararg: env[a.vararg.arg] = TupleVal([])
        nd = len(a.defaults)
        st.envs.setdefault(self.frames[-1].fid, env)
        for i, nm in enumerate(names):
            if nm in env: 
                continue
            if nm in kwargs: env[nm] = kwargs.pop(nm); continue
            j = i - (len(names) - nd)
            if j >= 0: env[nm] = self.eval_default(st, f, a.defaults[j])
            else:
                self.event(st, "badcall", (f.name, "missing argument " + nm)); self.do_raise(st, "TypeError"); st.dead = True; raise Dead()
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kwargs: env[x.arg] = kwargs.pop(x.arg)
            elif d is not None: env[x.arg] = self.eval_default(st, f, d)
            else:
                self.event(st, "badcall", (f.name, "missing keyword " + x.arg)); self.do_raise(st, "TypeError"); st.dead = True; raise Dead()
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc(st, Dct({const(k): v for k, v in kwargs.items()}))
        elif kwargs:
            self.event(st, "badcall", (f.name, "unexpected " + ",".join(kwargs))); self.do_raise(st, "TypeError"); st.dead = True; raise Dead()

    def eval_default(self, st, f, node):
        fr = self.frames[-1]
        return self.eval(st, node)
