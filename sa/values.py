"""Abstract values and abstract states of the value-graph analysis."""
from . import terms as T
from .terms import Term, mk, const, NONE, TRUE, FALSE

class Value: pass
class TupleVal(Value):
    __slots__ = ("items", "cls")
    def __init__(self, items, cls=None): self.items = tuple(items); self.cls = cls
class Ref(Value):
    __slots__ = ("oid",)
    def __init__(self, oid): self.oid = oid
    def __eq__(self, o): return isinstance(o, Ref) and o.oid == self.oid
    def __hash__(self): return hash(("ref", self.oid))
class TRef(Value):
    """a tensor-like value: a storage cell seen through a chain of view operations"""
    __slots__ = ("cell", "base", "chain", "cur")
    def __init__(self, cell, base, chain=(), cur=None):
        self.cell = cell; self.base = base; self.chain = chain
        self.cur = cur if cur is not None else apply_chain(base, chain)
class Func(Value):
    __slots__ = ("node", "module", "closure", "cls", "name", "env")
    def __init__(self, node, module, closure=None, cls=None, name=None, env=None):
        self.node = node; self.module = module; self.closure = closure; self.cls = cls
        self.name = name or getattr(node, "name", "<lambda>"); self.env = env
class Cls(Value):
    __slots__ = ("node", "module", "name", "bases_")
    def __init__(self, node, module): self.node = node; self.module = module; self.name = node.name; self.bases_ = None
    def __eq__(self, o): return isinstance(o, Cls) and o.node is self.node
    def __hash__(self): return id(self.node)
class Mod(Value):
    __slots__ = ("module",)
    def __init__(self, m): self.module = m
class Ext(Value):
    __slots__ = ("name",)
    def __init__(self, n): self.name = n
class Bound(Value):
    __slots__ = ("func", "self_")
    def __init__(self, f, s): self.func = f; self.self_ = s
class BoundExt(Value):
    __slots__ = ("recv", "name")
    def __init__(self, r, n): self.recv = r; self.name = n
class Choice(Value):
    __slots__ = ("cond", "a", "b")
    def __init__(self, c, a, b): self.cond = c; self.a = a; self.b = b
class Super(Value):
    __slots__ = ("cls", "self_")
    def __init__(self, c, s): self.cls = c; self.self_ = s
class InstDict(Value):
    """the attribute dictionary of an object"""
    __slots__ = ("oid",)
    def __init__(self, oid): self.oid = oid
class Undef(Value):
    pass
UNDEF = Undef()

def apply_chain(base, chain):
    t = base
    for op, rest in chain:
        t = T.getitem(t, rest[0]) if op == "getitem" else mk(op, t, *rest)
    return t

class Splat:
    __slots__ = ("term",)
    def __init__(self, t): self.term = t
    def __eq__(self, o): return isinstance(o, Splat) and o.term is self.term
    def __hash__(self): return hash(self.term)

class Obj:
    __slots__ = ("cls", "attrs", "origin")
    def __init__(self, cls, attrs=None, origin=None): self.cls = cls; self.attrs = attrs or {}; self.origin = origin
    def copy(self): return Obj(self.cls, dict(self.attrs), self.origin)
class Lst:
    __slots__ = ("segs", "origin")
    def __init__(self, segs, origin=None): self.segs = list(segs); self.origin = origin
    def copy(self): return Lst(self.segs, self.origin)
    def concrete(self): return not any(isinstance(s, Splat) for s in self.segs)
class Dct:
    """items: key term -> value; `extra`: terms describing symbolic updates"""
    __slots__ = ("items", "base", "origin")
    def __init__(self, items=None, base=None, origin=None): self.items = dict(items or {}); self.base = base; self.origin = origin
    def copy(self): return Dct(self.items, self.base, self.origin)

class SetV:
    """a mutable set of known elements: element term -> condition under which it is present"""
    __slots__ = ("items", "origin")
    def __init__(self, items=None, origin=None): self.items = dict(items or {}); self.origin = origin
    def copy(self): return SetV(self.items, self.origin)
    def certain(self): return all(c is TRUE for c in self.items.values())

class State:
    def __init__(self):
        self.envs = {}; self.heap = {}; self.over = {}; self.facts = {}; self.dec = (); self.dead = False
    def copy(self):
        s = State()
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        s.heap = {k: v.copy() for k, v in self.heap.items()}
        s.over = dict(self.over); s.facts = dict(self.facts); s.dec = self.dec; s.dead = self.dead
        return s
    def assign(self, o):
        self.envs = o.envs; self.heap = o.heap; self.over = o.over; self.facts = o.facts; self.dec = o.dec; self.dead = o.dead

class Dead(Exception):
    """the current abstract path ends here"""
class Unsupported(Exception):
    pass
