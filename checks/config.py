"""Scenarios over the configuration tree: keys are known, values are unknown."""
PRE = '''
import yaml
from gradslam.config import CfgNode, load_cfg
class Sub(CfgNode):
    pass
def plain(c):
    """the tree as plain dictionaries"""
    return {k: plain(c[k]) if isinstance(c[k], CfgNode) else c[k] for k in c.keys()}
'''
SC = []
def add(id, props, args, body, **kw):
    names = [a.split(":")[0].strip() for a in args.split(";") if a.strip()]
    SC.append(dict(id="cfg-" + id, props=props.split(), args=args, src=PRE + "def main(%s):\n" % ", ".join(names) + "\n".join("    " + l for l in body.strip("\n").split("\n")), **kw))
def bad(id, props, args, body, **kw): add(id, props, args, body + "\nreturn {'r': 1}", dead=True, **kw)

VALS = "a:int;b:float;u:bool;s:str;p:int;q:float"
# one original and one replacement of every type
ORIG = {"int": "a", "float": "b", "bool": "u", "str": "s", "list": "[a, p]", "tuple": "(a, p)", "node": "{'z': a}"}
REPL = {"int": "p", "float": "q", "bool": "not u", "str": "'word'", "list": "[p, p, a]", "tuple": "(p, a)", "node": "{'z': p}"}
def ok(x, y): return x == y or {x, y} == {"list", "tuple"}
def after(x, y):
    r = REPL[y]
    return r if x == y else "tuple(%s)" % r if x == "tuple" else "list(%s)" % r
BASE = "c = CfgNode({'keep': b, 'x': %s, 'n': {'x': %s, 'keep': s, 'm': {'x': %s}}})"
for x in ORIG:
    for y in REPL:
        o = ORIG[x]; r = REPL[y]; base = BASE % (o, o, o)
        routes = {
            "other": "c.merge_from_other_cfg(CfgNode({'x': %s}))" % r,
            "other-nested": "c.merge_from_other_cfg(CfgNode({'n': {'m': {'x': %s}}}))" % r,
            "list": "c.merge_from_list(['x', %s])" % r,
            "list-nested": "c.merge_from_list(['n.m.x', %s])" % r,
        }
        for nm, call in routes.items():
            if not ok(x, y):
                bad("type-%s-%s-%s" % (nm, x, y), "P31", VALS, base + "\n" + call); continue
            v = after(x, y)
            top, low = (v, o) if "nested" not in nm else (o, v)
            add("type-%s-%s-%s" % (nm, x, y), "P31", VALS, base + "\n" + call + '''
return {"=tree": (plain(c), {'keep': b, 'x': %s, 'n': {'x': %s, 'keep': s, 'm': {'x': %s}}}), "=node": (isinstance(c.n, CfgNode) and isinstance(c.n.m, CfgNode) and type(c) is CfgNode, True)%s}
''' % (top, o, low, ', "=type": (isinstance(c.%s, %s), True)' % ("n.m.x" if "nested" in nm else "x", x) if x in ("list", "tuple") else ""))
# unsupported types
for k, v in (("none", "None"), ("set", "set()"), ("class", "CfgNode"), ("function", "plain"), ("bytes", "b'a'")):
    bad("leaf-build-" + k, "P31", "a:int", "c = CfgNode({'x': a, 'n': {'y': %s}})" % v)
    bad("leaf-set-" + k, "P31", "a:int", "c = CfgNode({'x': a})\nc.x = %s" % v)
    bad("leaf-set-new-" + k, "P31", "a:int", "c = CfgNode({'x': a})\nc.y = %s" % v)
    if k != "bytes": bad("leaf-list-" + k, "P31", "a:int", "c = CfgNode({'x': a})\nc.merge_from_list(['x', %s])" % v)
    if k != "bytes": bad("leaf-new-" + k, "P31", "a:int", "c = CfgNode({'x': a}, new_allowed=True)\nd = CfgNode()\nd['y'] = %s\nc.merge_from_other_cfg(d)" % v)
bad("leaf-set-dict", "P31", "a:int", "c = CfgNode({'x': a})\nc.y = {'z': a}")
add("leaf-set-ok", "P31", VALS, '''
c = CfgNode()
c.a = a; c.b = b; c.u = u; c.s = s; c.l = [a, b]; c.t = (a, b); c.n = CfgNode({'a': a})
return {"=tree": (plain(c), {'a': a, 'b': b, 'u': u, 's': s, 'l': [a, b], 't': (a, b), 'n': {'a': a}}), "=items": (c["t"], c.t)}
''')
# keys
for nm, call in (("other", "c.merge_from_other_cfg(CfgNode({%s: p}))"), ("list", "c.merge_from_list([%s, p])")):
    bad("key-unknown-" + nm, "P31", VALS, "c = CfgNode({'x': a, 'n': {'y': b}})\n" + call % "'z'")
bad("key-unknown-nested-other", "P31", VALS, "c = CfgNode({'x': a, 'n': {'y': b}})\nc.merge_from_other_cfg(CfgNode({'n': {'x': p}}))")
bad("key-unknown-deep-other", "P31", VALS, "c = CfgNode({'x': a, 'n': {'m': {'y': b}}})\nc.merge_from_other_cfg(CfgNode({'n': {'m': {'z': b}}}))")
bad("key-unknown-nested-list", "P31", VALS, "c = CfgNode({'x': a, 'n': {'y': b}})\nc.merge_from_list(['n.x', p])")
bad("key-unknown-parent-list", "P31", VALS, "c = CfgNode({'x': a, 'n': {'y': b}})\nc.merge_from_list(['m.y', q])")
bad("key-unknown-second-list", "P31", VALS, "c = CfgNode({'x': a, 'n': {'y': b}})\nc.merge_from_list(['x', p, 'y', q])")
bad("key-odd-list", "P31", VALS, "c = CfgNode({'x': a, 'n': {'y': b}})\nc.merge_from_list(['x', p, 'x'])")
bad("merge-dict", "P31", VALS, "c = CfgNode({'x': a})\nc.merge_from_other_cfg({'x': p})")
add("key-new-allowed", "P31", VALS, '''
c = CfgNode({'x': a, 'n': {'y': b}}, new_allowed=True)
c.merge_from_other_cfg(CfgNode({'x': p, 'w': q, 'k': {'d': s}}))
return {"=tree": (plain(c), {'x': p, 'n': {'y': b}, 'w': q, 'k': {'d': s}}), "=node": (isinstance(c.k, CfgNode), True), "=flag": (c.is_new_allowed(), True)}
''')
bad("key-new-allowed-nested", "P31", VALS, "c = CfgNode({'x': a, 'n': {'y': b}}, new_allowed=True)\nc.merge_from_other_cfg(CfgNode({'n': {'z': q}}))")
add("key-new-allowed-below", "P31", VALS, '''
c = CfgNode({'x': a})
c.n = CfgNode({'y': b}, new_allowed=True)
c.merge_from_other_cfg(CfgNode({'n': {'z': p}}))
return {"=tree": (plain(c), {'x': a, 'n': {'y': b, 'z': p}}), "=flag": (c.is_new_allowed(), False)}
''')
add("key-new-default", "P31", VALS, "c = CfgNode({'x': a})\nreturn {'=flag': (c.is_new_allowed(), False), '=empty': (plain(CfgNode()), {}), '=own': (CfgNode().is_new_allowed(), False)}")
for nm, call in (("other", "c.merge_from_other_cfg(CfgNode({'old': p, 'x': p, 'n': {'gone': p, 'y': q}}))"), ("list", "c.merge_from_list(['old', p, 'x', p, 'n.gone', p, 'n.y', q])")):
    add("key-deprecated-" + nm, "P31", VALS, '''
c = CfgNode({'x': a, 'n': {'y': b}})
c.register_deprecated_key('old')
c.register_deprecated_key('n.gone')
%s
return {"=tree": (plain(c), {'x': p, 'n': {'y': q}}), "=known": (c.key_is_deprecated('old') and c.key_is_deprecated('n.gone') and not c.key_is_deprecated('gone') and not c.key_is_deprecated('x'), True)}
''' % call)
    bad("key-deprecated-other-level-" + nm, "P31", VALS, "c = CfgNode({'x': a, 'n': {'y': b}})\nc.register_deprecated_key('gone')\n" + call.replace("'old': p, ", "").replace("'old', p, ", ""))
for nm, call in (("other", "c.merge_from_other_cfg(CfgNode({'x': p, 'n': {'before': p}}))"), ("list", "c.merge_from_list(['x', p, 'n.before', p])")):
    bad("key-renamed-" + nm, "P31", VALS, "c = CfgNode({'x': a, 'n': {'y': b}})\nc.register_renamed_key('n.before', 'n.y')\n" + call)
    bad("key-renamed-message-" + nm, "P31", VALS, "c = CfgNode({'x': a, 'n': {'y': b}})\nc.register_renamed_key('n.before', 'n.y', 'use a number')\n" + call)
add("key-renamed-known", "P31", VALS, '''
c = CfgNode({'x': a, 'n': {'y': b}})
c.register_renamed_key('n.before', 'n.y')
c.merge_from_other_cfg(CfgNode({'x': p}))
return {"=tree": (plain(c), {'x': p, 'n': {'y': b}}), "=known": (c.key_is_renamed('n.before') and not c.key_is_renamed('before') and not c.key_is_renamed('x'), True), "=other": (CfgNode().key_is_renamed('n.before'), False)}
''')
bad("key-deprecated-twice", "P31", "a:int", "c = CfgNode({'x': a})\nc.register_deprecated_key('old')\nc.register_deprecated_key('old')")
bad("key-renamed-twice", "P31", "a:int", "c = CfgNode({'x': a})\nc.register_renamed_key('old', 'x')\nc.register_renamed_key('old', 'x')")
add("key-registered-separately", "P31 P32", "a:int", '''
c = CfgNode({'x': a}); d = CfgNode({'x': a})
c.register_deprecated_key('old'); c.register_renamed_key('was', 'x')
return {"=other": (d.key_is_deprecated('old') or d.key_is_renamed('was'), False)}
''')
# several at once, order of keys, untouched neighbours
add("merge-many-other", "P31", VALS, '''
c = CfgNode({'x': a, 'l': [a], 'n': {'y': b, 'm': {'t': (a, a), 's': s}}, 'k': {'u': u}})
d = CfgNode({'k': {'u': not u}, 'n': {'m': {'t': [p, a, p]}}, 'l': (p, a)})
c.merge_from_other_cfg(d)
return {"=tree": (plain(c), {'x': a, 'l': [p, a], 'n': {'y': b, 'm': {'t': (p, a, p), 's': s}}, 'k': {'u': not u}}), "=keys": (list(c.keys()), ['x', 'l', 'n', 'k']), "=source": (plain(d), {'k': {'u': not u}, 'n': {'m': {'t': [p, a, p]}}, 'l': (p, a)})}
''')
add("merge-many-list", "P31", VALS, '''
c = CfgNode({'x': a, 'l': [a], 'n': {'y': b, 'm': {'t': (a, a), 's': s}}, 'k': {'u': u}})
o = ['n.m.s', 'word', 'x', p, 'k.u', not u, 'n.y', q, 'x', a]
c.merge_from_list(o)
return {"=tree": (plain(c), {'x': a, 'l': [a], 'n': {'y': q, 'm': {'t': (a, a), 's': 'word'}}, 'k': {'u': not u}}), "=overrides": (o, ['n.m.s', 'word', 'x', p, 'k.u', not u, 'n.y', q, 'x', a])}
''')
add("merge-empty", "P31", VALS, '''
c = CfgNode({'x': a, 'n': {'y': b}})
c.merge_from_other_cfg(CfgNode()); c.merge_from_list([]); c.merge_from_other_cfg(CfgNode({'n': {}}))
return {"=tree": (plain(c), {'x': a, 'n': {'y': b}})}
''')
# decoding of override strings
for nm, lit, want in (("int", "12", "12"), ("float", "0.5", "0.5"), ("bool", "True", "True"), ("list", "[1, 2]", "[1, 2]"), ("tuple", "(1, 2)", "(1, 2)"), ("string", "'quoted'", "'quoted'"), ("word", "word", "'word'"), ("path", "foo/bar", "'foo/bar'"), ("spaces", "a b c", "'a b c'"), ("call", "print(1)", "'print(1)'"), ("import", "__import__('os')", "\"__import__('os')\""), ("name", "plain", "'plain'"), ("attr", "a.b", "'a.b'"), ("empty", "", "''"), ("negative", "-3", "-3"), ("nested", "[(1, 2), [3]]", "[(1, 2), [3]]"), ("sum", "1+1j*0", "'x'")):
    if nm == "sum": continue
    first = {"int": "0", "float": "0.0", "bool": "False", "list": "[0]", "tuple": "(0,)", "negative": "0", "nested": "[0]"}.get(nm, "''")
    for rt, call in (("list", "c.merge_from_list(['n.x', %r])" % lit), ("other", "c.merge_from_other_cfg(CfgNode({'n': {'x': %r}}))" % lit)):
        add("decode-%s-%s" % (rt, nm), "P31 P33", "a:int", "c = CfgNode({'n': {'x': %s}})\n%s\nreturn {'=value': (c.n.x, %s)}" % (first, call, want), rules=["no_code"])
bad("decode-type-int", "P31", "a:int", "c = CfgNode({'x': a})\nc.merge_from_list(['x', '0.5'])")
bad("decode-type-word", "P31", "a:int", "c = CfgNode({'x': a})\nc.merge_from_list(['x', 'word'])")
bad("decode-type-none", "P31", "a:int", "c = CfgNode({'x': a})\nc.merge_from_list(['x', 'None'])")
bad("decode-type-str", "P31", "s:str", "c = CfgNode({'x': s})\nc.merge_from_list(['x', '12'])")
add("decode-list-dict", "P31", VALS, '''
c = CfgNode({'x': a, 'n': {'y': b, 'z': 1}})
c.merge_from_list(['n', {'y': q}])
return {"=tree": (plain(c), {'x': a, 'n': {'y': q, 'z': 1}}), "=node": (isinstance(c.n, CfgNode), True)}
''')
# no sharing with the source
add("alias-other", "P31 P34", VALS, '''
c = CfgNode({'l': [a], 'n': {'l': [a]}}); d = CfgNode({'l': [p, p], 'n': {'l': [p, p]}})
c.merge_from_other_cfg(d)
c.l.append(a); c.n.l.append(a)
return {"=source": (plain(d), {'l': [p, p], 'n': {'l': [p, p]}}), "=target": (plain(c), {'l': [p, p, a], 'n': {'l': [p, p, a]}})}
''')
add("alias-other-back", "P31 P34", VALS, '''
c = CfgNode({'l': [a], 'n': {'l': [a]}}); d = CfgNode({'l': [p, p], 'n': {'l': [p, p]}})
c.merge_from_other_cfg(d)
d.l.append(a); d.n.l.append(a); d.n.l[0] = a
return {"=target": (plain(c), {'l': [p, p], 'n': {'l': [p, p]}})}
''')
add("alias-other-new", "P31 P34", VALS, '''
c = CfgNode({'x': a}, new_allowed=True); d = CfgNode({'l': [p, p], 'n': {'l': [p, p], 'm': {'k': p}}})
c.merge_from_other_cfg(d)
d.l.append(a); d.n.l.append(a); d.n.m.k = a
return {"=target": (plain(c), {'x': a, 'l': [p, p], 'n': {'l': [p, p], 'm': {'k': p}}}), "=back": (plain(d), {'l': [p, p, a], 'n': {'l': [p, p, a], 'm': {'k': a}}})}
''')
add("alias-list", "P31 P34", VALS, '''
c = CfgNode({'l': [a], 'n': {'l': [a]}}); v = [p, p]; o = ['l', v, 'n.l', v]
c.merge_from_list(o)
c.l.append(a)
return {"=override": (v, [p, p]), "=other": (c.n.l, [p, p]), "=target": (c.l, [p, p, a])}
''')
add("alias-build", "P31 P32 P34", VALS, '''
d = {'l': [a], 'n': {'l': [a], 'm': {'k': a}}}
c = CfgNode(d)
c.l.append(p); c.n.l.append(p); c.n.m.k = p
return {"=source": (d, {'l': [a], 'n': {'l': [a], 'm': {'k': a}}}), "=target": (plain(c), {'l': [a, p], 'n': {'l': [a, p], 'm': {'k': p}}})}
''')
add("alias-build-back", "P31 P32 P34", VALS, '''
d = {'l': [a], 'n': {'l': [a], 'm': {'k': a}}}
c = CfgNode(d)
d['l'].append(p); d['n']['l'].append(p); d['n']['m']['k'] = p
return {"=target": (plain(c), {'l': [a], 'n': {'l': [a], 'm': {'k': a}}}), "=nodes": (isinstance(c.n, CfgNode) and isinstance(c.n.m, CfgNode), True)}
''')
add("alias-keylist", "P34", VALS, '''
k = ['root']; d = {'n': {'m': {'k': a}}}
c = CfgNode(d, k)
return {"=keys": (k, ['root']), "=source": (d, {'n': {'m': {'k': a}}})}
''')
# ================================================================ P32
TREE = "c = CfgNode({'x': a, 'l': [a], 'n': {'y': b, 'm': {'z': a, 'k': {'w': b}}}, 'o': {'q': a}})"
PATHS = ["", ".n", ".n.m", ".n.m.k", ".o"]
add("freeze-tree", "P32", VALS, TREE + "\nc.freeze()\nf = [%s]\nc.defrost()\ng = [%s]\nreturn {'=frozen': (f, [True] * 5), '=defrosted': (g, [False] * 5), '=values': (plain(c), {'x': a, 'l': [a], 'n': {'y': b, 'm': {'z': a, 'k': {'w': b}}}, 'o': {'q': a}})}" % (", ".join("c%s.is_frozen()" % p for p in PATHS), ", ".join("c%s.is_frozen()" % p for p in PATHS)))
add("freeze-initial", "P32", VALS, TREE + "\nreturn {'=open': ([%s], [False] * 5)}" % ", ".join("c%s.is_frozen()" % p for p in PATHS))
for p in PATHS:
    nm = p.replace(".", "-") or "-root"
    old = {"": "x", ".n": "y", ".n.m": "z", ".n.m.k": "w", ".o": "q"}[p]
    for what, tgt, val in (("existing", old, "p"), ("new", "fresh", "p"), ("same", old, "c%s.%s" % (p, old)), ("node", "fresh", "CfgNode()")):
        bad("frozen-set%s-%s" % (nm, what), "P32", VALS, TREE + "\nc.freeze()\nc%s.%s = %s" % (p, tgt, val))
    bad("frozen-setattr%s" % nm, "P32", VALS, TREE + "\nc.freeze()\nsetattr(c%s, %r, p)" % (p, old))
    bad("frozen-twice%s" % nm, "P32", VALS, TREE + "\nc.freeze()\nc.freeze()\nc%s.%s = p" % (p, old))
    bad("frozen-clone%s" % nm, "P32", VALS, TREE + "\nc.freeze()\nd = c.clone()\nd%s.%s = p" % (p, old))
    add("defrost-set%s" % nm, "P32", VALS, TREE + "\nc.freeze()\nc.defrost()\nc%s.%s = %s\nreturn {'=value': (c%s.%s, %s)}" % (p, old, "p" if old not in "yw" else "q", p, old, "p" if old not in "yw" else "q"))
    add("clone-independent%s" % nm, "P32", VALS, TREE + '''
d = c.clone()
before = plain(d)
c%s.%s = p; c.l.append(p); c%s.fresh = p
return {"=copy": (plain(d), {'x': a, 'l': [a], 'n': {'y': b, 'm': {'z': a, 'k': {'w': b}}}, 'o': {'q': a}}), "=types": (type(d) is CfgNode and isinstance(d.n.m.k, CfgNode) and isinstance(d.o, CfgNode), True)}
''' % (p, old, p))
    add("clone-back%s" % nm, "P32", VALS, TREE + '''
d = c.clone()
d%s.%s = p; d.l.append(p); d%s.fresh = p
return {"=original": (plain(c), {'x': a, 'l': [a], 'n': {'y': b, 'm': {'z': a, 'k': {'w': b}}}, 'o': {'q': a}})}
''' % (p, old, p))
    for fl in ("IMMUTABLE", "DEPRECATED_KEYS", "RENAMED_KEYS", "NEW_ALLOWED"):
        bad("internal%s-%s" % (nm, fl), "P32", VALS, TREE + "\nsetattr(c%s, CfgNode.%s, %s)" % (p, fl, "True" if fl in ("IMMUTABLE", "NEW_ALLOWED") else "[]"))
add("freeze-part", "P32", VALS, TREE + "\nc.n.freeze()\nreturn {'=frozen': ([%s], [False, True, True, True, False])}" % ", ".join("c%s.is_frozen()" % p for p in PATHS))
add("defrost-part", "P32", VALS, TREE + "\nc.freeze()\nc.n.defrost()\nreturn {'=frozen': ([%s], [True, False, False, False, True])}" % ", ".join("c%s.is_frozen()" % p for p in PATHS))
add("clone-frozen", "P32", VALS, TREE + "\nc.freeze()\nd = c.clone()\nd.defrost()\nd.n.y = q\nreturn {'=original': ([%s], [True] * 5), '=copy': ([%s], [False] * 5), '=value': (c.n.y, b)}" % (", ".join("c%s.is_frozen()" % p for p in PATHS), ", ".join("d%s.is_frozen()" % p for p in PATHS)))
add("clone-state", "P32", VALS, '''
c = CfgNode({'x': a}, new_allowed=True)
c.register_deprecated_key('old'); c.register_renamed_key('was', 'x')
d = c.clone()
d.register_deprecated_key('other'); d.register_renamed_key('been', 'x')
return {"=state": ([d.is_new_allowed(), d.key_is_deprecated('old'), d.key_is_renamed('was'), d.is_frozen()], [True, True, True, False]), "=original": ([c.key_is_deprecated('other'), c.key_is_renamed('been')], [False, False])}
''')
add("freeze-added", "P32", VALS, '''
c = CfgNode({'x': a})
c.n = CfgNode({'y': b}); c.n.m = CfgNode(); c.n.m.z = a
c.freeze()
return {"=frozen": ([c.is_frozen(), c.n.is_frozen(), c.n.m.is_frozen()], [True] * 3)}
''')
add("freeze-merged", "P32", VALS, '''
c = CfgNode({'x': a}, new_allowed=True)
c.merge_from_other_cfg(CfgNode({'n': {'m': {'z': p}}}))
c.freeze()
return {"=frozen": ([c.is_frozen(), c.n.is_frozen(), c.n.m.is_frozen()], [True] * 3)}
''')
bad("frozen-merged-set", "P32", VALS, "c = CfgNode({'x': a}, new_allowed=True)\nc.merge_from_other_cfg(CfgNode({'n': {'m': {'z': p}}}))\nc.freeze()\nc.n.m.z = a")
bad("frozen-subclass", "P32", VALS, "c = Sub({'x': a, 'n': {'y': b}})\nc.freeze()\nc.n.y = q")
add("subclass", "P32 P31", VALS, "c = Sub({'x': a, 'n': {'y': b}})\nc.merge_from_other_cfg(CfgNode({'n': {'y': q}})) if False else None\nd = c.clone()\nreturn {'=types': (type(c) is Sub and type(c.n) is Sub and type(d) is Sub and type(d.n) is Sub, True), '=tree': (plain(d), {'x': a, 'n': {'y': b}})}")
add("frozen-read", "P32", VALS, TREE + "\nc.freeze()\nreturn {'=tree': (plain(c), {'x': a, 'l': [a], 'n': {'y': b, 'm': {'z': a, 'k': {'w': b}}}, 'o': {'q': a}}), '=get': ([c.x, c['x'], c.n.m.k.w, c['n']['m'].k['w']], [a, a, b, b]), '=has': (['x' in c, 'y' in c, 'y' in c.n], [True, False, True])}")
bad("missing-attr", "P32 P31", VALS, TREE + "\nreturn {'r': c.absent}")
bad("missing-attr-frozen", "P32", VALS, TREE + "\nc.freeze()\nreturn {'r': c.n.absent}")
# ================================================================ P33, P31: files and texts
FILES = {"/c/a.yaml": ("rows", ['{"x": 3, "n": {"y": 0.25, "s": "word"}}']), "/c/b.yml": ("rows", ['{"x": 3}']), "/c/plain": ("rows", ['{"x": 3}']), "/c/c.json": ("rows", ['{"x": 3}']), "/c/d.txt": ("rows", ['{"x": 3}']), "/c/e.YAML": ("rows", ['{"x": 3}']), "/c/g.pyc": ("rows", ['x']), "/c/h.py.txt": ("rows", ['x']), "/c/bad.yaml": ("rows", ['{"x": 0.5}']), "/c/new.yaml": ("rows", ['{"w": 3}']), "/c/py.yaml": ("rows", ['{"x": 3}'])}
for f in ("a.yaml", "b.yml", "plain"):
    add("file-" + f, "P31 P33", VALS, '''
c = CfgNode({'x': a, 'n': {'y': b, 's': s, 'k': a}})
c.merge_from_file("/c/%s")
return {"=tree": (plain(c), {'x': 3, 'n': {'y': %s, 's': %s, 'k': a}})}
''' % (f, "0.25" if f == "a.yaml" else "b", "'word'" if f == "a.yaml" else "s"), fs=FILES, rules=["no_code"])
    add("load-" + f, "P33", VALS, '''
with open("/c/%s") as h:
    c = CfgNode.load_cfg(h)
with open("/c/%s") as h:
    d = load_cfg(h)
return {"=tree": (plain(c), {'x': 3%s}), "=same": (plain(d), plain(c)), "=type": (type(c) is CfgNode and type(d) is CfgNode, True)}
''' % (f, f, ", 'n': {'y': 0.25, 's': 'word'}" if f == "a.yaml" else ""), fs=FILES, rules=["no_code"])
for f in ("c.json", "d.txt", "e.YAML", "g.pyc", "h.py.txt"):
    bad("file-kind-" + f, "P33", VALS, "c = CfgNode({'x': a})\nc.merge_from_file('/c/%s')" % f, fs=FILES)
    bad("load-kind-" + f, "P33", VALS, "with open('/c/%s') as h:\n    c = CfgNode.load_cfg(h)" % f, fs=FILES)
bad("file-type", "P31", VALS, "c = CfgNode({'x': a})\nc.merge_from_file('/c/bad.yaml')", fs=FILES)
bad("file-key", "P31", VALS, "c = CfgNode({'x': a})\nc.merge_from_file('/c/new.yaml')", fs=FILES)
add("text", "P33", VALS, '''
c = load_cfg('{"x": 3, "n": {"y": 0.25, "l": [1, 2]}}')
return {"=tree": (plain(c), {'x': 3, 'n': {'y': 0.25, 'l': [1, 2]}}), "=type": (type(c) is CfgNode and type(c.n) is CfgNode, True)}
''', rules=["no_code"])
add("text-any", "P33", "s:str", "c = load_cfg(s)\nd = CfgNode.load_cfg(s)\nreturn {'=loaded': (c is None, False)}", rules=["no_code"], opaque=("_create_config_tree_from_dict",))
add("override-any", "P33", "s:str", "c = CfgNode({'x': 'word', 'n': {'y': 1}})\nc.merge_from_list(['x', s])\nreturn {'=keys': (list(c.keys()), ['x', 'n'])}", rules=["no_code"])
add("value-any", "P33", "s:str", "c = CfgNode({'x': 'word', 'n': {'y': 1}})\nc.merge_from_other_cfg(CfgNode({'x': s}))\nreturn {'=keys': (list(c.keys()), ['x', 'n'])}", rules=["no_code"])
add("set-any", "P33", "s:str", "c = CfgNode({'x': 'word'})\nc.x = s\nd = c.clone()\nc.freeze()\nt = str(c)\nreturn {'=value': (c.x, s), '=copy': (d.x, s)}", rules=["no_code"])
for k, v in (("none", "None"), ("int", "a"), ("dict", "{'x': a}"), ("list", "['x']"), ("node", "CfgNode({'x': a})")):
    bad("load-argument-" + k, "P33", "a:int", "c = load_cfg(%s)" % v)
