"""Scenarios over the point cloud batch: list and padded views, copies, lockstep of attributes, transforms."""
import re
L3 = "[f[N0,3],f[N1,3]]"; LF = "[f[N0,F],f[N1,F]]"
P3 = "f[2,N,3]"; PF = "f[2,N,F]"
PRE = '''
import torch
from gradslam.structures.pointclouds import Pointclouds
def obs(p):
    """every observation a user can make"""
    return [p.has_points, p.has_normals, p.has_colors, p.has_features, len(p), p.num_features, p.equisized,
            p.points_list, p.normals_list, p.colors_list, p.features_list,
            p.points_padded, p.normals_padded, p.colors_padded, p.features_padded, p.nonpad_mask, p.num_points_per_pointcloud]
def snap(v):
    """the values of now, whatever is written later"""
    if v is None or isinstance(v, (bool, int, float, str, torch.device)): return v
    if isinstance(v, tuple): return tuple([snap(e) for e in v])
    if isinstance(v, list): return [snap(e) for e in v]
    return v.clone()
def lists(p):
    return [p.points_list, p.normals_list, p.colors_list, p.features_list]
def pads(p):
    return [p.points_padded, p.normals_padded, p.colors_padded, p.features_padded, p.nonpad_mask]
def repad(v):
    """padded form a fresh batch gives to these lists"""
    return None if v is None else Pointclouds([x[..., :3] for x in v]).points_padded
def fresh(p):
    """a batch built from the list views of p"""
    return Pointclouds(p.points_list, p.normals_list, p.colors_list, p.features_list)
'''
SC = []
SIZES = {"": dict(N0=7, N1=9, N2=8, M0=6, M1=5, N=8, M=10, F=12), "~desc": dict(N0=9, N1=7, N2=8, M0=5, M1=6, N=8, M=4, F=11), "~short": dict(N0=4, N1=9, N2=8, M0=2, M1=1, N=8, M=3, F=12)}
def add(id, props, args, body, **kw):
    for tag, sz in SIZES.items():
        if tag == "~short" and not id.startswith("append"): continue
        a2 = re.sub(r"\b(N0|N1|N2|M0|M1|N|M|F)\b", lambda m: str(sz[m.group(1)]), args)
        add1(id + tag, props, a2, body, **dict(kw, **({"tier": "thorough"} if tag == "~desc" else {})))
def add1(id, props, args, body, **kw):
    SC.append(dict(id=id, props=props.split(), args=args, src=PRE + "def main(%s):\n" % ", ".join(a.split(":")[0].strip() for a in args_split(args)) + "\n".join("    " + l for l in body.strip("\n").split("\n")), **kw))
def args_split(a):
    from sa.drive import split_top
    return split_top(a, ";")

FULL = "p:%s; n:%s; c:%s; f:%s" % (L3, L3, L3, LF)
FULLP = "p:%s; n:%s; c:%s; f:%s" % (P3, P3, P3, PF)

# ---------------------------------------------------------------- P01 / P02: the two views agree
for att, k in (("points", 3), ("normals", 3), ("colors", 3), ("features", "F")):
    for warm in ("", "a.points_padded; a.normals_list; a.nonpad_mask", "a.offset_(t)"):
        w = {"": "cold", "a.points_padded; a.normals_list; a.nonpad_mask": "warm"}.get(warm, "moved")
        q = "q:[f[N0,%s],f[N1,%s]]" % (k, k)
        add("set-%s-list-%s" % (att, w), "P01", FULL + "; " + q + "; t:f[1,1,3]", '''
a = Pointclouds(p, n, c, f)
%s
a.%s_list = q
e = Pointclouds(p, n, c, f)
want = Pointclouds(e.points_list, %s)
return {"=list": (a.%s_list, q), "=padded": (a.%s_padded, want.%s_padded)}
''' % (warm or "pass", att, ", ".join("%s=%s" % (x, "q" if x == att else y) for x, y in (("normals", "n"), ("colors", "c"), ("features", "f"))) if att != "points" else "n, c, f", att, att, att) if att != "points" else '''
a = Pointclouds(p, n, c, f)
%s
a.points_list = q
want = Pointclouds(q, n, c, f)
return {"=list": (a.points_list, q), "=padded": (a.points_padded, want.points_padded), "=normals": (a.normals_padded, want.normals_padded), "=colors": (a.colors_padded, want.colors_padded), "=features": (a.features_padded, want.features_padded), "=mask": (a.nonpad_mask, want.nonpad_mask)}
''' % (warm or "pass"))
        add("set-%s-padded-%s" % (att, w), "P01", FULLP + "; q:f[2,N,%s]; t:f[1,1,3]" % k, '''
a = Pointclouds(p, n, c, f)
a.points_list; a.normals_list; a.colors_list; a.features_list
%s
a.%s_padded = q
return {"=padded": (a.%s_padded, q), "=list": (a.%s_list, [q[0], q[1]])}
''' % (warm or "pass", att, att, att))
for att, k in (("normals", 3), ("colors", 3), ("features", "F")):
    add("introduce-%s-list" % att, "P01 P03", "p:%s; q:[f[N0,%s],f[N1,%s]]" % (L3, k, k), '''
a = Pointclouds(p)
before = a.has_%s
a.points_padded
a.%s_list = q
want = Pointclouds(p, %s=q)
return {"=before": (before, False), "=flag": (a.has_%s, True), "=padded": (a.%s_padded, want.%s_padded), "=copy": (obs(a.clone()), obs(want))}
''' % (att, att, att, att, att, att))
    add("introduce-%s-padded" % att, "P01 P03", "p:%s; q:f[2,N,%s]" % (P3, k), '''
a = Pointclouds(p)
before = a.has_%s
a.%s_padded = q
want = Pointclouds(p, %s=q)
return {"=before": (before, False), "=flag": (a.has_%s, True), "=list": (a.%s_list, want.%s_list), "=copy": (obs(a.clone()), obs(want))}
''' % (att, att, att, att, att, att))
add("padded-then-points-list", "P01", FULLP + "; q:[f[N,3],f[N,3]]", '''
a = Pointclouds(p, n, c, f)
a.points_list = q
return {"=points": (a.points_padded, torch.stack(q, 0)), "=normals": (a.normals_padded, n), "=colors": (a.colors_padded, c), "=features": (a.features_padded, f)}
''')
OPS = [("offset", "t", "t:f[1,1,3]", "a.offset_(t)"), ("offsetnum", "t", "t:float", "a.offset_(t)"), ("scale", "t", "t:f[1,1,3]", "a.scale_(t)"), ("scalenum", "t", "t:float", "a.scale_(t)"),
       ("rotate", "t", "t:f[3,3]", "a.rotate_(t)"), ("rotateb", "t", "t:f[2,3,3]", "a.rotate_(t)"), ("rotatepost", "t", "t:f[2,3,3]", "a.rotate_(t, pre_multiplication=False)"),
       ("transform", "t", "t:f[4,4]", "a.transform_(t)"), ("transformb", "t", "t:f[2,4,4]", "a.transform_(t)"), ("transformpost", "t", "t:f[4,4]", "a.transform_(t, pre_multiplication=False)"), ("transformpostb", "t", "t:f[2,4,4]", "a.transform_(t, pre_multiplication=False)"),
       ("project", "t", "t:f[4,4]", "a.pinhole_projection_(t)"), ("projectb", "t", "t:f[2,4,4]", "a.pinhole_projection_(t)")]
for nm, v, spec, call in OPS:
    add("inplace-%s" % nm, "P01 P02 P04 P07", FULL + "; " + spec, '''
a = Pointclouds(p, n, c, f)
r = %s
x = a.points_padded
return {"points": a.points_padded, "normals": a.normals_padded, "colors": a.colors_padded, "features": a.features_padded, "mask": a.nonpad_mask, "plist": a.points_list, "nlist": a.normals_list, "clist": a.colors_list, "flist": a.features_list, "=self": (r is a, True)}
''' % call)
    # the result does not depend on which views were already materialised
    add("warm-%s" % nm, "P01", FULL + "; " + spec, '''
a = Pointclouds(p, n, c, f)
a.points_padded; a.points_list; a.normals_list; a.normals_padded; a.colors_list; a.features_list; a.nonpad_mask
%s
got = obs(a)
a = Pointclouds(p, n, c, f)
%s
return {"=same": (got, obs(a))}
''' % (call, call))
    add("padding-%s" % nm, "P02 P01", FULL + "; " + spec, '''
a = Pointclouds(p, n, c, f)
%s
k = a.num_points_per_pointcloud
return {"=points0": (a.points_list[0], a.points_padded[0, :k[0]]), "=points1": (a.points_list[1], a.points_padded[1, :k[1]]), "=normals0": (a.normals_list[0], a.normals_padded[0, :k[0]]), "=normals1": (a.normals_list[1], a.normals_padded[1, :k[1]]), "=count": (k, torch.tensor([p[0].shape[0], p[1].shape[0]])), "=mask": (a.nonpad_mask, Pointclouds(p).nonpad_mask)}
''' % call)
    if not nm.endswith(("num",)):
        pass
add("list-to-padded", "P02 P01", FULL, '''
a = Pointclouds(p, n, c, f)
assert not a.equisized
m = max(p[0].shape[0], p[1].shape[0])
w = torch.zeros((2, a.points_padded.shape[1], 3)); w[0, :p[0].shape[0]] = p[0]; w[1, :p[1].shape[0]] = p[1]
return {"points": a.points_padded, "normals": a.normals_padded, "colors": a.colors_padded, "features": a.features_padded, "mask": a.nonpad_mask, "counts": a.num_points_per_pointcloud}
''')
add("list-to-padded-equal", "P02 P01", "p:[f[N,3],f[N,3]]; n:[f[N,3],f[N,3]]; c:[f[N,3],f[N,3]]; f:[f[N,F],f[N,F]]", '''
a = Pointclouds(p, n, c, f)
assert a.equisized
return {"=points": (a.points_padded, torch.stack(p, 0)), "=normals": (a.normals_padded, torch.stack(n, 0)), "=colors": (a.colors_padded, torch.stack(c, 0)), "=features": (a.features_padded, torch.stack(f, 0)), "mask": a.nonpad_mask}
''')
add("padded-to-list", "P01 P02", FULLP, '''
a = Pointclouds(p, n, c, f)
return {"=points": (a.points_list, [p[0], p[1]]), "=normals": (a.normals_list, [n[0], n[1]]), "=colors": (a.colors_list, [c[0], c[1]]), "=features": (a.features_list, [f[0], f[1]]), "mask": a.nonpad_mask, "counts": a.num_points_per_pointcloud, "obs": obs(a)}
''')
for mut, stmt in (("list", "a.points_list = q"), ("append", "a.append_points(Pointclouds(q, q, q, f))"), ("offset", "a.offset_(t)")):
    add("mask-after-%s" % mut, "P02", FULL + "; q:%s; t:f[1,1,3]" % L3, '''
a = Pointclouds(p, n, c, f)
a.nonpad_mask; a.points_padded
%s
return {"mask": a.nonpad_mask, "points": a.points_padded, "counts": a.num_points_per_pointcloud, "lists": a.points_list}
''' % stmt)

# ---------------------------------------------------------------- P03 / P04 copies
STATES = [("list", FULL, "a = Pointclouds(p, n, c, f)"), ("listpad", FULL, "a = Pointclouds(p, n, c, f); a.points_padded; a.nonpad_mask"), ("moved", FULL + "; t0:f[3,3]", "a = Pointclouds(p, n, c, f).rotate_(t0)"),
          ("shifted", FULL + "; t0:f[1,1,3]", "a = Pointclouds(p, n, c, f).offset_(t0)"), ("padded", FULLP, "a = Pointclouds(p, n, c, f)"), ("bare", "p:%s" % L3, "a = Pointclouds(p)"), ("barepad", "p:%s" % P3, "a = Pointclouds(p)"),
          ("normalsonly", "p:%s; n:%s" % (L3, L3), "a = Pointclouds(p, n)"), ("late", FULL + "; q:%s; t0:f[1,1,3]" % L3, "a = Pointclouds(p, n, c, f).offset_(t0); a.normals_list = q"),
          ("mixed", FULL + "; t0:f[3,3]", "a = Pointclouds(p, n, c, f).rotate_(t0); a.colors_list = c"), ("appended", FULL + "; q:%s; g:%s" % (L3, LF), "a = Pointclouds(p, n, c, f).append_points(Pointclouds(q, q, q, g))")]
for sn, ar, mkst in STATES:
    for cn, cp in (("clone", "a.clone()"), ("detach", "a.detach()"), ("to", "a.to(a.device, copy=True)"), ("tostr", "a.to('cpu', copy=True)")):
        add("copy-%s-%s" % (cn, sn), "P03", ar, '''
%s
b = %s
return {"=complete": (obs(b), obs(a)), "=type": (isinstance(b, Pointclouds), True)%s}
''' % (mkst, cp, ', "=device": (b.device, a.device)' if cn != "tostr" else ""))
        if cn in ("clone", "detach", "to", "tostr"):
            add("indep-%s-%s" % (cn, sn), "P04", ar, '''
%s
obs(a)
b = %s
keep = snap(obs(b.clone())); src = snap(obs(a.clone()))
for v in [a.points_padded, a.normals_padded, a.colors_padded, a.features_padded] + (a.points_list or []) + (a.normals_list or []) + (a.colors_list or []) + (a.features_list or []):
    if v is not None:
        v.add_(1.0)
a.nonpad_mask.logical_not_()
a.num_points_per_pointcloud.add_(1)
got = obs(b)
return {"=result-unaffected": (got, keep)}
''' % (mkst, cp))
    for nm, call in (("add", "a + t"), ("sub", "a - t"), ("mul", "a * t"), ("div", "a / t")):
        if sn in ("list", "moved", "padded", "bare", "mixed"):
            inp = {"add": "offset_(t)", "sub": "offset_(t * -1)", "mul": "scale_(t)", "div": "scale_(1.0 / t)"}[nm]
            for tk, sp in (("tensor", "t:f[1,1,3]"), ("number", "t:float")):
                add("op-%s-%s-%s" % (nm, tk, sn), "P03 P04", ar + "; " + sp, '''
%s
src = snap(obs(a.clone())); t1 = t * 1
b = %s
same = b is a
got = obs(b)
after = obs(a)
b.offset_(1.0); b.scale_(3.0)
later = obs(a)
a.%s
return {"=like-in-place": (got, obs(a)), "=source-kept": (after, src), "=source-kept-later": (later, src), "=new": (same, False), "=operand": (t, t1)}
''' % (mkst, call, inp))
    if sn in ("list", "moved", "padded", "normalsonly"):
        for nm, sp, call, inp in (("rotate", "t:f[3,3]", "a.rotate(t)", "a.rotate_(t)"), ("rotatepost", "t:f[2,3,3]", "a.rotate(t, pre_multiplication=False)", "a.rotate_(t, pre_multiplication=False)"),
                              ("transform", "t:f[4,4]", "a.transform(t)", "a.transform_(t)"), ("transformpost", "t:f[2,4,4]", "a.transform(t, pre_multiplication=False)", "a.transform_(t, pre_multiplication=False)"),
                              ("matmul3", "t:f[3,3]", "a @ t", "a.rotate_(t, pre_multiplication=False)"), ("matmul4", "t:f[2,4,4]", "a @ t", "a.transform_(t, pre_multiplication=False)"),
                              ("project", "t:f[4,4]", "a.pinhole_projection(t)", "a.pinhole_projection_(t)")):
            add("op-%s-%s" % (nm, sn), "P03 P04 P07", ar + "; " + sp, '''
%s
src = snap(obs(a.clone())); t1 = t.clone()
b = %s
got = obs(b); same = b is a
after = obs(a)
b.offset_(1.0)
later = obs(a)
%s
return {"=like-in-place": (got, obs(a)), "=source-kept": (after, src), "=source-kept-later": (later, src), "=new": (same, False), "=operand": (t, t1)}
''' % (mkst, call, inp))
    add("reads-%s" % sn, "P01", ar, '''
%s
first = obs(a)
second = obs(a)
return {"=stable": (second, first)}
''' % mkst)
add("caller-tensors", "P04 P34", FULL + "; t:f[4,4]; k:f[4,4]; s:f[1,1,3]", '''
w = [[x.clone() for x in v] for v in (p, n, c, f)]
a = Pointclouds(p, n, c, f)
obs(a); a.offset_(s).scale_(s).transform_(t).rotate_(t[:3, :3]); a.pinhole_projection_(k); obs(a)
a.append_points(a.clone())
a.normals_list = a.normals_list
obs(a)
return {"=lists": ([p, n, c, f], w)}
''')
add("caller-tensors-padded", "P04 P34", FULLP + "; t:f[4,4]; k:f[4,4]; s:f[1,1,3]; q:%s" % P3, '''
w = [v.clone() for v in (p, n, c, f, t, k, s, q)]
a = Pointclouds(p, n, c, f)
obs(a); a.offset_(s).scale_(s).transform_(t).rotate_(t[:3, :3]); a.pinhole_projection_(k); obs(a)
a.normals_padded = q; a.offset_(s); a.rotate_(t[:3, :3])
obs(a)
return {"=tensors": ([p, n, c, f, t, k, s, q], w)}
''')
add("setter-copies", "P04", FULL + "; q:%s; r:%s" % (L3, L3), '''
a = Pointclouds(p, n, c, f)
a.points_list = q; a.normals_list = r
want = [[x.clone() for x in q], [x.clone() for x in r]]
for x in q + r:
    x.add_(1.0)
return {"=own": ([a.points_list, a.normals_list], want)}
''')

# ---------------------------------------------------------------- P05 append
Q = "; q:[f[M0,3],f[M1,3]]; qn:[f[M0,3],f[M1,3]]; qc:[f[M0,3],f[M1,3]]; qf:[f[M0,F],f[M1,F]]"
for wa, wb in (("", ""), ("a.points_padded; a.nonpad_mask", ""), ("", "b.points_padded; b.nonpad_mask"), ("a.offset_(t)", ""), ("", "b.offset_(t)"), ("a.rotate_(r); a.nonpad_mask", "b.rotate_(r)")):
    add("append-%s" % (["cold", "warmA", "warmB", "movedA", "movedB", "both"][[("", ""), ("a.points_padded; a.nonpad_mask", ""), ("", "b.points_padded; b.nonpad_mask"), ("a.offset_(t)", ""), ("", "b.offset_(t)"), ("a.rotate_(r); a.nonpad_mask", "b.rotate_(r)")].index((wa, wb))]),
        "P05", FULL + Q + "; t:f[1,1,3]; r:f[3,3]", '''
a = Pointclouds(p, n, c, f); b = Pointclouds(q, qn, qc, qf)
%s
%s
A = a.clone(); B = b.clone(); keep = snap(obs(b.clone()))
o = a.append_points(b)
cat = lambda x, y: [torch.cat([u, v], 0) for u, v in zip(x, y)]
w = Pointclouds(cat(A.points_list, B.points_list), cat(A.normals_list, B.normals_list), cat(A.colors_list, B.colors_list), cat(A.features_list, B.features_list))
return {"=same-object": (o is a, True), "=points": (a.points_list, w.points_list), "=normals": (a.normals_list, w.normals_list), "=colors": (a.colors_list, w.colors_list), "=features": (a.features_list, w.features_list),
        "=counts": (a.num_points_per_pointcloud, A.num_points_per_pointcloud + B.num_points_per_pointcloud), "=appended-kept": (obs(b), keep), "lists": lists(a), "pads": pads(a), "equisized": a.equisized, "counts": a.num_points_per_pointcloud}
''' % (wa or "pass", wb or "pass"))
add("append-self", "P05", FULL, '''
a = Pointclouds(p, n, c, f)
a.append_points(a)
w = [[torch.cat([x, x], 0) for x in v] for v in (p, n, c, f)]
return {"=doubled": (lists(a), w), "counts": a.num_points_per_pointcloud, "pads": pads(a)}
''')
add("append-equal", "P05 P01", "p:[f[N,3],f[N,3]]; q:[f[M,3],f[M,3]]", '''
a = Pointclouds(p); b = Pointclouds(q)
a.nonpad_mask; a.points_padded
a.append_points(b)
return {"=points": (a.points_padded, torch.stack([torch.cat([p[0], q[0]], 0), torch.cat([p[1], q[1]], 0)], 0)), "mask": a.nonpad_mask, "equi": a.equisized, "=none": ([a.normals_list, a.colors_list, a.features_list], [None, None, None])}
''')
add("append-empty", "P05", FULL, '''
a = Pointclouds(p, n, c, f)
k = snap(obs(a.clone()))
r = a.append_points(Pointclouds())
return {"=unchanged": (obs(a), k), "=same": (r is a, True)}
''')
for sn, ar, mkst in STATES:
    add("append-to-empty-%s" % sn, "P05 P04", ar, '''
%s
e = Pointclouds()
o = e.append_points(a)
w = snap(obs(a.clone()))
got = obs(e)
for v in [a.points_padded, a.normals_padded, a.colors_padded, a.features_padded] + a.points_list + (a.normals_list or []) + (a.colors_list or []) + (a.features_list or []):
    if v is not None:
        v.add_(1.0)
return {"=copy": (got, w), "=independent": (obs(e), w), "=self": (o is e, True)}
''' % mkst)
REJ = [("normals", "Pointclouds(p, n, c, f)", "Pointclouds(q, None, qc, qf)"), ("colors", "Pointclouds(p, n, c, f)", "Pointclouds(q, qn, None, qf)"), ("features", "Pointclouds(p, n, c, f)", "Pointclouds(q, qn, qc)"),
       ("normals2", "Pointclouds(p, None, c, f)", "Pointclouds(q, qn, qc, qf)"), ("colors2", "Pointclouds(p, n, None, f)", "Pointclouds(q, qn, qc, qf)"), ("features2", "Pointclouds(p, n, c)", "Pointclouds(q, qn, qc, qf)"),
       ("batch", "Pointclouds(p, n, c, f)", "Pointclouds(q[:1], qn[:1], qc[:1], qf[:1])"), ("type", "Pointclouds(p)", "q")]
for nm, x, y in REJ:
    add("append-rejects-%s" % nm, "P05", FULL + Q, "a = %s\nb = %s\na.append_points(b)\nreturn {'x': 1}" % (x, y), dead=True)
    add("append-rejected-unchanged-%s" % nm, "P38 P05", FULL + Q, '''
a = %s
b = %s
k = snap(obs(a.clone()))
ok = True
try:
    a.append_points(b)
except (ValueError, TypeError):
    ok = False
return {"=rejected": (ok, False), "=unchanged": (obs(a), k)}
''' % (x, y))
add("append-rejects-width", "P05", "p:%s; f:[f[N0,5],f[N1,5]]; q:%s; g:[f[N0,4],f[N1,4]]" % (L3, L3), "a = Pointclouds(p, features=f)\nb = Pointclouds(q, features=g)\na.append_points(b)\nreturn {'x': 1}", dead=True)
for warm in ("pass", "a.points_padded; a.features_list; b.features_padded"):
    add("append-rejected-unchanged-width%s" % ("" if warm == "pass" else "-warm"), "P38 P05", "p:%s; n:%s; c:%s; f:[f[N0,5],f[N1,5]]" % (L3, L3, L3) + Q.replace("F]", "4]"), '''
a = Pointclouds(p, n, c, f); b = Pointclouds(q, qn, qc, qf)
%s
k = snap(obs(a.clone()))
ok = True
try:
    a.append_points(b)
except (ValueError, TypeError):
    ok = False
return {"=rejected": (ok, False), "=unchanged": (obs(a), k)}
''' % warm)

# ---------------------------------------------------------------- P06 index
ARGS3 = "p:[f[N0,3],f[N1,3],f[N2,3]]; n:[f[N0,3],f[N1,3],f[N2,3]]; c:[f[N0,3],f[N1,3],f[N2,3]]; f:[f[N0,F],f[N1,F],f[N2,F]]"
for nm, ix, want in (("int", "1", [1]), ("neg", "-1", [2]), ("slice", "slice(1, 3)", [1, 2]), ("step", "slice(None, None, 2)", [0, 2]), ("list", "[2, 0]", [2, 0]), ("dup", "[1, 1]", [1, 1])):
    for st_, warm in (("cold", "pass"), ("moved", "a.rotate_(t)")):
        pick = lambda v: "[" + ", ".join("w.%s_list[%d]" % (v, i) for i in want) + "]"
        add("index-%s-%s" % (nm, st_), "P06", ARGS3 + "; t:f[3,3]", '''
a = Pointclouds(p, n, c, f)
%s
w = a.clone(); k = snap(obs(a.clone()))
b = a[%s]
return {"=points": (b.points_list, %s), "=normals": (b.normals_list, %s), "=colors": (b.colors_list, %s), "=features": (b.features_list, %s), "=len": (len(b), %d), "=kept": (obs(a), k), "pads": pads(b), "obs": obs(b)}
''' % (warm, ix, pick("points"), pick("normals"), pick("colors"), pick("features"), len(want)))
for have in ("n", "c", "f", ""):
    at = {"n": "normals", "c": "colors", "f": "features"}
    for ix in ("1", "slice(0, 2)", "[2, 0]"):
        add("index-partial-%s-%s" % (have or "none", {"1": "int", "slice(0, 2)": "slice"}.get(ix, "list")), "P06", ARGS3, '''
a = Pointclouds(p%s)
b = a[%s]
return {%s, "obs": obs(b)}
''' % ((", %s=%s" % (at[have], have)) if have else "", ix, ", ".join('"=no %s": ([b.has_%s, b.%s_list], [False, None])' % (at[h], at[h], at[h]) for h in "ncf" if h != have)))
for nm, sp in (("inttensor", "t:i[K]"), ("booltensor", "t:b[3]")):
    add("index-%s" % nm, "P06", ARGS3 + "; " + sp, '''
a = Pointclouds(p, n, c, f)
b = a[t]
return {"points": b.points_list, "normals": b.normals_list, "colors": b.colors_list, "features": b.features_list, "obs": [b.has_normals, b.has_colors, b.has_features]}
''')
for nm, sp in (("float tensor", "t:f[3]"), ("2d tensor", "t:i[3,1]"), ("string", "t:='a'"), ("tuple", "t:=(0, 1)"), ("float", "t:=1.5")):
    add("index-rejects-%s" % nm.replace(" ", "-"), "P06", ARGS3 + "; " + sp, "a = Pointclouds(p, n, c, f)\nb = a[t]\nreturn {'x': 1}", dead=True)
add("index-rejects-empty", "P06", "", "a = Pointclouds()\nb = a[0]\nreturn {'x': 1}", dead=True)

# ---------------------------------------------------------------- P07 transforms: values
EQ = "p:%s; n:%s; c:%s; f:%s" % (P3, P3, P3, PF)
RT = lambda v, m: "torch.stack([torch.matmul(%s, %s[0].transpose(0, 1)), torch.matmul(%s, %s[1].transpose(0, 1))], 0)" % (m, v, m, v)
for nm, sp, call, pts, nrm in (
    ("pre", "t:f[3,3]", "a.rotate_(t)", "torch.matmul(p, t.transpose(0, 1))", "torch.matmul(n, t.transpose(0, 1))"),
    ("preb", "t:f[2,3,3]", "a.rotate_(t)", "torch.bmm(p, t.transpose(1, 2))", "torch.bmm(n, t.transpose(1, 2))"),
    ("post", "t:f[3,3]", "a.rotate_(t, pre_multiplication=False)", "torch.matmul(p, t)", "torch.matmul(n, t)"),
    ("postb", "t:f[2,3,3]", "a.rotate_(t, pre_multiplication=False)", "torch.bmm(p, t)", "torch.bmm(n, t)"),
    ("tpre", "t:f[4,4]", "a.transform_(t)", "torch.matmul(p, t[:3, :3].transpose(0, 1)) + t[:3, 3]", "torch.matmul(n, t[:3, :3].transpose(0, 1))"),
    ("tpreb", "t:f[2,4,4]", "a.transform_(t)", "torch.bmm(p, t[:, :3, :3].transpose(1, 2)) + t[:, :3, 3].unsqueeze(1)", "torch.bmm(n, t[:, :3, :3].transpose(1, 2))"),
    ("tpost", "t:f[4,4]", "a.transform_(t, pre_multiplication=False)", "torch.matmul(p, t[:3, :3]) + t[:3, 3]", "torch.matmul(n, t[:3, :3])"),
    ("matmul3", "t:f[3,3]", "a = a @ t", "torch.matmul(p, t)", "torch.matmul(n, t)"),
    ("matmul3b", "t:f[2,3,3]", "a = a @ t", "torch.bmm(p, t)", "torch.bmm(n, t)"),
    ("matmul4", "t:f[4,4]", "a = a @ t", "torch.matmul(p, t[:3, :3]) + t[:3, 3]", "torch.matmul(n, t[:3, :3])"),
    ("outrotate", "t:f[3,3]", "a = a.rotate(t)", "torch.matmul(p, t.transpose(0, 1))", "torch.matmul(n, t.transpose(0, 1))"),
    ("outtransform", "t:f[4,4]", "a = a.transform(t)", "torch.matmul(p, t[:3, :3].transpose(0, 1)) + t[:3, 3]", "torch.matmul(n, t[:3, :3].transpose(0, 1))")):
    add("rigid-%s" % nm, "P07", EQ + "; " + sp, '''
a = Pointclouds(p, n, c, f)
pm = a.nonpad_mask.unsqueeze(-1)
%s
return {"points": a.points_padded, "=normals": (a.normals_padded, %s), "=colors": (a.colors_padded, c), "=features": (a.features_padded, f)%s}
''' % (call, nrm, ', "=points": (a.points_padded, %s)' % pts if "+" not in pts else ', "=points": (a.points_padded, (%s) + (%s) * pm)' % tuple(pts.split(" + "))))
add("rigid-batch-mismatch", "P07 P38", FULL + "; t:f[3,3,3]", "a = Pointclouds(p, n, c, f)\na.rotate_(t)\nreturn {'x': 1}", dead=True)
add("rigid-batch-mismatch4", "P07 P38", FULL + "; t:f[3,4,4]", "a = Pointclouds(p, n, c, f)\na.transform_(t)\nreturn {'x': 1}", dead=True)

# ---------------------------------------------------------------- P38 rejected operations
for nm, stmt, sp in (("rotate-shape", "a.rotate_(t)", "t:f[4,4]"), ("rotate-type", "a.rotate_(t)", "t:=1.0"), ("rotate-batch", "a.rotate_(t)", "t:f[3,3,3]"), ("transform-shape", "a.transform_(t)", "t:f[3,3]"), ("transform-batch", "a.transform_(t)", "t:f[5,4,4]"),
                     ("offset-type", "a.offset_(t)", "t:='x'"), ("scale-type", "a.scale_(t)", "t:='x'"), ("project-shape", "a.pinhole_projection_(t)", "t:f[3,3]"), ("project-type", "a.pinhole_projection_(t)", "t:=2.0"),
                     ("list-type", "a.points_list = t", "t:f[2,3,3]"), ("list-length", "a.normals_list = t", "t:[f[N0,3]]"), ("list-ndim", "a.colors_list = t", "t:[f[3],f[3]]"), ("list-shape", "a.normals_list = t", "t:[f[N0,4],f[N1,4]]"), ("padded-type", "a.points_padded = t", "t:=1.0"), ("padded-ndim", "a.normals_padded = t", "t:f[2,3]"), ("padded-shape", "a.colors_padded = t", "t:f[2,7,4]")):
    for warm in ("pass", "a.points_padded; a.points_list; a.nonpad_mask"):
        add("reject-%s%s" % (nm, "" if warm == "pass" else "-warm"), "P38", FULL + "; " + sp, '''
a = Pointclouds(p, n, c, f)
%s
k = snap(obs(a.clone()))
ok = True
try:
    %s
except (ValueError, TypeError):
    ok = False
return {"=rejected": (ok, False), "=unchanged": (obs(a), k)}
''' % (warm, stmt))
add("partial-attributes", "P39", "p:%s; t:f[4,4]; k:f[4,4]" % L3, '''
a = Pointclouds(p)
obs(a); a.transform_(t); a.offset_(1.0); a.scale_(2.0); a.pinhole_projection_(k); obs(a); obs(a[0]); obs(a[[0, 1]]); obs(a.clone()); obs(a.detach()); obs(a.to(a.device, copy=True))
b = Pointclouds(p); b.append_points(a); obs(b)
e = Pointclouds(); obs(e); obs(e.clone()); e.offset_(1.0); e.scale_(2.0); e.transform_(t); e.pinhole_projection_(k); obs(e); obs(e.detach()); e.append_points(a); obs(e)
return {"=none": ([a.normals_list, a.colors_list, a.features_list, a.normals_padded, a.colors_padded, a.features_padded], [None, None, None, None, None, None])}
''', rules=["no_failing_access"])
for one in ("normals", "colors", "features"):
    add("partial-%s" % one, "P39", "p:%s; t:f[4,4]; k:f[4,4]; q:%s" % (L3, L3 if one != "features" else LF), '''
a = Pointclouds(p, %s=q)
obs(a); a.transform_(t); a.offset_(1.0); a.scale_(2.0); a.pinhole_projection_(k); obs(a); obs(a[0]); obs(a[[0, 1]]); obs(a.clone()); obs(a.detach())
b = Pointclouds(p, %s=q); b.append_points(a); obs(b)
e = Pointclouds(); e.append_points(a); obs(e)
return {"obs": obs(a), "obs2": obs(b), "obs3": obs(e)}
''' % (one, one), rules=["no_failing_access"])

# ---------------------------------------------------------------- detached and moved copies: nothing left behind
for sn, ar, mkst in STATES:
    add("detached-%s" % sn, "P03", ar, '''
%s
b = a.detach()
return {"lists": lists(b), "pads": pads(b)}
''' % mkst, rules=["all_detached"])
    for warm in ("", "; obs(a)"):
        add("moved-%s%s" % (sn, "-warm" if warm else ""), "P03 P35", ar, '''
%s
b = a.to("cuda")
return {"lists": lists(b), "pads": pads(b), "=device": (b.device == a.device, False), "=new": (b is a, False), "counts": b.num_points_per_pointcloud}
''' % (re.sub(r"Pointclouds\(p([^()]*)\)", r'Pointclouds(p\1, device="cpu")', mkst) + warm), rules=["all_moved"])
add("placed", "P03 P35", FULL, '''
b = Pointclouds(p, n, c, f, device="cuda")
return {"lists": lists(b), "pads": pads(b), "counts": b.num_points_per_pointcloud}
''', rules=["all_moved"])
add("placed-padded", "P03 P35", FULLP, '''
b = Pointclouds(p, n, c, f, device="cuda")
return {"lists": lists(b), "pads": pads(b), "counts": b.num_points_per_pointcloud}
''', rules=["all_moved"])
add("setter-copies-padded", "P04 P34", FULLP + "; q:%s; r:%s; s:%s; g:%s" % (P3, P3, P3, PF), '''
a = Pointclouds(p, n, c, f)
a.points_padded = q; a.normals_padded = r; a.colors_padded = s; a.features_padded = g
want = [x.clone() for x in (q, r, s, g)]
for x in (q, r, s, g):
    x.add_(1.0)
return {"=own": ([a.points_padded, a.normals_padded, a.colors_padded, a.features_padded], want)}
''')
add("setter-copies-lists", "P04 P34", FULL + "; r:%s; g:%s" % (L3, LF), '''
a = Pointclouds(p, n, c, f)
a.colors_list = r; a.features_list = g
want = [[x.clone() for x in r], [x.clone() for x in g]]
for x in r + g:
    x.add_(1.0)
return {"=own": ([a.colors_list, a.features_list], want)}
''')
LE = "[f[N,3],f[N,3]]"; ME = "[f[M,3],f[M,3]]"
add("append-equal-attributes", "P05 P01", "p:%s; n:%s; c:%s; f:[f[N,F],f[N,F]]; q:%s; qn:%s; qc:%s; qf:[f[M,F],f[M,F]]" % (LE, LE, LE, ME, ME, ME), '''
a = Pointclouds(p, n, c, f); b = Pointclouds(q, qn, qc, qf)
obs(a)
a.append_points(b)
w = [torch.stack([torch.cat([x[0], y[0]], 0), torch.cat([x[1], y[1]], 0)], 0) for x, y in ((p, q), (n, qn), (c, qc), (f, qf))]
return {"=padded": ([a.points_padded, a.normals_padded, a.colors_padded, a.features_padded], w), "obs": obs(a)}
''')
add("append-padded-attributes", "P05 P01", "p:%s; n:%s; c:%s; f:f[2,N,F]; q:f[2,M,3]; qn:f[2,M,3]; qc:f[2,M,3]; qf:f[2,M,F]" % (P3, P3, P3), '''
a = Pointclouds(p, n, c, f); b = Pointclouds(q, qn, qc, qf)
a.append_points(b)
w = [torch.cat([x, y], 1) for x, y in ((p, q), (n, qn), (c, qc), (f, qf))]
return {"=padded": ([a.points_padded, a.normals_padded, a.colors_padded, a.features_padded], w), "obs": obs(a)}
''')
for sn, ar, mkst in STATES:
    add("append-to-read-empty-%s" % sn, "P05 P39", ar, '''
%s
e = Pointclouds()
obs(e)
e.append_points(a)
return {"=copy": (obs(e), obs(a))}
''' % mkst)
add("append-twice-from-empty", "P05", FULL + Q, '''
e = Pointclouds()
obs(e); e.append_points(Pointclouds(p, n, c, f)); obs(e); e.append_points(Pointclouds(q, qn, qc, qf))
w = Pointclouds(p, n, c, f).append_points(Pointclouds(q, qn, qc, qf))
return {"=same": (obs(e), obs(w))}
''')
T3 = "p:[f[N,3],f[N2,3],f[N,3]]; n:[f[N,3],f[N2,3],f[N,3]]; f:[f[N,F],f[N2,F],f[N,F]]"
for sz in ("outer", "inner"):
    ar = T3 if sz == "outer" else T3.replace("N2", "M")
    add("three-ragged-%s" % sz, "P01 P02", ar + "; t:f[3,3]", '''
a = Pointclouds(p, n, features=f)
first = obs(a)
a.rotate_(t)
return {"first": first, "after": obs(a), "=same": (a.points_list, [torch.matmul(x, t.transpose(0, 1)) for x in p])}
''')
add("append-makes-ragged", "P01 P02 P05", "p:[f[N,3],f[N,3],f[N,3]]; q:[f[N0,3],f[N1,3],f[N0,3]]", '''
a = Pointclouds(p)
obs(a)
a.append_points(Pointclouds(q))
w = Pointclouds([torch.cat([x, y], 0) for x, y in zip(p, q)])
return {"=same": (obs(a), obs(w)), "obs": obs(a)}
''')
for nm, ix, want in (("bool", "torch.tensor([True, False, True])", [0, 2]), ("bool1", "torch.tensor([False, True, False])", [1]), ("int", "torch.tensor([2, 0])", [2, 0]), ("int1", "torch.tensor([1])", [1]), ("int32", "torch.tensor([2, 0], dtype=torch.int32)", [2, 0])):
    add("index-const-%s" % nm, "P06", ARGS3, '''
a = Pointclouds(p, n, c, f)
b = a[%s]
return {%s, "obs": obs(b)}
''' % (ix, ", ".join('"=%s": (b.%s_list, [%s])' % (at, at, ", ".join("%s[%d]" % (v, i) for i in want)) for at, v in (("points", "p"), ("normals", "n"), ("colors", "c"), ("features", "f")))))
add("index-alltrue", "P06", ARGS3, '''
a = Pointclouds(p, n, c, f)
b = a[a.nonpad_mask.any(1)]
return {"len": len(b)}
''')

# ---------------------------------------------------------------- P38: construction and replacement reject what cannot describe a batch
for nm, mkx, sp in (("ndim", "Pointclouds(p)", "p:[f[N0,3],f[3]]"), ("last", "Pointclouds(p)", "p:[f[N0,3],f[N1,4]]"), ("tuple", "Pointclouds(p)", "p:=((1, 2, 3),)"), ("emptylist", "Pointclouds([])", ""),
                    ("normals-shape", "Pointclouds(p, n)", "p:%s; n:[f[N0,3],f[N0,3]]" % L3), ("normals-count", "Pointclouds(p, n)", "p:%s; n:[f[N0,3]]" % L3), ("colors-shape", "Pointclouds(p, colors=n)", "p:%s; n:[f[N0,3],f[N0,3]]" % L3), ("colors-last", "Pointclouds(p, colors=n)", "p:%s; n:[f[N0,4],f[N1,4]]" % L3),
                    ("features-ndim", "Pointclouds(p, features=n)", "p:%s; n:[f[N0],f[N1]]" % L3), ("features-length", "Pointclouds(p, features=n)", "p:%s; n:[f[N0,F],f[N0,F]]" % L3), ("features-count", "Pointclouds(p, features=n)", "p:%s; n:[f[N0,F]]" % L3), ("features-width", "Pointclouds(p, features=n)", "p:%s; n:[f[N0,F],f[N1,M]]" % L3),
                    ("normals-kind", "Pointclouds(p, n)", "p:%s; n:f[2,N,3]" % L3), ("colors-kind", "Pointclouds(p, colors=n)", "p:%s; n:f[2,N,3]" % L3), ("features-kind", "Pointclouds(p, features=n)", "p:%s; n:f[2,N,F]" % L3),
                    ("padded-ndim", "Pointclouds(p)", "p:f[N,3]"), ("padded-last", "Pointclouds(p)", "p:f[2,N,4]"), ("padded-normals", "Pointclouds(p, n)", "p:f[2,N,3]; n:f[2,M,3]"), ("padded-colors", "Pointclouds(p, colors=n)", "p:f[2,N,3]; n:f[1,N,3]"), ("padded-features-ndim", "Pointclouds(p, features=n)", "p:f[2,N,3]; n:f[N,F]"),
                    ("padded-features", "Pointclouds(p, features=n)", "p:f[2,N,3]; n:f[2,M,F]"), ("padded-normals-kind", "Pointclouds(p, n)", "p:f[2,N,3]; n:[f[N,3],f[N,3]]")):
    add("construct-rejects-%s" % nm, "P38 P05", sp, "a = %s\nreturn {'x': 1}" % mkx, dead=True)
for att, k in (("points", "3"), ("normals", "3"), ("colors", "3"), ("features", "F")):
    add("reject-nonzero-padding-%s" % att, "P38 P02", FULL, '''
a = Pointclouds(p, n, c, f)
a.%s_padded = torch.ones_like(a.%s_padded)
return {'x': 1}
''' % (att, att), dead=True)
    add("reject-one-padding-%s" % att, "P38 P02", FULL, '''
a = Pointclouds(p, n, c, f)
v = torch.zeros_like(a.%s_padded)
k = a.num_points_per_pointcloud
b = 0 if k[0] < k[1] else 1
v[b, k[b], 1] = 1.0
a.%s_padded = v
return {'x': 1}
''' % (att, att), dead=True)
    add("accept-zero-padding-%s" % att, "P02", FULL, '''
a = Pointclouds(p, n, c, f)
a.%s_padded = a.%s_padded * 1
return {"=kept": (a.%s_list, %s), "pads": pads(a)}
''' % (att, att, att, att[0]), raises=True)
for nm, stmt, sp in (("rotate-one", "a.rotate_(t)", "t:f[1,3,3]"), ("transform-one", "a.transform_(t)", "t:f[1,4,4]"), ("transform-34", "a.transform_(t)", "t:f[3,4]"), ("rotate-4d", "a.rotate_(t)", "t:f[1,2,3,3]"), ("project-3", "a.pinhole_projection_(t)", "t:f[2,3,4]"), ("matmul", "a @ t", "t:f[3,4]"), ("add", "a + t", "t:='x'"), ("mul", "a * t", "t:='x'"), ("matmul-type", "a @ t", "t:float")):
    add("op-rejects-%s" % nm, "P38 P07", FULL + "; " + sp, "a = Pointclouds(p, n, c, f)\n%s\nreturn {'x': 1}" % stmt, dead=True)

# ---------------------------------------------------------------- P06 / P05: exports keep attributes of one cloud aligned
EXP = '''
a = Pointclouds(p, n, c, f)
%s
k = snap(obs(a.clone()))
'''
for st_, pre in (("cold", "pass"), ("moved", "a.rotate_(t); a.points_padded")):
    for ix in (0, 1):
        for kw in ("", ", max_num_points=3", ", include_colors=False", ", max_num_points=3, include_normals=True"):
            tag = "%s-%d-%s" % (st_, ix, re.sub(r"\W+", "", kw) or "plain")
            add("export-plotly-%s" % tag, "P06 P34", FULL + "; t:f[3,3]", EXP % pre + '''
s = a.plotly(%d%s, as_figure=False)
return {"record": s, "=kept": (obs(a), k)}
''' % (ix, kw.replace(", include_normals=True", "")))
            add("export-open3d-%s" % tag, "P06 P34", FULL + "; t:f[3,3]", EXP % pre + '''
s = a.open3d(%d%s)
return {"record": s, "=kept": (obs(a), k)}
''' % (ix, kw))
add("export-rejects", "P06", FULL, "a = Pointclouds(p, n, c, f)\na.plotly(1.0)\nreturn {'x': 1}", dead=True)

# ---------------------------------------------------------------- P01 P02: every pattern of sizes of three clouds, against an expectation written out entry by entry
def padto(v, n, N, k): return v if n == N else ("torch.cat([%s, torch.zeros(%d, %s)], 0)" % (v, N - n, k) if n else "torch.zeros(%d, %s)" % (N, k))
def padded(v, ns, N, k): return "torch.stack([%s], 0)" % ", ".join(padto("%s[%d]" % (v, i), n, N, k) for i, n in enumerate(ns))
def masklit(ns, N): return "torch.tensor(%r)" % [[j < n for j in range(N)] for n in ns]
for ns in ((5, 2, 5), (2, 5, 5), (5, 5, 2), (5, 5, 5), (2, 5, 2), (4, 5, 2), (5, 2, 2), (1, 5, 5)):
    N = max(ns); nm = "".join(map(str, ns))
    lst = lambda x, k: "%s:[%s]" % (x, ",".join("f[%d,%d]" % (n, k) for n in ns))
    sp = "; ".join(lst(x, k) for x, k in (("p", 3), ("n", 3), ("c", 3), ("f", 4)))
    views = '"=points": (a.points_padded, %s), "=normals": (a.normals_padded, %s), "=colors": (a.colors_padded, %s), "=features": (a.features_padded, %s), "=mask": (a.nonpad_mask, %s), "=counts": (a.num_points_per_pointcloud, torch.tensor(%r))' % (
        padded("p", ns, N, 3), padded("n", ns, N, 3), padded("c", ns, N, 3), padded("f", ns, N, 4), masklit(ns, N), list(ns))
    add1("sizes-list-" + nm, "P01 P02", sp, "a = Pointclouds(p, n, c, f)\nreturn {%s}" % views)
    add1("sizes-moved-" + nm, "P01 P02", sp + "; t:f[1,1,3]", "a = Pointclouds(p, n, c, f)\na.points_padded\na.offset_(t)\nreturn {%s}" % (
        '"=list": (a.points_list, [x + t[0] for x in p]), "=points": (a.points_padded, %s), "=mask": (a.nonpad_mask, %s)' % (padded("[x + t[0] for x in p]", ns, N, 3), masklit(ns, N))))
    # appended clouds: sizes of the sum decide
    for ms in ((1, 4, 1), (2, 2, 2), (4, 1, 3)):
        tot = [x + y for x, y in zip(ns, ms)]; T = max(tot)
        sp2 = sp + "; q:[%s]; qn:[%s]; qc:[%s]; qf:[%s]" % tuple(",".join("f[%d,%d]" % (n, k) for n in ms) for k in (3, 3, 3, 4))
        for warm in (False, True):
            add1("sizes-append-%s+%s-%s" % (nm, "".join(map(str, ms)), "warm" if warm else "cold"), "P01 P02 P05", sp2, '''
a = Pointclouds(p, n, c, f)
%s
a.append_points(Pointclouds(q, qn, qc, qf))
w = [[torch.cat([x, y], 0) for x, y in zip(u, v)] for u, v in ((p, q), (n, qn), (c, qc), (f, qf))]
return {"=points": (a.points_padded, %s), "=normals": (a.normals_padded, %s), "=colors": (a.colors_padded, %s), "=features": (a.features_padded, %s), "=lists": ([a.points_list, a.normals_list, a.colors_list, a.features_list], w), "=mask": (a.nonpad_mask, %s), "=counts": (a.num_points_per_pointcloud, torch.tensor(%r))}
''' % ("a.points_padded; a.normals_padded; a.colors_padded; a.features_padded; a.nonpad_mask" if warm else "pass", padded("w[0]", tot, T, 3), padded("w[1]", tot, T, 3), padded("w[2]", tot, T, 3), padded("w[3]", tot, T, 4), masklit(tot, T), tot), tier="quick" if nm in ("525", "555", "452") else "thorough")
    for ix, sel in (("1", [1]), ("[2, 0]", [2, 0]), ("0:2", [0, 1]), ("::2", [0, 2]), ("torch.tensor([1, 2])", [1, 2])):
        sub = [ns[i] for i in sel]; S = max(sub)
        for warm in (False, True):
            add1("sizes-index-%s-%s-%s" % (nm, "".join(map(str, sel)), "warm" if warm else "cold"), "P06 P01", sp, '''
b = Pointclouds(p, n, c, f)
%s
a = b[%s]
u = [[x[i] for i in %r] for x in (p, n, c, f)]
return {"=points": (a.points_padded, %s), "=normals": (a.normals_padded, %s), "=colors": (a.colors_padded, %s), "=features": (a.features_padded, %s), "=lists": ([a.points_list, a.normals_list, a.colors_list, a.features_list], u), "=mask": (a.nonpad_mask, %s), "=counts": (a.num_points_per_pointcloud, torch.tensor(%r))}
''' % ("b.points_padded; b.normals_padded; b.colors_padded; b.features_padded; b.nonpad_mask" if warm else "pass", ix, sel, padded("u[0]", sub, S, 3), padded("u[1]", sub, S, 3), padded("u[2]", sub, S, 3), padded("u[3]", sub, S, 4), masklit(sub, S), sub), tier="quick" if nm in ("525", "555", "452") else "thorough")
# ---------------------------------------------------------------- helpers between the two forms, copies of empty batches, equal sizes reached by appending
ST = "from gradslam.structures import structutils as S\n"
def more(id, props, args, body, **kw):
    names = [a.split(":")[0].strip() for a in args.split(";")] if args else []
    SC.append(dict(id=id, props=props.split(), args=args, src=PRE + ST + "def main(%s):\n" % ", ".join(names) + "\n".join("    " + l for l in body.strip("\n").split("\n")), **kw))
more("helpers-split-whole", "P01", "x:f[2,5,3]", 'l = S.padded_to_list(x, [2, 4])\nreturn {"=rows": (l, [x[0, :2], x[1, :4]]), "=all": (S.padded_to_list(x), [x[0], x[1]])}')
more("helpers-split-pair", "P01", "x:f[2,5,3]", 'l = S.padded_to_list(x, [(2, 3), (4, 1)])\nreturn {"=rows": (l, [x[0, :2], x[1, :4, :1]])}')
more("helpers-split-wrong", "P38 P01", "x:f[2,5,3]", 'return {"x": S.padded_to_list(x, [2, 4, 1])}', dead=True)
more("helpers-split-flat", "P38 P01", "x:f[5,3]", 'return {"x": S.padded_to_list(x)}', dead=True)
more("helpers-pad", "P01 P02 P35", "x:f[5,3];y:f[2,3]", '''
p = S.list_to_padded([x, y]); q = S.list_to_padded([y, x], (6, 4), pad_value=7.0); r = S.list_to_padded([x, x + 1.0], equisized=True)
return {"=shape": (p.shape, (2, 5, 3)), "=first": (p[0], x), "=second": (p[1, :2], y), "=padding": (p[1, 2:], torch.zeros(3, 3, dtype=x.dtype, device=x.device)),
        "=wide": (q.shape, (2, 6, 4)), "=sized": ([q[0, :2, :3], q[1, :5, :3]], [y, x]), "=filler": ([q[0, 2:], q[1, 5:], q[1, :5, 3:]], [torch.full((4, 4), 7.0, dtype=x.dtype, device=x.device), torch.full((1, 4), 7.0, dtype=x.dtype, device=x.device), torch.full((5, 1), 7.0, dtype=x.dtype, device=x.device)]),
        "=stacked": (r, torch.stack([x, x + 1.0]))}
''')
more("helpers-pad-size", "P38 P01", "x:f[5,3]", 'return {"x": S.list_to_padded([x], (6,))}', dead=True)
more("copy-empty", "P03 P04", "x:f[5,3];y:f[2,3]", '''
a = Pointclouds(); b = a.to(a.device, copy=True); c = a.clone(); d = a.detach(); e = a.to("cpu")
b.append_points(Pointclouds([x, y])); c.append_points(Pointclouds([y])); d.append_points(Pointclouds([x]))
return {"=others": ([b is a, c is a, d is a], [False, False, False]), "=source": ([a.has_points, len(a)], [False, 0]), "=copies": ([lists(b), lists(c), lists(d)], [[[x, y], None, None, None], [[y], None, None, None], [[x], None, None, None]])}
''')
more("append-evens-out", "P05 P01", "x:f[5,3];y:f[2,3];u:f[2,3];v:f[5,3];w:f[1,3]", '''
a = Pointclouds([x, y]); a.append_points(Pointclouds([u, v]))
b = Pointclouds([x, v]); b.points_padded; b.append_points(Pointclouds([u, w]))
return {"=even": (obs(a), obs(Pointclouds([torch.cat([x, u]), torch.cat([y, v])]))), "=flag": ([a.equisized, b.equisized], [True, False]), "=uneven": (obs(b), obs(Pointclouds([torch.cat([x, u]), torch.cat([v, w])])))}
''')
more("append-itself", "P05 P01", "x:f[5,3];y:f[2,3];n:f[5,3];m:f[2,3]", '''
a = Pointclouds([x, y], [n, m]); a.normals_padded; r = a.append_points(a)
return {"=same": (r is a, True), "=all": (obs(a), obs(Pointclouds([torch.cat([x, x]), torch.cat([y, y])], [torch.cat([n, n]), torch.cat([m, m])])))}
''')
