"""Scenarios over map fusion: correspondences, weights, appended remainder, purity."""
PRE = '''
import torch
from gradslam.structures.rgbdimages import RGBDImages
from gradslam.structures.pointclouds import Pointclouds
from gradslam.structures.utils import pointclouds_from_rgbdimages
from gradslam.slam import fusionutils as F
def obs(f): return [f.rgb_image, f.depth_image, f.intrinsics, f.poses, f.channels_first, f.shape]
def snap(v):
    """the values of now, whatever is written later"""
    if v is None or isinstance(v, (bool, int, float, str, torch.device)): return v
    if isinstance(v, tuple): return tuple([snap(e) for e in v])
    if isinstance(v, list): return [snap(e) for e in v]
    return v.clone()
def maps(f): return [f.valid_depth_mask, f.vertex_map, f.normal_map, f.global_vertex_map, f.global_normal_map]
def touch(f):
    f.global_normal_map; f.global_vertex_map; f.normal_map; f.vertex_map; f.valid_depth_mask
def lists(m): return [m.points_list, m.normals_list, m.colors_list, m.features_list]
def padded(m): return [m.points_padded, m.normals_padded, m.colors_padded, m.features_padded]
def pf(v): return v.permute(0, 1, 4, 2, 3)
def world(pa, pb, na, nb, ca, cb, fa, fb): return Pointclouds([pa, pb], [na, nb], [ca, cb], [fa, fb])
def plain(pa, pb, na, nb, ca, cb, fa, fb): return Pointclouds([pa, pb], [na, nb], [ca, cb])
'''
SC = []
def add(id, props, args, body, **kw):
    from sa.drive import split_top
    if "update_map_aggregate" in body:
        body = body.replace("m = world(", "m = plain(").replace("[:LN]", "[:3]").replace("for v in padded(r):", "for v in padded(r)[:3]:")
    body = body.replace("[:LN]", "")
    names = [a.split(":")[0].strip() for a in split_top(args, ";")]
    SC.append(dict(id=id, props=props.split(), args=args, src=PRE + "def main(%s):\n" % ", ".join(names) + "\n".join("    " + l for l in body.strip("\n").split("\n")), **kw))
FR = "rgb:f[2,1,4,5,3]; d:f[2,1,4,5,1]; K:f[2,1,4,4]; P:f[2,1,4,4]"
MP = "pa:f[7,3]; pb:f[4,3]; na:f[7,3]; nb:f[4,3]; ca:f[7,3]; cb:f[4,3]; fa:f[7,1]; fb:f[4,1]"
W = "m = world(pa, pb, na, nb, ca, cb, fa, fb)\nf = RGBDImages(rgb, d, K, P)\n"
LAYS = [("last", "RGBDImages(rgb, d, K, P)"), ("first", "RGBDImages(pf(rgb), pf(d), K, P, channels_first=True)")]
IX = "; ix:i[6,4]"
TH = "; dt:float; at:float; sg:float"

# ---------------------------------------------------------------- helpers (P13, P14)
add("alpha", "P13 P16", "v:f[2,1,4,5,3]; sg:float", '''
return {"a": F.get_alpha(v, sg), "b": F.get_alpha(v, sg, dim=4, keepdim=True), "c": F.get_alpha(v, sg, keepdim=True, eps=1e-3), "d": F.get_alpha(v.permute(0, 4, 1, 2, 3), sg, dim=1)}
''')
add("alpha-tensor-sigma", "P13 P35", "v:f[3,3]; sg:f[]", 'return {"a": F.get_alpha(v, sg)}')
add("close", "P14", "a:f[2,7,3]; b:f[2,7,3]; dt:float", 'return {"last": F.are_points_close(a, b, dt), "dim": F.are_points_close(a.transpose(1, 2), b.transpose(1, 2), dt, dim=1)}')
add("similar", "P14", "a:f[2,7,3]; b:f[2,7,3]; at:float", 'return {"last": F.are_normals_similar(a, b, at), "dim": F.are_normals_similar(a.transpose(1, 2), b.transpose(1, 2), at, dim=1)}')
# ---------------------------------------------------------------- P14 correspondences
for lay, mkf in LAYS:
    add("active-%s" % lay, "P14 P09 P02", FR + "; " + MP, W.replace("RGBDImages(rgb, d, K, P)", mkf) + 'return {"rows": F.find_active_map_points(m, f)}')
    add("similar-%s" % lay, "P14 P09 P11", FR + "; " + MP + IX + TH, W.replace("RGBDImages(rgb, d, K, P)", mkf) + '''
r, k = F.find_similar_map_points(m, f, ix, dt, at)
return {"rows": r, "mask": k, "=subset": (r, ix[k])}
''')
    add("unique-%s" % lay, "P14 P09", FR + "; " + MP + IX, W.replace("RGBDImages(rgb, d, K, P)", mkf) + 'return {"rows": F.find_best_unique_correspondences(m, f, ix)}')
    add("correspondences-%s" % lay, "P14 P09", FR + "; " + MP + TH, W.replace("RGBDImages(rgb, d, K, P)", mkf) + 'return {"rows": F.find_correspondences(m, f, dt, at)}')
add("correspondences-chain", "P14", FR + "; " + MP + TH, W + '''
a = F.find_active_map_points(m, f)
b, _ = F.find_similar_map_points(m, f, a, dt, at)
return {"=chain": (F.find_correspondences(m, f, dt, at), F.find_best_unique_correspondences(m, f, b))}
''')
for nm, call in (("similar", "F.find_similar_map_points(m, f, ix, dt, at)"), ("unique", "F.find_best_unique_correspondences(m, f, ix)"), ("active", "F.find_active_map_points(m, f)")):
    add("empty-map-%s" % nm, "P14 P39", FR + IX + TH, '''
m = Pointclouds()
f = RGBDImages(rgb, d, K, P)
r = %s
return {"rows": r, "=kind": ((r[0] if isinstance(r, tuple) else r).is_floating_point(), False)}
''' % call, rules=["no_failing_access"])
add("empty-rows", "P14 P39", FR + "; " + MP + "; ix:i[0,4]" + TH, W + '''
r, k = F.find_similar_map_points(m, f, ix, dt, at)
u = F.find_best_unique_correspondences(m, f, ix)
return {"similar": r, "mask": k, "unique": u, "=kind": ((r.is_floating_point(), u.is_floating_point()), (False, False))}
''', rules=["no_failing_access"])
# ---------------------------------------------------------------- P13 merged and appended points
for lay, mkf in LAYS:
    for inp in ("False", "True"):
        add("fuse-%s-%s" % (lay, inp), "P13 P09 P05 P02 P16", FR + "; " + MP + IX + TH, W.replace("RGBDImages(rgb, d, K, P)", mkf) + '''
r = F.fuse_with_map(m, f, ix, sg, inplace=%s)
return {"lists": lists(r), "padded": padded(r), "counts": r.num_points_per_pointcloud}
''' % inp)
    add("fuse-empty-rows-%s" % lay, "P13 P39", FR + "; " + MP + "; ix:i[0,4]" + TH, W.replace("RGBDImages(rgb, d, K, P)", mkf) + '''
w = [v.clone() for v in (pa, pb, na, nb, ca, cb, fa, fb)]
r = F.fuse_with_map(m, f, ix, sg)
return {"lists": lists(r), "=kept": ([[v[:n] for v, n in zip(l, (7, 4))] for l in lists(r)], [w[0:2], w[2:4], w[4:6], w[6:8]])}
''', rules=["no_failing_access"])
    add("fuse-empty-map-%s" % lay, "P13 P39 P11", FR + TH + "; ix:i[0,4]", '''
f = %s
r = F.fuse_with_map(Pointclouds(), f, ix, sg)
p = pointclouds_from_rgbdimages(RGBDImages(rgb, d, K, P))
return {"features": r.features_list, "=geometry": ([r.points_list, r.normals_list, r.colors_list], [p.points_list, p.normals_list, p.colors_list]), "=padded": (len(r), 2)}
''' % mkf, rules=["no_failing_access"])
add("fuse-inplace-is-map", "P13 P12", FR + "; " + MP + IX + TH, W + '''
r = F.fuse_with_map(m, f, ix, sg, inplace=True)
return {"=same": (r is m, True)}
''')
add("fuse-inplace-equals-pure", "P12 P13", FR + "; " + MP + IX + TH, W + '''
n = m.clone()
r = F.fuse_with_map(m, f, ix, sg, inplace=False)
q = F.fuse_with_map(n, f, ix, sg, inplace=True)
return {"=lists": (lists(r), lists(q)), "=padded": (padded(r), padded(q))}
''')
add("fuse-appended-complement", "P13", FR + "; " + MP + IX + TH, W + '''
v = d[..., 0] > 0
v[ix[:, 0], 0, ix[:, 2], ix[:, 3]] = False
r = F.fuse_with_map(m, f, ix, sg)
a = F.get_alpha(f.vertex_map, sg, dim=4, keepdim=True)
want = [[g[b][v[b]] for b in range(2)] for g in (f.global_vertex_map, f.global_normal_map, f.rgb_image, a)]
return {"=new": ([[v[n:] for v, n in zip(l, (7, 4))] for l in lists(r)], want)}
''')
add("fuse-average", "P13", FR + "; " + MP + IX + TH, W + '''
c = m.features_padded.clone(); z = torch.zeros_like(c)
al = F.get_alpha(f.vertex_map, sg, dim=4, keepdim=True)
a = z.clone(); a[ix[:, 0], ix[:, 1]] = al[ix[:, 0], 0, ix[:, 2], ix[:, 3]]
n = c + a
n1 = torch.where(n == 0, torch.ones_like(n), n)
def mean(x, img):
    y = torch.zeros_like(x); y[ix[:, 0], ix[:, 1]] = img[ix[:, 0], 0, ix[:, 2], ix[:, 3]]
    return (c * x + a * y) / n1
k = m.clone()
want = [mean(m.points_padded, f.global_vertex_map), mean(m.normals_padded, f.global_normal_map), mean(m.colors_padded, f.rgb_image), n]
r = F.fuse_with_map(k, f, ix, sg)
return {"=merged": ([[v[:q] for v, q in zip(l, (7, 4))] for l in lists(r)], [[w[0, :7], w[1, :4]] for w in want])}
''')
for nm, call in (("fusion", "F.update_map_fusion(m, f, dt, at, sg%s)"), ("aggregate", "F.update_map_aggregate(m, f%s)"), ("fuse", "F.fuse_with_map(m, f, ix, sg%s)")):
    # ------------------------------------------------------------ P12 purity
    for lay, mkf in LAYS:
        for wm in ("cold", "warm"):
            add("pure-%s-%s-%s" % (nm, lay, wm), "P12 P34", FR + "; " + MP + IX + TH, W.replace("RGBDImages(rgb, d, K, P)", mkf) + ("touch(f); padded(m)\n" if wm == "warm" else "") + '''
k = [snap(lists(m.clone())), snap(padded(m.clone())), snap(obs(f.clone())), ix.clone(), [v.clone() for v in (pa, pb, na, nb, ca, cb, fa, fb, rgb, d, K, P)]]
r = %s
return {"=map": ([lists(m), padded(m)], k[:2]), "=frame": (obs(f), k[2]), "=rows": (ix, k[3]), "=inputs": ([pa, pb, na, nb, ca, cb, fa, fb, rgb, d, K, P], k[4]), "=new": (r is not m, True)}
''' % (call % ""))
    add("pure-independent-%s" % nm, "P12", FR + "; " + MP + IX + TH, W + '''
r = %s
k = snap([lists(m.clone()), padded(m.clone()), obs(f.clone())])
for l in lists(r)[:LN]:
    l[0].mul_(2); l[1].mul_(2)
for v in padded(r):
    v.mul_(3)
return {"=map": ([lists(m), padded(m)], k[:2]), "=frame": (obs(f), k[2])}
''' % (call % ", inplace=False"))
    add("inplace-frame-%s" % nm, "P12", FR + "; " + MP + IX + TH, W + '''
k = snap(obs(f.clone()))
r = %s
return {"=frame": (obs(f), k), "=same": (r is m, True)}
''' % (call % ", inplace=True"))
for inp in ("False", "True"):
    add("aggregate-%s" % inp, "P05 P11 P12 P20", FR + "; " + MP, W + '''
p = pointclouds_from_rgbdimages(f); q = m.clone().append_points(p)
r = F.update_map_aggregate(m, f, inplace=%s)
return {"lists": lists(r), "=append": (lists(r), lists(q))}
''' % inp)
    add("update-fusion-%s" % inp, "P13 P14 P21 P20", FR + "; " + MP + TH, W + '''
q = m.clone()
r = F.update_map_fusion(m, f, dt, at, sg, inplace=%s)
w = F.fuse_with_map(q, f, F.find_correspondences(q, f, dt, at), sg)
return {"=chain": (lists(r), lists(w))}
''' % inp)
# ---------------------------------------------------------------- P38 rejected calls
DEP = {"m": "m:=1", "f": "f:=1"}
BADF = [("active", "F.find_active_map_points(%s)", "m, f"), ("similar", "F.find_similar_map_points(%s, ix, dt, at)", "m, f"), ("fuse", "F.fuse_with_map(%s, ix, sg)", "m, f"), ("aggregate", "F.update_map_aggregate(%s)", "m, f"), ("unique", "F.find_best_unique_correspondences(%s, ix)", "m, f")]
for nm, call, _ in BADF:
    add("reject-%s-map-type" % nm, "P38", FR + "; " + MP + IX + TH, W + "return {'x': %s}" % (call % "pa, f"), dead=True)
    if nm != "unique":
        add("reject-%s-frame-type" % nm, "P38", FR + "; " + MP + IX + TH, W + "return {'x': %s}" % (call % "m, rgb"), dead=True)
    if nm != "aggregate":
        add("reject-%s-sequence" % nm, "P38", FR.replace("[2,1,4,5", "[2,2,4,5").replace("P:f[2,1", "P:f[2,2") + "; " + MP + IX + TH, W + "return {'x': %s}" % (call % "m, f"), dead=True)
        add("reject-%s-batch" % nm, "P38", FR.replace("[2,1,", "[3,1,") + "; " + MP + IX + TH, W + "return {'x': %s}" % (call % "m, f"), dead=True)
for nm, call in (("similar", "F.find_similar_map_points(m, f, %s, dt, at)"), ("fuse", "F.fuse_with_map(m, f, %s, sg)"), ("unique", "F.find_best_unique_correspondences(m, f, %s)")):
    for bn, sp in (("columns", "jx:i[6,3]"), ("rank", "jx:i[6]"), ("dtype", "jx:f[6,4]"), ("type", "jx:=1")):
        add("reject-%s-rows-%s" % (nm, bn), "P38 P14", FR + "; " + MP + "; " + sp + TH, W + "return {'x': %s}" % (call % "jx"), dead=True)
for nm, mk in (("no-normals", "Pointclouds([pa, pb], None, [ca, cb], [fa, fb])"), ("no-colors", "Pointclouds([pa, pb], [na, nb], None, [fa, fb])"), ("no-features", "Pointclouds([pa, pb], [na, nb], [ca, cb])"), ("two-features", "Pointclouds([pa, pb], [na, nb], [ca, cb], [na, nb])")):
    add("reject-fuse-%s" % nm, "P38 P13", FR + "; " + MP + IX + TH, W + "m = %s\nreturn {'x': F.fuse_with_map(m, f, ix, sg)}" % mk, dead=True)
    add("reject-fuse-%s-unchanged" % nm, "P38", FR + "; " + MP + IX + TH, W + '''
m = %s
k = snap([lists(m.clone()), m.points_padded.clone(), obs(f.clone())])
ok = True
try:
    F.fuse_with_map(m, f, ix, sg, inplace=True)
except (ValueError, TypeError):
    ok = False
return {"=rejected": (ok, False), "=unchanged": ([lists(m), m.points_padded, obs(f)], k)}
''' % mk)
add("reject-unposed", "P38 P39", FR + "; " + MP, "m = world(pa, pb, na, nb, ca, cb, fa, fb)\nreturn {'x': F.find_active_map_points(m, RGBDImages(rgb, d, K))}", dead=True)
add("reject-alpha-width", "P38", "v:f[4,2]; sg:float", "return {'x': F.get_alpha(v, sg)}", dead=True)
add("reject-alpha-sigma", "P38", "v:f[4,3]; sg:f[2]", "return {'x': F.get_alpha(v, sg)}", dead=True)
add("reject-close-shape", "P38", "a:f[4,3]; b:f[5,3]", "return {'x': F.are_points_close(a, b, 0.5)}", dead=True)
add("reject-similar-shape", "P38", "a:f[4,3]; b:f[1,3]", "return {'x': F.are_normals_similar(a, b, 0.5)}", dead=True)
