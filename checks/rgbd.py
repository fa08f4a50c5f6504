"""Scenarios over RGB-D batches: derived maps, layout conversions, copies, slices, missing depth."""
import re
PRE = '''
import torch
from gradslam.structures.rgbdimages import RGBDImages
from gradslam.structures.pointclouds import Pointclouds
from gradslam.structures.utils import pointclouds_from_rgbdimages
def maps(f):
    """every derived quantity"""
    return [f.valid_depth_mask, f.vertex_map, f.normal_map, f.global_vertex_map, f.global_normal_map]
def obs(f):
    return [f.rgb_image, f.depth_image, f.intrinsics, f.poses, f.channels_first, f.cdim, f.shape, f.has_poses, len(f), f.h, f.w] + maps(f)
def snap(v):
    """the values of now, whatever is written later"""
    if v is None or isinstance(v, (bool, int, float, str, torch.device)): return v
    if isinstance(v, tuple): return tuple([snap(e) for e in v])
    if isinstance(v, list): return [snap(e) for e in v]
    return v.clone()
def touch(f):
    """materialise every derived quantity without keeping it"""
    f.global_normal_map; f.global_vertex_map; f.normal_map; f.vertex_map; f.valid_depth_mask
def pf(v): return v.permute(0, 1, 4, 2, 3)
def pl(v): return v.permute(0, 1, 3, 4, 2)
def each(g, vs): return [g(v) for v in vs]
'''
SC = []
def add(id, props, args, body, **kw):
    from sa.drive import split_top
    names = [a.split(":")[0].strip() for a in split_top(args, ";")]
    SC.append(dict(id=id, props=props.split(), args=args, src=PRE + "def main(%s):\n" % ", ".join(names) + "\n".join("    " + l for l in body.strip("\n").split("\n")), **kw))
S = "2,2,4,5"
BASE = "rgb:f[%s,3]; d:f[%s,1]; K:f[2,1,4,4]; P:f[2,2,4,4]" % (S, S)
BASE1 = "rgb:f[2,1,4,5,3]; d:f[2,1,4,5,1]; K:f[2,1,4,4]; P:f[2,1,4,4]"
CF = "rgb:f[2,2,3,4,5]; d:f[2,2,1,4,5]; K:f[2,1,4,4]; P:f[2,2,4,4]"
CF1 = "rgb:f[2,1,3,4,5]; d:f[2,1,1,4,5]; K:f[2,1,4,4]; P:f[2,1,4,4]"

# ---------------------------------------------------------------- the maps themselves (P08, P11, P36)
for lay, base, cf in (("last", BASE, False), ("first", CF, True)):
    for ps, pa in (("posed", "P"), ("unposed", "None")):
        add("maps-%s-%s" % (lay, ps), "P08 P11", base, '''
f = RGBDImages(rgb, d, K, %s, channels_first=%s)
return {"mask": f.valid_depth_mask, "vertex": f.vertex_map, "normal": f.normal_map, "gvertex": f.global_vertex_map, "gnormal": f.global_normal_map}
''' % (pa, cf))
        # reading order of the maps is irrelevant
        for k, seq in enumerate(("f.global_normal_map; f.vertex_map", "f.valid_depth_mask; f.global_vertex_map", "f.normal_map; f.global_vertex_map; f.vertex_map")):
            add("order%d-%s-%s" % (k, lay, ps), "P08", base, '''
f = RGBDImages(rgb, d, K, %s, channels_first=%s)
g = RGBDImages(rgb, d, K, %s, channels_first=%s)
%s
return {"=same": (maps(f), maps(g))}
''' % (pa, cf, pa, cf, seq))
    add("missing-%s" % lay, "P11", base, '''
f = RGBDImages(rgb, d, K, P, channels_first=%s)
m = d > 0
return {"=mask": (f.valid_depth_mask, m), "=vertex": (f.vertex_map * m, f.vertex_map), "=normal": (f.normal_map * m, f.normal_map), "=gvertex": (f.global_vertex_map * m, f.global_vertex_map)}
''' % cf)
    add("given-grid-%s" % lay, "P08", base + "; g:f[%s,3]" % S, '''
f = RGBDImages(rgb, d, K, P, channels_first=%s, pixel_pos=g)
return {"=pos": (f.pixel_pos, g), "maps": maps(f)}
''' % cf)

# ---------------------------------------------------------------- P08 replaced inputs
REPL = [("depth", "d2", "d2, K, P"), ("intrinsics", "K2", "d, K2, P"), ("poses", "P2", "d, K, P2")]
for lay, base, cf in (("last", BASE, False), ("first", CF, True)):
    extra = "; d2:%s; K2:f[2,1,4,4]; P2:f[2,2,4,4]; rgb2:%s" % (("f[%s,1]" % S, "f[%s,3]" % S) if not cf else ("f[2,2,1,4,5]", "f[2,2,3,4,5]"))
    for nm, v, want in REPL:
        att = {"depth": "depth_image"}.get(nm, nm)
        for wn, warm in (("all", "touch(f)"), ("vertex", "f.vertex_map"), ("normal", "f.normal_map"), ("global", "f.global_vertex_map"), ("mask", "f.valid_depth_mask"), ("gnormal", "f.global_normal_map")):
            add("replace-%s-%s-%s" % (nm, lay, wn), "P08", base + extra, '''
f = RGBDImages(rgb, d, K, P, channels_first=%s)
%s
f.%s = %s
g = RGBDImages(rgb, %s, channels_first=%s)
return {"=maps": (maps(f), maps(g)), "=value": (f.%s, %s)}
''' % (cf, warm, att, v, want, cf, att, v))
    add("replace-rgb-%s" % lay, "P08", base + extra, '''
f = RGBDImages(rgb, d, K, P, channels_first=%s)
touch(f)
f.rgb_image = rgb2
return {"=obs": (obs(f), obs(RGBDImages(rgb2, d, K, P, channels_first=%s)))}
''' % (cf, cf))
    add("drop-poses-%s" % lay, "P08 P39", base, '''
f = RGBDImages(rgb, d, K, P, channels_first=%s)
touch(f)
f.poses = None
g = RGBDImages(rgb, d, K, channels_first=%s)
return {"=obs": (obs(f), obs(g))}
''' % (cf, cf), rules=["no_failing_access"])
    add("give-poses-%s" % lay, "P08", base, '''
f = RGBDImages(rgb, d, K, channels_first=%s)
touch(f)
f.poses = P
return {"=obs": (obs(f), obs(RGBDImages(rgb, d, K, P, channels_first=%s)))}
''' % (cf, cf))
    conv = "to_channels_first" if not cf else "to_channels_last"; g = "pf" if not cf else "pl"; back = "to_channels_last" if not cf else "to_channels_first"
    # replacement, conversion and reading interleaved
    for nm, v, want in REPL:
        att = {"depth": "depth_image"}.get(nm, nm)
        vv = "%s(%s)" % (g, v) if nm == "depth" else v
        for inpl in ("_", ""):
            add("convert-replace-%s-%s%s" % (nm, lay, inpl), "P08 P09", base + extra, '''
f = RGBDImages(rgb, d, K, P, channels_first=%s)
touch(f)
f = f.%s%s()
f.%s = %s
w = RGBDImages(%s(rgb), %s, channels_first=%s)
got = obs(f)
b = f.%s()
w2 = RGBDImages(rgb, %s, channels_first=%s)
return {"=maps": (got, obs(w)), "=back": (obs(b), obs(w2))}
''' % (cf, conv, inpl, att, vv, g, want.replace("d2", "pf_(d2)").replace("d, ", "pf_(d), ").replace("pf_", g), not cf, back, want, cf))
        add("replace-convert-%s-%s" % (nm, lay), "P08 P09", base + extra, '''
f = RGBDImages(rgb, d, K, P, channels_first=%s)
touch(f)
f.%s = %s
f = f.%s()
w = RGBDImages(%s(rgb), %s, channels_first=%s)
return {"=maps": (obs(f), obs(w))}
''' % (cf, att, v, conv, g, want.replace("d2", "pf_(d2)").replace("d, ", "pf_(d), ").replace("pf_", g), not cf))
    # ---------------------------------------------------------------- P09 layout
    for wn, warm in (("cold", "pass"), ("warm", "touch(f)"), ("mask", "f.valid_depth_mask"), ("global", "f.global_vertex_map")):
        add("convert-%s-%s" % (lay, wn), "P09 P10", base, '''
f = RGBDImages(rgb, d, K, P, channels_first=%s)
%s
k = snap(obs(f.clone()))
h = f.%s()
w = RGBDImages(%s(rgb), %s(d), K, P, channels_first=%s)
same = f.%s()
r = h.%s()
return {"=converted": (obs(h), obs(w)), "=source-kept": (obs(f), k), "=round-trip": (obs(r), k), "=noop": (same is f, True), "=maps": (maps(h), each(%s, maps(f)))}
''' % (cf, warm, conv, g, g, not cf, back, back, g))
        add("convert-inplace-%s-%s" % (lay, wn), "P09", base, '''
f = RGBDImages(rgb, d, K, P, channels_first=%s)
%s
r = f.%s_()
w = RGBDImages(%s(rgb), %s(d), K, P, channels_first=%s)
got = obs(f)
f.%s_()
return {"=self": (r is f, True), "=converted": (got, obs(w)), "=round-trip": (obs(f), obs(RGBDImages(rgb, d, K, P, channels_first=%s)))}
''' % (cf, warm, conv, g, g, not cf, back, cf))
    add("convert-copy-%s" % lay, "P09 P10", base, '''
f = RGBDImages(rgb, d, K, P, channels_first=%s)
touch(f)
k = snap(obs(f.clone()))
h = f.%s(copy=True)
got = snap(obs(h.clone()))
w = h is not f
for v in [h.rgb_image, h.depth_image, h.intrinsics, h.poses] + maps(h):
    v.add_(1)
return {"=new": (w, True), "=same": (got, k), "=independent": (obs(f), k)}
''' % (cf, back))
# ---------------------------------------------------------------- detached and moved copies leave nothing behind (P10, P35)
for sn, ar, mk0 in (("last", BASE, "RGBDImages(rgb, d, K, P%s)"), ("first", CF, "RGBDImages(rgb, d, K, P, channels_first=True%s)"), ("unposed", BASE, "RGBDImages(rgb, d, K%s)"), ("grid", BASE + "; g:f[%s,3]" % S, "RGBDImages(rgb, d, K, P, pixel_pos=g%s)")):
    for wn, warm in (("cold", "pass"), ("warm", "touch(f)"), ("gn", "f.global_normal_map"), ("slice", "f = f[1, 0]"), ("conv", "touch(f); f = f.to_channels_first()"), ("conv_", "touch(f); f.to_channels_last_()")):
        add("detached-%s-%s" % (sn, wn), "P10", ar, """
f = %s
%s
h = f.detach()
return {"inputs": [h.rgb_image, h.depth_image, h.intrinsics, h.poses, h.pixel_pos], "vertex": h.vertex_map, "normal": h.normal_map, "gvertex": h.global_vertex_map, "gnormal": h.global_normal_map, "=kept": (h.channels_first, f.channels_first)}
""" % (mk0 % "", warm), rules=["all_detached"])
        for mn, mv in (("to", 'f.to("cuda")'), ("cuda", "f.cuda()"), ("copy", 'f.to("cuda", copy=True)')):
            add("moved-%s-%s-%s" % (mn, sn, wn), "P10 P35", ar, """
f = %s
%s
h = %s
return {"inputs": [h.rgb_image, h.depth_image, h.intrinsics, h.poses, h.pixel_pos], "mask": h.valid_depth_mask, "vertex": h.vertex_map, "normal": h.normal_map, "gvertex": h.global_vertex_map, "gnormal": h.global_normal_map, "=device": (h.device == f.device, False), "=where": (h.device == h.rgb_image.device, True), "=new": (h is f, False)}
""" % (mk0 % ', device="cpu"', warm, mv), rules=["all_moved"])
    add("placed-%s" % sn, "P10 P35", ar, """
h = %s
return {"inputs": [h.rgb_image, h.depth_image, h.intrinsics, h.poses, h.pixel_pos], "mask": h.valid_depth_mask, "vertex": h.vertex_map, "normal": h.normal_map, "gvertex": h.global_vertex_map, "gnormal": h.global_normal_map, "=where": (h.device == h.rgb_image.device, True)}
""" % (mk0 % ', device="cuda"'), rules=["all_moved"])
# consumers do not see the layout
for nm, expr in (("extract", "pointclouds_from_rgbdimages(%s)"), ("extract-local", "pointclouds_from_rgbdimages(%s, global_coordinates=False)"), ("extract-all", "pointclouds_from_rgbdimages(%s, filter_missing_depths=False)"), ("extract-all-local", "pointclouds_from_rgbdimages(%s, filter_missing_depths=False, global_coordinates=False)")):
    for wn, warm in (("cold", "pass"), ("warm", "touch(f); touch(h)")):
        add("%s-layout-%s" % (nm, wn), "P09", BASE1, '''
f = RGBDImages(rgb, d, K, P)
h = RGBDImages(pf(rgb), pf(d), K, P, channels_first=True)
%s
a = %s; b = %s
return {"=points": (a.points_list, b.points_list), "=normals": (a.normals_list, b.normals_list), "=colors": (a.colors_list, b.colors_list), "=flag": (h.channels_first, True)}
''' % (warm, expr % "f", expr % "h"))
    add("%s-values" % nm, "P11 P09", BASE1, '''
f = RGBDImages(rgb, d, K, P)
a = %s
return {"points": a.points_list, "normals": a.normals_list, "colors": a.colors_list, "n": len(a), "features": a.features_list}
''' % (expr % "f"))
    add("%s-unposed" % nm, "P11 P39", BASE1, '''
a = %s
return {"points": a.points_list, "normals": a.normals_list, "colors": a.colors_list}
''' % (expr % "RGBDImages(rgb, d, K)"), rules=["no_failing_access"])
add("extract-filters", "P11", BASE1, '''
f = RGBDImages(rgb, d, K, P)
a = pointclouds_from_rgbdimages(f)
m = (d > 0).squeeze(-1)
return {"=points": (a.points_list, [f.global_vertex_map[b][m[b]] for b in range(2)]), "=normals": (a.normals_list, [f.global_normal_map[b][m[b]] for b in range(2)]), "=colors": (a.colors_list, [rgb[b][m[b]] for b in range(2)])}
''')
add("extract-rejects-length", "P38 P11", BASE, '''
f = RGBDImages(rgb, d, K, P)
return {"x": pointclouds_from_rgbdimages(f)}
''', dead=True)

# ---------------------------------------------------------------- P10 copies and slices
STATES = [("last", BASE, "f = RGBDImages(rgb, d, K, P)"), ("first", CF, "f = RGBDImages(rgb, d, K, P, channels_first=True)"), ("warm", BASE, "f = RGBDImages(rgb, d, K, P); touch(f)"), ("warmfirst", CF, "f = RGBDImages(rgb, d, K, P, channels_first=True); touch(f)"),
          ("unposed", BASE, "f = RGBDImages(rgb, d, K); touch(f)"), ("converted", BASE, "f = RGBDImages(rgb, d, K, P); touch(f); f.to_channels_first_()"), ("part", BASE, "f = RGBDImages(rgb, d, K, P); f.vertex_map"), ("grid", BASE + "; g:f[%s,3]" % S, "f = RGBDImages(rgb, d, K, P, pixel_pos=g); f.normal_map")]
for sn, ar, mkst in STATES:
    for cn, call in (("clone", "f.clone()"), ("detach", "f.detach()"), ("to", "f.to(f.device, copy=True)"), ("tocopy", "f.to('cpu', copy=True)"), ("cuda", "f.to('cuda', copy=True)")):
        add("copy-%s-%s" % (cn, sn), "P10", ar, '''
%s
k = [f.rgb_image.clone(), f.depth_image.clone(), f.intrinsics.clone(), None if f.poses is None else f.poses.clone(), f.channels_first, f.shape, None if f.pixel_pos is None else f.pixel_pos.clone()]
h = %s
got = [h.rgb_image, h.depth_image, h.intrinsics, h.poses, h.channels_first, h.shape, h.pixel_pos]
return {"=new": (h is not f, True), "=inputs": (got, k), "=maps": (maps(h), maps(f)), "cdim": h.cdim}
''' % (mkst, call))
        add("copy-independent-%s-%s" % (cn, sn), "P10", ar, '''
%s
touch(f)
k = snap(obs(f.clone()))
h = %s
for v in [h.rgb_image, h.depth_image, h.intrinsics] + maps(h) + ([] if h.poses is None else [h.poses]) + ([] if h.pixel_pos is None else [h.pixel_pos]):
    v.mul_(2)
return {"=source": (obs(f), k), "pos": f.pixel_pos}
''' % (mkst, call))
        add("copy-independent2-%s-%s" % (cn, sn), "P10", ar, '''
%s
touch(f)
h = %s
k = snap(obs(h.clone()))
f.depth_image.mul_(2); f.rgb_image.mul_(2); f.intrinsics.add_(1)
touch(f)
for v in maps(f):
    v.mul_(2)
return {"=copy": (obs(h), k)}
''' % (mkst, call))
    for ix, (b, l) in (("0, 1", ("0:1", "1:2")), ("1", ("1:2", ":")), ("slice(None), slice(0, 1)", (":", "0:1")), ("1, slice(None)", ("1:2", ":")), ("slice(1, 2), slice(1, 2)", ("1:2", "1:2"))):
        add("slice[%s]-%s" % (ix.replace(" ", "").replace("slice", "s").replace("None", ""), sn), "P10", ar, '''
%s
h = f[%s]
sel = [v[%s, %s] for v in maps(f)]
return {"=inputs": ([h.rgb_image, h.depth_image, h.intrinsics, h.poses, h.channels_first], [f.rgb_image[%s, %s], f.depth_image[%s, %s], f.intrinsics[%s], None if f.poses is None else f.poses[%s, %s], f.channels_first]), "=maps": (maps(h), sel), "shape": h.shape, "kept": obs(f)}
''' % (mkst, ix, b, l, b, l, b, l, b, b, l))
add("slice-replace", "P10 P08", BASE + "; P2:f[1,1,4,4]", '''
f = RGBDImages(rgb, d, K, P)
touch(f); k = snap(obs(f.clone()))
h = f[0, 1]
h.poses = P2
w = RGBDImages(rgb[0:1, 1:2], d[0:1, 1:2], K[0:1], P2)
return {"=maps": (obs(h), obs(w)), "=source": (obs(f), k)}
''')
for nm, ix, b, l in (("seq", "0, -2", "0:1", "-2:-1"), ("batch", "-2", "-2:-1", ":"), ("both", "-2, -2", "-2:-1", "-2:-1")):
    add("slice-negative-%s" % nm, "P10", BASE, '''
f = RGBDImages(rgb, d, K, P)
g = f[%s]
return {"=inputs": ([g.rgb_image, g.depth_image, g.intrinsics, g.poses, g.shape], [rgb[%s, %s], d[%s, %s], K[%s], P[%s, %s], rgb[%s, %s].shape[:4]])}
''' % (ix, b, l, b, l, b, b, l, b, l))
for nm, ix in (("three", "0, 0, 0"), ("batch-range", "5"), ("seq-range", "0, 7"), ("text", "'a'")):
    add("slice-rejects-%s" % nm, "P10 P38", BASE, "f = RGBDImages(rgb, d, K, P)\nreturn {'x': f[%s]}" % ix, dead=True)

# ---------------------------------------------------------------- P38 / P39
BAD = [("rgb-type", "rgb_image", "v:=1.0"), ("rgb-shape", "rgb_image", "v:f[2,2,4,6,3]"), ("depth-shape", "depth_image", "v:f[2,2,4,5,3]"), ("depth-type", "depth_image", "v:='x'"), ("K-shape", "intrinsics", "v:f[2,2,4,4]"), ("K-shape3", "intrinsics", "v:f[2,1,3,3]"), ("poses-shape", "poses", "v:f[2,1,4,4]"), ("poses-type", "poses", "v:=3")]
for nm, att, sp in BAD:
    for wn, warm in (("cold", "pass"), ("warm", "touch(f)")):
        add("reject-%s-%s" % (nm, wn), "P38", BASE + "; " + sp, '''
f = RGBDImages(rgb, d, K, P)
%s
k = snap(obs(f.clone()))
ok = True
try:
    f.%s = v
except (ValueError, TypeError):
    ok = False
return {"=rejected": (ok, False), "=unchanged": (obs(f), k)}
''' % (warm, att))
for nm, ar, call in (("rgb-type", "rgb:=1", "rgb, d, K, P"), ("depth-type", "d:=1", "rgb, d, K, P"), ("K-type", "K:=1", "rgb, d, K, P"), ("P-type", "P:=1", "rgb, d, K, P"), ("rgb-ndim", "rgb:f[2,4,5,3]", "rgb, d, K, P"), ("depth-ndim", "d:f[2,4,5,1]", "rgb, d, K, P"), ("K-ndim", "K:f[2,4,4]", "rgb, d, K, P"), ("P-ndim", "P:f[2,4,4]", "rgb, d, K, P"),
                     ("rgb-channels", "rgb:f[2,2,4,5,4]", "rgb, d, K, P"), ("depth-size", "d:f[2,2,5,4,1]", "rgb, d, K, P"), ("K-size", "K:f[2,2,4,4]", "rgb, d, K, P"), ("P-size", "P:f[2,1,4,4]", "rgb, d, K, P"), ("layout-type", "x:=1", "rgb, d, K, P, 'first'"), ("layout-wrong", "x:=1", "rgb, d, K, P, True"), ("grid-size", "g:f[2,2,4,5,2]", "rgb, d, K, P, pixel_pos=g"), ("grid-type", "g:=1", "rgb, d, K, P, pixel_pos=g")):
    n = ar.split(":")[0]
    base = "; ".join(a for a in BASE.split("; ") if not a.startswith(n + ":")) + "; " + ar
    add("construct-rejects-%s" % nm, "P38", base, "return {'x': RGBDImages(%s)}" % call, dead=True)
add("unposed-everything", "P39", BASE1, '''
f = RGBDImages(rgb, d, K)
obs(f); obs(f.clone()); obs(f.detach()); obs(f.to(f.device, copy=True)); obs(f[0]); obs(f[0, 0]); obs(f.to_channels_first()); obs(f.to_channels_first().to_channels_last())
f.to_channels_first_(); obs(f); f.to_channels_last_(); obs(f)
f.depth_image = d; f.intrinsics = K; obs(f)
return {"=poses": (f.poses, None), "=has": (f.has_poses, False)}
''', rules=["no_failing_access"])
# ---------------------------------------------------------------- P34: caller's tensors
for lay, base, cf in (("last", BASE1, False), ("first", CF1, True)):
    add("caller-tensors-rgbd-%s" % lay, "P34 P10", base, '''
w = [v.clone() for v in (rgb, d, K, P)]
f = RGBDImages(rgb, d, K, P, channels_first=%s)
obs(f); f.clone(); f.detach(); f.to_channels_first(); f.to_channels_last(); obs(f[0, 0]); pointclouds_from_rgbdimages(f); pointclouds_from_rgbdimages(f, filter_missing_depths=False)
f.to_channels_first_(); f.to_channels_last_(); obs(f); f.depth_image = f.depth_image; obs(f)
return {"=tensors": ([rgb, d, K, P], w)}
''' % cf)
# ---------------------------------------------------------------- viewing a batch: the drawn frames are those of the asked element, in order, and drawing changes nothing
for lay, base, cf in (("last", BASE, False), ("first", CF, True)):
    for wn, warm in (("cold", "pass"), ("warm", "touch(f)")):
        for ix in (0, 1):
            for kw in ("", ", include_depth=False"):
                add("view-%s-%s-%d%s" % (lay, wn, ix, "-rgb" if kw else ""), "P10 P34 P09", base, '''
f = RGBDImages(rgb, d, K, P, channels_first=%s)
%s
k = snap(obs(f.clone()))
w = [v.clone() for v in (rgb, d, K, P)]
s = f.plotly(%d%s, as_figure=False)
return {"record": s, "=kept": (obs(f), k), "=caller": ([rgb, d, K, P], w)}
''' % (cf, warm, ix, kw), opaque=["img_to_b64str"])
add("view-rejects", "P10", BASE, "f = RGBDImages(rgb, d, K, P)\nf.plotly(1.0)\nreturn {'x': 1}", dead=True)
