"""Scenarios over the SLAM pipelines: tracking, mapping, loop order, hyperparameters, purity."""
from sa.drive import split_top
PRE = '''
import math
import torch
from gradslam.structures.rgbdimages import RGBDImages
from gradslam.structures.pointclouds import Pointclouds
from gradslam.structures.utils import pointclouds_from_rgbdimages
from gradslam.slam.icpslam import ICPSLAM
from gradslam.slam.pointfusion import PointFusion
from gradslam.slam import fusionutils as F
from gradslam.odometry import icputils as U
def pf(v): return v.permute(0, 1, 4, 2, 3)
def obs(f): return [f.rgb_image, f.depth_image, f.intrinsics, f.poses, f.channels_first, f.shape]
def maps(f): return [f.valid_depth_mask, f.vertex_map, f.normal_map, f.global_vertex_map, f.global_normal_map]
def lists(m): return [m.points_list, m.normals_list, m.colors_list, m.features_list]
def padded(m): return [m.points_padded, m.normals_padded, m.colors_padded, m.features_padded]
def eye(f): return torch.eye(4, dtype=f.dtype, device=f.device)
def tracked(kind, m, prev, live, ds, n, l, th, extra):
    I = eye(live.depth_image); Q = prev.poses
    g = RGBDImages(live.rgb_image, live.depth_image, live.intrinsics, Q, channels_first=live.channels_first)
    fc = U.downsample_rgbdimages(g, ds)
    mc = U.downsample_pointclouds(m, F.find_active_map_points(m, prev), ds)
    out = []
    for b in range(len(m)):
        s = fc.points_list[b][None]; t = mc.points_list[b][None]; k = mc.normals_list[b][None]
        if kind == "icp":
            T = U.point_to_plane_ICP(s, t, k, I, numiters=n, damp=l, dist_thresh=th)[0]
        else:
            T = U.point_to_plane_gradICP(s, t, k, I, numiters=n, damp=l, dist_thresh=th, lambda_max=extra[0], B=extra[1], B2=extra[2], nu=extra[3])[0]
        A = T; B = Q[b, 0]
        R = A[:3, :3] @ B[:3, :3]; v = A[:3, :3] @ B[:3, 3:] + A[:3, 3:]
        out.append(torch.cat([torch.cat([R, v], -1), torch.tensor([[0., 0., 0., 1.]], dtype=B.dtype, device=B.device)], 0))
    return torch.stack(out)[:, None]
'''
SC = []
def add(id, props, args, body, **kw):
    names = [a.split(":")[0].strip() for a in split_top(args, ";")]
    SC.append(dict(id=id, props=props.split(), args=args, src=PRE + "def main(%s):\n" % ", ".join(names) + "\n".join("    " + l for l in body.strip("\n").split("\n")), **kw))
PO = ("point_to_plane_ICP=f[4,4],i[3]", "point_to_plane_gradICP=f[4,4],i[3]")
FR = "rgb:f[2,1,4,5,3]; d:f[2,1,4,5,1]; K:f[2,1,4,4]; P:f[2,1,4,4]"
LV = "; rgbl:f[2,1,4,5,3]; dl:f[2,1,4,5,1]; Q:f[2,1,4,4]"
HP = "; l:float; th:float; a:float; B1:float; B2:float; nu:float"
MP = "pa:f[7,3]; pb:f[4,3]; na:f[7,3]; nb:f[4,3]; ca:f[7,3]; cb:f[4,3]; fa:f[7,1]; fb:f[4,1]; "
WM = "m = Pointclouds([pa, pb], [na, nb], [ca, cb])\n"
WF = "m = Pointclouds([pa, pb], [na, nb], [ca, cb], [fa, fb])\n"
WM2 = WM.replace("m =", "m2 ="); WF2 = WF.replace("m =", "m2 =")
FRM = "prev = RGBDImages(rgb, d, K, P); live = RGBDImages(rgbl, dl, K, Q)\n"
FRM2 = "prev2 = RGBDImages(rgb, d, K, P); live2 = RGBDImages(rgbl, dl, K, Q)\n"
FRMF = "prev = RGBDImages(pf(rgb), pf(d), K, P, channels_first=True); live = RGBDImages(pf(rgbl), pf(dl), K, Q, channels_first=True)\n"
OBSF = ', "=prev": (obs(prev), [rgb, d, K, P, False, (2, 1, 4, 5)])'
# ---------------------------------------------------------------- localisation (P19, P20, P21)
CL = {"icp": "ICPSLAM(odom='icp', dsratio=%d, numiters=3, damp=l, dist_thresh=th)", "gradicp": "ICPSLAM(odom='gradicp', dsratio=%d, numiters=3, damp=l, dist_thresh=th, lambda_max=a, B=B1, B2=B2, nu=nu)"}
CP = {"icp": "PointFusion(odom='icp', dsratio=%d, numiters=3, damp=l, dist_thresh=th)", "gradicp": "PointFusion(odom='gradicp', dsratio=%d, numiters=3, damp=l, dist_thresh=th, lambda_max=a, B=B1, B2=B2, nu=nu)"}
for kind in ("icp", "gradicp"):
    for ds in (1, 2):
        add("localize-%s-%d" % (kind, ds), "P19 P20 P21", MP + FR + LV + HP, WM + FRM + '''
p = %s._localize(m, live, prev)
w = tracked("%s", m, prev, live, %d, 3, l, th, (a, B1, B2, nu))
return {"=pose": (p, w), "=shape": (p.shape, (2, 1, 4, 4)), "=map": (lists(m), [[pa, pb], [na, nb], [ca, cb], None]), "=frames": ([obs(prev), obs(live)], [[rgb, d, K, P, False, (2, 1, 4, 5)], [rgbl, dl, K, Q, False, (2, 1, 4, 5)]])}
''' % (CL[kind] % ds, kind, ds), opaque=PO, labels={"=map": ["P12", "P19"], "=frames": ["P12", "P19"]}, **({} if ds == 2 else dict(tier="thorough")))
    add("localize-intrinsics-%s" % kind, "P19 P20", MP + FR + LV + "; K2:f[2,1,4,4]" + HP, WM + FRM.replace("live = RGBDImages(rgbl, dl, K, Q)", "live = RGBDImages(rgbl, dl, K2, Q)") + '''
return {"=pose": (%s._localize(m, live, prev), tracked("%s", m, prev, live, 2, 3, l, th, (a, B1, B2, nu)))}
''' % (CL[kind] % 2, kind), opaque=PO)
    add("localize-fusion-%s" % kind, "P19 P21", MP + FR + LV + HP, WF + FRM + '''
return {"=same": (%s._localize(m, live, prev), %s._localize(m, live, prev))}
''' % (CP[kind] % 2, CL[kind] % 2), opaque=PO)
    add("localize-unposed-%s" % kind, "P19 P20 P39", MP + FR + LV + HP, WM + '''
prev = RGBDImages(rgb, d, K, P); live = RGBDImages(rgbl, dl, K); other = RGBDImages(rgbl, dl, K, Q)
s = %s
return {"=pose": (s._localize(m, live, prev), s._localize(m, other, prev)), "=live": (live.poses, None)}
''' % (CL[kind] % 2), opaque=PO, rules=["no_failing_access"])
    add("localize-first-%s" % kind, "P09 P19", MP + FR + LV + HP, WM + FRM + FRMF.replace("prev", "prev1").replace("live", "live1") + '''
s = %s
return {"=layouts": (s._localize(m, live1, prev1), s._localize(m, live, prev))}
''' % (CL[kind] % 2), opaque=PO)
for odom in ("gt", "icp", "gradicp"):
    add("localize-noprev-%s" % odom, "P19 P20 P39", MP + FR, WM + '''
f = RGBDImages(rgb, d, K, P); e = Pointclouds()
s = ICPSLAM(odom='%s')
return {"=full": (s._localize(m, f, None), P), "=empty": (s._localize(e, f, None), P), "=frame": (obs(f), [rgb, d, K, P, False, (2, 1, 4, 5)])}
''' % odom, opaque=PO, rules=["no_failing_access"])
add("localize-truth-prev", "P19 P20", MP + FR + LV, WM + FRM + 'return {"=pose": (ICPSLAM(odom="gt")._localize(m, live, prev), Q)}')
# ---------------------------------------------------------------- one step (P12, P20, P21)
for slam, mk, upd, wm, wm2 in (("icpslam", CL, "F.update_map_aggregate(m2, g, %s)", WM, WM2), ("pointfusion", CP, "F.update_map_fusion(m2, g, 0.05, math.cos(20 * math.pi / 180), 0.6, %s)", WF, WF2)):
    for inpl in ("True", "False"):
        add("step-%s-truth-%s" % (slam, inpl), "P20 P12 P21", MP + FR, wm + wm2 + '''
f = RGBDImages(rgb, d, K, P); g = RGBDImages(rgb, d, K, P)
n, p = %s.step(m, f, None, %s)
w = %s
return {"=pose": (p, P), "=map": (lists(n), lists(w)), "=frame": (obs(f), [rgb, d, K, P, False, (2, 1, 4, 5)])%s}
''' % ({"icpslam": "ICPSLAM(odom='gt')", "pointfusion": "PointFusion(odom='gt')"}[slam], inpl, upd % inpl, ', "=same": (n is m, True)' if inpl == "True" else ', "=input": (lists(m), lists(m2)), "=other": (n is m, False)'), opaque=PO,
            labels={"=input": ["P12"], "=other": ["P12"], "=frame": ["P12", "P20"]})
    for kind in ("icp", "gradicp"):
        for inpl in ("True", "False"):
            add("step-%s-%s-%s" % (slam, kind, inpl), "P20 P12 P21 P19", MP + FR + LV + HP, wm + FRM + wm2 + '''
s = %s
n, p = s.step(m, live, prev, %s)
q = s._localize(m2, RGBDImages(rgbl, dl, K, Q), RGBDImages(rgb, d, K, P))
g = RGBDImages(rgbl, dl, K, q)
w = %s
return {"=pose": (p, q), "=map": (lists(n), lists(w)), "=prev": (obs(prev), [rgb, d, K, P, False, (2, 1, 4, 5)]), "=live": (obs(live), [rgbl, dl, K, %s, False, (2, 1, 4, 5)])%s}
''' % (mk[kind] % 2, inpl, upd % inpl, "q" if inpl == "True" else "Q", ', "=same": (n is m, True)' if inpl == "True" else ', "=input": (lists(m), lists(m2)), "=other": (n is m, False)'), opaque=PO,
                labels={"=input": ["P12"], "=other": ["P12"], "=prev": ["P12", "P20"], "=live": ["P12", "P20"]}, **(dict(tier="thorough") if kind == "icp" and slam == "pointfusion" else {}))
    add("step-%s-maps" % slam, "P08 P12 P20", MP + FR + LV, wm + FRM + '''
prev.global_vertex_map; live.global_normal_map; live.global_vertex_map
n, p = %s.step(m, live, prev, True)
h = RGBDImages(rgbl, dl, K, p)
return {"=live": (maps(live), maps(h)), "=prev": (maps(prev), maps(RGBDImages(rgb, d, K, P)))}
''' % {"icpslam": "ICPSLAM(odom='icp', dsratio=2)", "pointfusion": "PointFusion(odom='icp', dsratio=2)"}[slam], opaque=PO)
    add("step-%s-copy-maps" % slam, "P12 P08", MP + FR + LV, wm + FRM + '''
live.global_vertex_map
n, p = %s.step(m, live, prev)
return {"=live": ([obs(live), maps(live)], [[rgbl, dl, K, Q, False, (2, 1, 4, 5)], maps(RGBDImages(rgbl, dl, K, Q))])}
''' % {"icpslam": "ICPSLAM(odom='icp', dsratio=2)", "pointfusion": "PointFusion(odom='icp', dsratio=2)"}[slam], opaque=PO)
    add("step-%s-default" % slam, "P12 P39", MP + FR + LV, wm + FRM + '''
n, p = %s.step(m, live)
return {"=pose": (p, Q), "=other": (n is m, False), "=live": (obs(live), [rgbl, dl, K, Q, False, (2, 1, 4, 5)]), "=map": (lists(m)[:3], [[pa, pb], [na, nb], [ca, cb]])}
''' % {"icpslam": "ICPSLAM(odom='icp', dsratio=2)", "pointfusion": "PointFusion(odom='icp', dsratio=2)"}[slam], opaque=PO)
# ---------------------------------------------------------------- whole sequences (P20)
SQ = "rgb:f[2,2,4,5,3]; d:f[2,2,4,5,1]; K:f[2,1,4,4]; P:f[2,2,4,4]"
SQ3 = "rgb:f[2,3,4,5,3]; d:f[2,3,4,5,1]; K:f[2,1,4,4]; P:f[2,3,4,4]"
LOOP = '''
w = Pointclouds(); prev = None; ps = []
for i in range(%d):
    g = RGBDImages(rgb[:, i:i + 1], d[:, i:i + 1], K, %s)
    if i == 0 and g.poses is None: g.poses = eye(d).expand(2, 1, 4, 4)
    w, q = s.step(w, g, prev, inplace=True)
    g = RGBDImages(rgb[:, i:i + 1], d[:, i:i + 1], K, q)
    prev = None if s.odom == "gt" else g
    ps.append(q)
'''
for slam, nm, sp, n in (("ICPSLAM", "icpslam", SQ, 2), ("ICPSLAM", "icpslam3", SQ3, 3), ("PointFusion", "pointfusion", SQ, 2)):
    for odom in ("gt", "icp", "gradicp"):
        for posed in (True, False):
            if odom == "gt" and not posed: continue
            heavy = (n == 3 and odom != "gt" and (odom, posed) != ("icp", True))
            add("forward-%s-%s-%s" % (nm, odom, "posed" if posed else "unposed"), "P20 P19 P12", sp if posed else sp.rsplit(";", 1)[0], '''
s = %s(odom="%s", dsratio=2)
f = RGBDImages(rgb, d, K%s)
m, p = s(f)
''' % (slam, odom, ", P" if posed else "") + (LOOP % (n, "P[:, i:i + 1]" if posed else "None")).strip("\n") + '''
return {"=poses": (p, torch.cat(ps, 1)), "=shape": (p.shape, (2, %d, 4, 4)), "=map": (lists(m), lists(w)), "=frames": (obs(f), [rgb, d, K, %s, False, (2, %d, 4, 5)])}
''' % (n, "P" if posed else "None", n), opaque=PO, labels={"=frames": ["P12", "P20"]}, **(dict(tier="thorough") if heavy or (slam == "PointFusion" and odom == "icp") else {}))
add("forward-first-pose", "P20 P19", SQ, '''
m, p = ICPSLAM(odom="icp", dsratio=2)(RGBDImages(rgb, d, K, P))
n, q = ICPSLAM(odom="icp", dsratio=2)(RGBDImages(rgb, d, K))
return {"=given": (p[:, :1], P[:, :1]), "=identity": (q[:, :1], eye(d).expand(2, 1, 4, 4))}
''', opaque=PO)
add("forward-truth-poses", "P20 P19", SQ3, '''
n, q = ICPSLAM(odom="gt")(RGBDImages(rgb, d, K, P))
v = d[..., 0] > 0
w = [torch.cat([RGBDImages(rgb[:, i:i + 1], d[:, i:i + 1], K, P[:, i:i + 1]).global_vertex_map[b, 0][v[b, i]] for i in range(3)], 0) for b in range(2)]
return {"=aggregate": (q, P), "=points": (n.points_list, w)}
''', opaque=PO)
add("forward-truth-fusion", "P20 P19", SQ, '''
m, p = PointFusion(odom="gt")(RGBDImages(rgb, d, K, P))
return {"=fusion": (p, P)}
''', opaque=PO)
add("forward-first-layout", "P09 P20", SQ, '''
m, p = ICPSLAM(odom="icp", dsratio=2)(RGBDImages(rgb, d, K, P))
n, q = ICPSLAM(odom="icp", dsratio=2)(RGBDImages(pf(rgb), pf(d), K, P, channels_first=True))
return {"=poses": (q, p), "=map": (lists(n), lists(m))}
''', opaque=PO)
add("forward-twice", "P20 P12", SQ, '''
s = ICPSLAM(odom="icp", dsratio=2); f = RGBDImages(rgb, d, K, P)
m, p = s(f); n, q = s(f)
return {"=poses": (q, p), "=map": (lists(n), lists(m))}
''', opaque=PO)
for slam, nm, agg in (("ICPSLAM", "icpslam", "F.update_map_aggregate(%s, g, inplace=%s)"), ("PointFusion", "pointfusion", "F.update_map_fusion(%s, g, 0.05, math.cos(20 * math.pi / 180), 0.6, inplace=%s)")):
    for inpl in ("True", "False"):
        add("step-%s-empty-%s" % (nm, inpl), "P12 P20", FR, '''
m = Pointclouds(); e = Pointclouds(); f = RGBDImages(rgb, d, K, P); g = RGBDImages(rgb, d, K, P)
n, p = %s(odom="icp", dsratio=2).step(m, f, inplace=%s)
w = %s
return {"=same": (n is m, %s), "=aggregate": (w is e, %s), "=input": ([m.has_points, len(m), e.has_points, len(e)], %s), "=map": (lists(n), lists(w)), "=pose": (p, P)}
''' % (slam, inpl, agg % ("e", inpl), inpl, inpl, "[True, 2, True, 2]" if inpl == "True" else "[False, 0, False, 0]"), opaque=PO, labels={"=input": ["P12"], "=same": ["P12"], "=aggregate": ["P12"]})
# ---------------------------------------------------------------- hyperparameters (P21)
ALL = ["odom='gradicp'", "dsratio=2", "numiters=3", "damp=l", "dist_thresh=th", "lambda_max=a", "B=B1", "B2=B2", "nu=nu", "device='cpu'"]
add("init-icpslam", "P21", "l:float; th:float; a:float; B1:float; B2:float; nu:float", '''
s = ICPSLAM(%s); o = s.odomprov
z = ICPSLAM(odom='icp', numiters=5, damp=l, dist_thresh=th).odomprov
e = ICPSLAM(); eo = e.odomprov
return {"=s": ([s.odom, s.dsratio, o.numiters, o.damp, o.dist_thresh, o.lambda_max, o.B, o.B2, o.nu], ["gradicp", 2, 3, l, th, a, B1, B2, nu]),
        "=icp": ([z.numiters, z.damp, z.dist_thresh], [5, l, th]),
        "=defaults": ([e.odom, e.dsratio, eo.numiters, eo.damp, eo.dist_thresh, eo.lambda_max, eo.B, eo.B2, eo.nu], ["gradicp", 4, 20, 1e-8, None, 2.0, 1.0, 1.0, 200.0])}
''' % ", ".join(ALL))
add("init-pointfusion", "P21", "l:float; th:float; a:float; B1:float; B2:float; nu:float; dt:float; sg:float", '''
s = PointFusion(dist_th=dt, angle_th=60, sigma=sg, %s); o = s.odomprov
z = PointFusion(odom='icp', numiters=5, damp=l, dist_thresh=th).odomprov
e = PointFusion(); eo = e.odomprov
return {"=s": ([s.odom, s.dsratio, o.numiters, o.damp, o.dist_thresh, o.lambda_max, o.B, o.B2, o.nu, s.dist_th, s.dot_th, s.sigma], ["gradicp", 2, 3, l, th, a, B1, B2, nu, dt, math.cos(60 * math.pi / 180), sg]),
        "=icp": ([z.numiters, z.damp, z.dist_thresh], [5, l, th]),
        "=defaults": ([e.odom, e.dsratio, eo.numiters, eo.damp, eo.dist_thresh, eo.lambda_max, eo.B, eo.B2, eo.nu, e.dist_th, e.dot_th, e.sigma], ["gradicp", 4, 20, 1e-8, None, 2.0, 1.0, 1.0, 200.0, 0.05, math.cos(20 * math.pi / 180), 0.6])}
''' % ", ".join(ALL))
add("init-ratio", "P21", "k:int", 'return {"=icp": (ICPSLAM(odom="icp", dsratio=k).dsratio, k), "=fusion": (PointFusion(dsratio=k).dsratio, k), "=iterations": (ICPSLAM(odom="icp", numiters=k).odomprov.numiters, k)}')
add("init-angle-whole", "P21", "at:int", 'return {"=dot": (PointFusion(angle_th=at).dot_th, math.cos(math.radians(at)))}')
add("init-angle", "P21", "at:float", 'return {"dot": PointFusion(angle_th=at).dot_th, "=dot": (PointFusion(angle_th=at).dot_th, math.cos(math.radians(at)))}')
add("fusion-thresholds", "P21 P20", MP + FR + "; dt:float; sg:float", WF + WF2 + '''
f = RGBDImages(rgb, d, K, P); g = RGBDImages(rgb, d, K, P)
n, p = PointFusion(odom='gt', dist_th=dt, angle_th=60, sigma=sg).step(m, f)
w = F.update_map_fusion(m2, g, dt, math.cos(60 * math.pi / 180), sg)
return {"=map": (lists(n), lists(w))}
''')
# ---------------------------------------------------------------- rejections (P38, P39)
for bad, sp, body in (("odom", FR, "ICPSLAM(odom='none')"), ("odom-fusion", FR, "PointFusion(odom='rgb')"), ("threshold", FR, "PointFusion(dist_th='a')"), ("angle", FR, "PointFusion(angle_th=None)"),
        ("forward-type", FR, "ICPSLAM()(rgb)"), ("forward-none", FR, "PointFusion()(None)"), ("step-type", FR, "ICPSLAM().step(Pointclouds(), rgb)"), ("step-map", FR, "ICPSLAM(odom='gt').step(rgb, RGBDImages(rgb, d, K, P))"), ("step-prev", FR, "ICPSLAM().step(Pointclouds(), RGBDImages(rgb, d, K, P), rgb)"),
        ("unposed-live", FR, "ICPSLAM().step(Pointclouds(), RGBDImages(rgb, d, K))"), ("unposed-truth", FR, "PointFusion(odom='gt').step(Pointclouds(), RGBDImages(rgb, d, K))"),
        ("unposed-prev", MP + FR, "ICPSLAM(odom='icp').step(Pointclouds([pa, pb], [na, nb], [ca, cb]), RGBDImages(rgb, d, K, P), RGBDImages(rgb, d, K))"),
        ("unposed-truth-prev", FR + LV, "ICPSLAM(odom='gt').step(Pointclouds(), RGBDImages(rgbl, dl, K), RGBDImages(rgb, d, K, P))"),
        ("unposed-truth-sequence", SQ.rsplit(";", 1)[0], "ICPSLAM(odom='gt')(RGBDImages(rgb, d, K))")):
    add("reject-slam-" + bad, "P20 P19 P38 P39" if "unposed" in bad else "P38 P39", sp, "return {'x': %s}" % body, dead=True)
for odom, tail in (("icp", "prev"), ("icp", "rgb"), ("gt", "None")):
    add("reject-step-keeps-%s-%s" % (odom, tail), "P38", MP + FR + LV, WM + '''
live = RGBDImages(rgbl, dl, K%s); prev = RGBDImages(rgb, d, K)
try:
    ICPSLAM(odom="%s").step(m, live, %s, True)
except (ValueError, TypeError): pass
return {"=map": (lists(m), [[pa, pb], [na, nb], [ca, cb], None]), "=live": (obs(live), [rgbl, dl, K, %s, False, (2, 1, 4, 5)]), "=prev": (obs(prev), [rgb, d, K, None, False, (2, 1, 4, 5)])}
''' % ("" if odom == "gt" else ", Q", odom, tail, "None" if odom == "gt" else "Q"), opaque=PO)
# ---------------------------------------------------------------- gradients, devices (P15, P35)
add("step-paths", "P15 P35 P16", MP + FR + LV, WF + FRM + '''
n, p = PointFusion(odom='gradicp', dsratio=2).step(m, live, prev)
return {"pose": p, "map": lists(n)}
''', opaque=PO)
add("step-paths-aggregate", "P15 P35 P16", MP + FR + LV, WM + FRM + '''
n, p = ICPSLAM(odom='icp', dsratio=2).step(m, live, prev)
return {"pose": p, "map": lists(n)}
''', opaque=PO)
