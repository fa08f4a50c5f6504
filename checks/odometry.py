"""Scenarios over registration and odometry providers: linear solver, rows, LM loop, providers, downsampling."""
from sa.drive import split_top
PRE = '''
import torch
from gradslam.structures.rgbdimages import RGBDImages
from gradslam.structures.pointclouds import Pointclouds
from gradslam.structures.utils import pointclouds_from_rgbdimages
from gradslam.odometry import icputils as U
from gradslam.odometry.icp import ICPOdometryProvider
from gradslam.odometry.gradicp import GradICPOdometryProvider
from gradslam.odometry.groundtruth import GroundTruthOdometryProvider
from gradslam.geometry.se3utils import se3_exp
from gradslam.geometry.geometryutils import transform_pointcloud
from chamferdist.chamfer import knn_points
def pf(v): return v.permute(0, 1, 4, 2, 3)
def lists(m): return [m.points_list, m.normals_list, m.colors_list, m.features_list]
def padded(m): return [m.points_padded, m.normals_padded, m.colors_padded, m.features_padded]
def obs(f): return [f.rgb_image, f.depth_image, f.intrinsics, f.poses, f.channels_first, f.shape]
'''
SC = []
def add(id, props, args, body, pure=True, **kw):
    parts = split_top(args, ";")
    names = [a.split(":")[0].strip() for a in parts]
    tens = [n for n, a in zip(names, parts) if a.split(":")[1].strip()[:1] in "fib" and "[" in a]
    pure = pure and not kw.get("dead") and tens
    src = PRE
    if pure:
        src += "def main(%s):\n    keep_ = [v.clone() for v in [%s]]\n    out_ = body(%s)\n    out_['=inputs'] = ([%s], keep_)\n    return out_\n" % (", ".join(names), ", ".join(tens), ", ".join(names), ", ".join(tens))
        kw.setdefault("labels", {})["=inputs"] = ["P34"]
    src += "def %s(%s):\n" % ("body" if pure else "main", ", ".join(names)) + "\n".join("    " + l for l in body.strip("\n").split("\n"))
    SC.append(dict(id=id, props=props.split() + (["P34"] if pure else []), args=args, src=src, **kw))
# ---------------------------------------------------------------- P18 linear solve and rows
add("solve", "P18 P15 P35", "A:f[5,6]; b:f[5,1]; l:float", '''
x = U.solve_linear_system(A, b, l)
I = torch.eye(6, dtype=A.dtype, device=A.device)
return {"x": x, "=normal": (x, torch.inverse(A.t() @ A + l * I) @ (A.t() @ b)), "=meta": (x.shape, (6, 1))}
''')
add("solve-default", "P18 P39", "A:f[5,6]; b:f[5,1]", 'return {"x": U.solve_linear_system(A, b), "=damp": (U.solve_linear_system(A, b), U.solve_linear_system(A, b, 1e-8))}')
add("solve-tensor-damp", "P18 P15", "A:f[5,6]; b:f[5,1]; l:f[]", 'return {"x": U.solve_linear_system(A, b, l), "=same": (U.solve_linear_system(A, b, l), torch.inverse(A.t() @ A + l * torch.eye(6, dtype=A.dtype, device=A.device)) @ (A.t() @ b))}')
PC = "p:f[1,7,3]; t:f[1,5,3]; n:f[1,5,3]"
for nm, thr, sp in (("plain", "None", ""), ("filtered", "th", "; th:float")):
    add("rows-" + nm, "P18 P15 P39", PC + sp, '''
A, b, ix = U.gauss_newton_solve(p, t, n, %s)
k = knn_points(p, t)
keep = torch.ones_like(k.dists[0, :, 0], dtype=torch.bool) if %s is None else k.dists[0, :, 0] < %s
j = k.idx[0, :, 0][keep].long()
s = p[0][keep]; d = t[0][j]; m = n[0][j]
x = torch.stack([s[:, 1] * m[:, 2] - s[:, 2] * m[:, 1], s[:, 2] * m[:, 0] - s[:, 0] * m[:, 2], s[:, 0] * m[:, 1] - s[:, 1] * m[:, 0]], 1)
return {"A": A, "b": b, "ix": ix, "=A": (A, torch.cat([m, x], 1)), "=b": (b, (m * (d - s)).sum(1, keepdim=True)), "=ix": (ix, j)}
''' % (thr, thr, thr))
add("rows-default", "P18 P39 P21", PC, 'return {"=default": (U.gauss_newton_solve(p, t, n), U.gauss_newton_solve(p, t, n, None))}')
add("rows-one-axis", "P18", "s:f[7]; q:f[5]; w:f[5]", '''
z = torch.zeros_like(s); z5 = torch.zeros_like(q)
A, b, ix = U.gauss_newton_solve(torch.stack([s, z, z], 1)[None], torch.stack([q, z5, z5], 1)[None], torch.stack([w, z5, z5], 1)[None])
return {"=b": (b[:, 0], w[ix] * (q[ix] - s)), "=first": (A[:, 0], w[ix])}
''')
# ---------------------------------------------------------------- P17 LM loops
LM = '''
def lm(p, t, n, T0, k, damp, th):
    c = transform_pointcloud(p[0], T0)[None]; T = T0; ix = None
    for _ in range(k):
        A, b, ix = U.gauss_newton_solve(c, t, n, th)
        xi = U.solve_linear_system(A, b, damp); D = se3_exp(xi)
        c1 = transform_pointcloud(c[0], D)[None]
        _, b1, _ = U.gauss_newton_solve(c1, t, n, th)
        if (b1[:, 0] * b1[:, 0]).sum() < (b[:, 0] * b[:, 0]).sum():
            c = c1; damp = damp / 2; T = D @ T
        else:
            damp = damp * 2
    return T, ix
def soft(p, t, n, T0, k, damp, th, lmax, B, B2, nu):
    c = transform_pointcloud(p[0], T0)[None]; T = T0; ix = None
    for _ in range(k):
        A, b, ix = U.gauss_newton_solve(c, t, n, th)
        xi = U.solve_linear_system(A, b, damp)
        c1 = transform_pointcloud(c[0], se3_exp(xi))[None]
        _, b1, _ = U.gauss_newton_solve(c1, t, n, th)
        e = ((b1[:, 0] * b1[:, 0]).sum() - (b[:, 0] * b[:, 0]).sum()).clamp(-70.0, 70.0)
        damp = damp * (1 / lmax + (lmax - 1 / lmax) / (1 + torch.exp(-B * e)))
        D = se3_exp(xi / (1 + torch.exp(-B2 * e)) ** (1 / nu))
        c = transform_pointcloud(c[0], D)[None]; T = D @ T
    return T, ix
'''
def lm(id, props, args, body, **kw): add(id, props, args, "\n".join(LM.strip("\n").split("\n")) + "\n" + body.strip("\n"), **kw)
for k in (0, 1, 2):
    for nm, thr, sp in (("plain", "None", ""), ("filtered", "th", "; th:float")):
        if k == 2 and nm == "filtered": continue
        add("icp-%d-%s" % (k, nm), "P17 P15 P35", PC + "; T0:f[4,4]; l:float" + sp, LM.replace("\ndef", "\ndef") + '''
T, ix = U.point_to_plane_ICP(p, t, n, T0, numiters=%d, damp=l, dist_thresh=%s)
W, jx = lm(p, t, n, T0, %d, torch.as_tensor(l, dtype=p.dtype, device=p.device), %s)
return {"T": T, "=transform": (T, W), "=index": (ix, jx)}
''' % (k, thr, k, thr), **(dict(tier="thorough") if k == 2 else {}))
        add("gradicp-%d-%s" % (k, nm), "P17 P15 P35 P21", PC + "; T0:f[4,4]; l:float; a:float; B1:float; B2:float; nu:float" + sp, LM + '''
T, ix = U.point_to_plane_gradICP(p, t, n, T0, numiters=%d, damp=l, dist_thresh=%s, lambda_max=a, B=B1, B2=B2, nu=nu)
W, jx = soft(p, t, n, T0, %d, torch.as_tensor(l, dtype=p.dtype, device=p.device), %s, a, B1, B2, nu)
return {"T": T, "=transform": (T, W), "=index": (ix, jx)}
''' % (k, thr, k, thr), **(dict(tier="thorough") if k == 2 else {}))
OPQ = ("gauss_newton_solve=f[7,6],f[7,1],i[7]", "solve_linear_system=f[6,1]", "se3_exp=f[4,4]")
for k in (2, 3):
    add("icp-steps-%d" % k, "P17", PC + "; T0:f[4,4]; l:float; th:float", LM + '''
T, ix = U.point_to_plane_ICP(p, t, n, T0, numiters=%d, damp=l, dist_thresh=th)
W, jx = lm(p, t, n, T0, %d, torch.as_tensor(l, dtype=p.dtype, device=p.device), th)
return {"=transform": (T, W), "=index": (ix, jx)}
''' % (k, k), opaque=OPQ)
    add("gradicp-steps-%d" % k, "P17", PC + "; T0:f[4,4]; l:float; th:float; a:float; B1:float; B2:float; nu:float", LM + '''
T, ix = U.point_to_plane_gradICP(p, t, n, T0, numiters=%d, damp=l, dist_thresh=th, lambda_max=a, B=B1, B2=B2, nu=nu)
W, jx = soft(p, t, n, T0, %d, torch.as_tensor(l, dtype=p.dtype, device=p.device), th, a, B1, B2, nu)
return {"=transform": (T, W), "=index": (ix, jx)}
''' % (k, k), opaque=OPQ)
add("icp-moves", "P17", PC + "; T0:f[4,4]; l:float; th:float", LM + '''
T, ix = U.point_to_plane_ICP(p, t, n, T0, numiters=2, damp=l, dist_thresh=th)
W, jx = lm(p, t, n, T0, 2, torch.as_tensor(l, dtype=p.dtype, device=p.device), th)
return {"=index": (ix, jx)}
''', opaque=OPQ + ("transform_pointcloud=f[7,3]",))
add("gradicp-moves", "P17", PC + "; T0:f[4,4]; l:float; th:float; a:float; B1:float; B2:float; nu:float", LM + '''
T, ix = U.point_to_plane_gradICP(p, t, n, T0, numiters=2, damp=l, dist_thresh=th, lambda_max=a, B=B1, B2=B2, nu=nu)
W, jx = soft(p, t, n, T0, 2, torch.as_tensor(l, dtype=p.dtype, device=p.device), th, a, B1, B2, nu)
return {"=index": (ix, jx)}
''', opaque=OPQ + ("transform_pointcloud=f[7,3]",))
for nm, fn in (("icp", "point_to_plane_ICP"), ("gradicp", "point_to_plane_gradICP")):
    add("%s-no-initial" % nm, "P17 P39", PC, '''
I = torch.eye(4, dtype=p.dtype, device=p.device)
a = U.%s(p, t, n, numiters=1); b = U.%s(p, t, n, I, numiters=1)
return {"=identity": (a[0], b[0])}
''' % (fn, fn), rules=["no_failing_access"])
    add("%s-no-iterations" % nm, "P17 P39", PC + "; T0:f[4,4]", 'return {"=initial": (U.%s(p, t, n, T0, numiters=0)[0], T0), "=none": (U.%s(p, t, n, numiters=0)[0], torch.eye(4, dtype=p.dtype, device=p.device))}' % (fn, fn), rules=["no_failing_access"])
    add("%s-defaults" % nm, "P17 P21 P39", PC + "; T0:f[4,4]", 'return {"=d": (U.%s(p, t, n, T0, numiters=1)[0], U.%s(p, t, n, T0, numiters=1, damp=1e-8, dist_thresh=None)[0])}' % (fn, fn))
    for bad, sp, call in (("source-type", PC, "(1, t, n)"), ("target-type", PC, "(p, 1, n)"), ("normals-type", PC, "(p, t, None)"), ("initial-type", PC, "(p, t, n, 3)"), ("initial-shape", PC + "; T0:f[3,4]", "(p, t, n, T0)"), ("initial-rank", PC + "; T0:f[1,4,4]", "(p, t, n, T0)"), ("numiters", PC, "(p, t, n, numiters=2.0)"),
                          ("batch", "p:f[1,7,3]; t:f[2,5,3]; n:f[2,5,3]", "(p, t, n, numiters=1)"), ("width", "p:f[1,7,4]; t:f[1,5,3]; n:f[1,5,3]", "(p, t, n, numiters=1)"), ("normals-count", "p:f[1,7,3]; t:f[1,5,3]; n:f[1,6,3]", "(p, t, n, numiters=1)"), ("threshold", PC, "(p, t, n, numiters=1, dist_thresh='a')")):
        add("reject-%s-%s" % (nm, bad), "P38", sp, "return {'x': U.%s%s}" % (fn, call), dead=True)
for bad, sp, call in (("type", "b:f[5,1]", "(1, b)"), ("b", "A:f[5,6]; b:f[5,2]", "(A, b)"), ("rows", "A:f[5,6]; b:f[4,1]", "(A, b)"), ("rank", "A:f[1,5,6]; b:f[5,1]", "(A, b)"), ("damp", "A:f[5,6]; b:f[5,1]", "(A, b, 'x')"), ("damp-shape", "A:f[5,6]; b:f[5,1]; l:f[1]", "(A, b, l)")):
    add("reject-solve-%s" % bad, "P38", sp, "return {'x': U.solve_linear_system%s}" % call, dead=True)
# ---------------------------------------------------------------- P19, P21 providers
CL = "ma:f[6,3]; mb:f[5,3]; na:f[6,3]; nb:f[5,3]; fa:f[4,3]; fb:f[7,3]"
W = "m = Pointclouds([ma, mb], [na, nb]); f = Pointclouds([fa, fb])\nI = torch.eye(4, dtype=fa.dtype, device=fa.device)\n"
PO = ("point_to_plane_ICP=f[4,4],i[3]", "point_to_plane_gradICP=f[4,4],i[3]")
add("provide-icp", "P19 P21", CL + "; l:float; th:float", W + '''
T = ICPOdometryProvider(3, l, th).provide(m, f)
w = [U.point_to_plane_ICP(s[None], t[None], n[None], I, numiters=3, damp=l, dist_thresh=th)[0] for s, t, n in ((fa, ma, na), (fb, mb, nb))]
return {"=T": (T, torch.stack(w)[:, None]), "=meta": (T.shape, (2, 1, 4, 4)), "=map": (lists(m), [[ma, mb], [na, nb], None, None])}
''', opaque=PO)
add("provide-gradicp", "P19 P21", CL + "; l:float; th:float; a:float; B1:float; B2:float; nu:float", W + '''
T = GradICPOdometryProvider(3, l, th, a, B1, B2, nu).provide(m, f)
w = [U.point_to_plane_gradICP(s[None], t[None], n[None], I, numiters=3, damp=l, dist_thresh=th, lambda_max=a, B=B1, B2=B2, nu=nu)[0] for s, t, n in ((fa, ma, na), (fb, mb, nb))]
return {"=T": (T, torch.stack(w)[:, None]), "=meta": (T.shape, (2, 1, 4, 4)), "=map": (lists(m), [[ma, mb], [na, nb], None, None])}
''', opaque=PO)
add("provide-defaults", "P21 P39", CL, W + '''
return {"=icp": (ICPOdometryProvider().provide(m, f), ICPOdometryProvider(20, 1e-8, None).provide(m, f)), "=gradicp": (GradICPOdometryProvider().provide(m, f), GradICPOdometryProvider(20, 1e-8, None, 2.0, 1.0, 1.0, 200.0).provide(m, f))}
''', opaque=PO)
add("provide-keywords", "P21", CL + "; l:float; th:float; a:float; B1:float; B2:float; nu:float", W + '''
return {"=icp": (ICPOdometryProvider(dist_thresh=th, damp=l, numiters=4).provide(m, f), ICPOdometryProvider(4, l, th).provide(m, f)),
        "=gradicp": (GradICPOdometryProvider(nu=nu, B2=B2, B=B1, lambda_max=a, dist_thresh=th, damp=l, numiters=4).provide(m, f), GradICPOdometryProvider(4, l, th, a, B1, B2, nu).provide(m, f))}
''', opaque=PO)
add("provide-padded-map", "P19", CL, W + '''
a = GradICPOdometryProvider(2).provide(m, f)
m2 = Pointclouds([ma, mb], [na, nb]); padded(m2); f2 = Pointclouds([fa, fb]); f2.points_padded
return {"=warm": (GradICPOdometryProvider(2).provide(m2, f2), a), "=icp": (ICPOdometryProvider(2).provide(m2, f2), ICPOdometryProvider(2).provide(m, f))}
''', opaque=PO)
for nm, cls in (("icp", "ICPOdometryProvider"), ("gradicp", "GradICPOdometryProvider")):
    add("provide-inline-%s" % nm, "P19 P21 P15 P35", CL + "; l:float; th:float", W + '''
T = %s(1, l, th).provide(m, f)
return {"T": T}
''' % cls)
    for bad, w in (("map-type", "provide(ma, f)"), ("frame-type", "provide(m, fa)"), ("normals", "provide(f, f)"), ("batch", "provide(m, Pointclouds([fa]))")):
        add("reject-provide-%s-%s" % (nm, bad), "P38 P39", CL, W + "return {'x': %s(1).%s}" % (cls, w), dead=True)
FR = "rgb:f[2,1,4,5,3]; d:f[2,1,4,5,1]; K:f[2,1,4,4]; P:f[2,1,4,4]; Q:f[2,1,4,4]"
add("provide-truth", "P19 P23 P15", FR, '''
a = RGBDImages(rgb, d, K, P); b = RGBDImages(rgb, d, K, Q)
T = GroundTruthOdometryProvider().provide(a, b)
i = torch.inverse(P[:, 0])
R = i[:, :3, :3] @ Q[:, 0, :3, :3]; t = i[:, :3, :3] @ Q[:, 0, :3, 3:] + i[:, :3, 3:]
o = torch.tensor([[[0., 0., 0., 1.]]], dtype=P.dtype, device=P.device).expand(2, 1, 4)
return {"T": T, "=T": (T, torch.cat([torch.cat([R, t], -1), o], 1)[:, None]), "=meta": (T.shape, (2, 1, 4, 4)), "=a": ([obs(a), obs(b)], [[rgb, d, K, P, False, (2, 1, 4, 5)], [rgb, d, K, Q, False, (2, 1, 4, 5)]])}
''')
add("provide-truth-first", "P19 P09", FR, '''
T = GroundTruthOdometryProvider().provide(RGBDImages(rgb, d, K, P), RGBDImages(rgb, d, K, Q))
S = GroundTruthOdometryProvider().provide(RGBDImages(pf(rgb), pf(d), K, P, channels_first=True), RGBDImages(pf(rgb), pf(d), K, Q, channels_first=True))
return {"=layouts": (S, T)}
''')
for bad, w in (("first-type", "provide(1, b)"), ("second-type", "provide(b, 1)"), ("first-unposed", "provide(RGBDImages(rgb, d, K), b)"), ("second-unposed", "provide(b, RGBDImages(rgb, d, K))"), ("batch", "provide(b, RGBDImages(rgb[:1], d[:1], K[:1], P[:1]))")):
    add("reject-truth-%s" % bad, "P38 P39", FR, "b = RGBDImages(rgb, d, K, Q)\nreturn {'x': GroundTruthOdometryProvider().%s}" % w, dead=True)
for w in ("provide(a, b)", "provide(b, a)"):
    add("reject-truth-sequence-" + w[8:9], "P38", "rgb:f[2,2,4,5,3]; d:f[2,2,4,5,1]; K:f[2,1,4,4]; P:f[2,2,4,4]", "a = RGBDImages(rgb, d, K, P); b = RGBDImages(rgb[:, :1], d[:, :1], K, P[:, :1])\nreturn {'x': GroundTruthOdometryProvider().%s}" % w, dead=True)
# ---------------------------------------------------------------- downsampling (P19, P21)
for r in (1, 2, 3):
    add("downsample-frame-%d" % r, "P19 P21 P09 P11", FR, '''
f = RGBDImages(rgb, d, K, P); g = RGBDImages(pf(rgb), pf(d), K, P, channels_first=True)
c = U.downsample_rgbdimages(f, %d)
h = RGBDImages(rgb, d, K, P)
v = (d[:, 0, ::%d, ::%d, 0] > 0)
w = [[x[b, 0, ::%d, ::%d][v[b]] for b in range(2)] for x in (h.global_vertex_map, h.global_normal_map, rgb)]
return {"=count": ([x.shape[0] for x in c.points_list], [int(v[b].sum()) for b in range(2)]), "lists": lists(c), "=samples": ([c.points_list, c.normals_list, c.colors_list], w), "=layouts": (lists(U.downsample_rgbdimages(g, %d)), lists(c)), "=frame": ([obs(f), obs(g)], [obs(h), obs(RGBDImages(pf(rgb), pf(d), K, P, channels_first=True))])}
''' % (r, r, r, r, r, r))
MP = "pa:f[7,3]; pb:f[4,3]; na:f[7,3]; nb:f[4,3]; ca:f[7,3]; cb:f[4,3]; fa:f[7,1]; fb:f[4,1]; ix:i[6,4]"
for r in (1, 2):
    add("downsample-map-%d" % r, "P19 P21 P14", MP, '''
m = Pointclouds([pa, pb], [na, nb], [ca, cb], [fa, fb])
c = U.downsample_pointclouds(m, ix, %d)
k = ix[(ix[:, 2] %% %d == 0) & (ix[:, 3] %% %d == 0)] if %d > 1 else ix
w = [[x[k[k[:, 0] == b][:, 1]] for b, x in enumerate(xs)] for xs in ((pa, pb), (na, nb), (ca, cb))]
return {"lists": lists(c), "=map": (lists(m), [[pa, pb], [na, nb], [ca, cb], [fa, fb]])%s}
''' % (r, r, r, r, ', "=rows": (lists(c)[:3], w)' if r == 2 else ""))
add("downsample-map-partial", "P39 P19", MP, '''
m = Pointclouds([pa, pb]); c = U.downsample_pointclouds(m, ix, 2)
n = Pointclouds([pa, pb], [na, nb]); e = U.downsample_pointclouds(n, ix, 2)
return {"=absent": ([c.normals_list, c.colors_list, e.colors_list], [None, None, None]), "points": c.points_list, "both": [e.points_list, e.normals_list]}
''', rules=["no_failing_access"])
for bad, sp, call in (("map-type", MP, "U.downsample_pointclouds(pa, ix, 2)"), ("rows-type", MP, "U.downsample_pointclouds(m, [1], 2)"), ("rows-shape", MP + "; jx:i[6,3]", "U.downsample_pointclouds(m, jx, 2)"), ("ratio", MP, "U.downsample_pointclouds(m, ix, 2.0)"), ("frame-type", MP, "U.downsample_rgbdimages(m, 2)")):
    add("reject-downsample-" + bad, "P38", sp, "m = Pointclouds([pa, pb])\nreturn {'x': %s}" % call, dead=True)
add("reject-downsample-sequence", "P38", "rgb:f[2,2,4,5,3]; d:f[2,2,4,5,1]; K:f[2,1,4,4]; P:f[2,2,4,4]", "return {'x': U.downsample_rgbdimages(RGBDImages(rgb, d, K, P), 2)}", dead=True)
