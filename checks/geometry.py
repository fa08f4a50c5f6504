"""Scenarios over the geometry helpers: exponential map, rigid transforms, pinhole model, quaternions."""
from sa.drive import split_top
PRE = '''
import torch
import gradslam
from gradslam.geometry import geometryutils as G
from gradslam.geometry import projutils as J
from gradslam.geometry import se3utils as S
def cols(r): return torch.stack(r, -1)
def mat(rows): return torch.stack([torch.stack(r, -1) for r in rows], -2)
'''
SC = []
def add(id, props, args, body, pure=True, **kw):
    parts = split_top(args, ";")
    names = [a.split(":")[0].strip() for a in parts]
    tens = [n for n, a in zip(names, parts) if a.split(":")[1].strip()[:1] in "fib" and "[" in a]
    pure = pure and not kw.get("dead") and tens
    src = PRE
    if pure:
        src += "def main(%s):\n    keep_ = [v.clone() for v in [%s]]\n    out_ = body(%s)\n    out_['=inputs'] = ([%s], keep_)\n    return out_\n" % (", ".join(names), ", ".join(tens), ", ".join(names), ", ".join(tens))
        kw.setdefault("labels", {})["=inputs"] = ["P34"]
    src += "def %s(%s):\n" % ("body" if pure else "main", ", ".join(names)) + "\n".join("    " + l for l in body.strip("\n").split("\n"))
    SC.append(dict(id=id, props=props.split() + (["P34"] if pure else []), args=args, src=src, **kw))
R = {}
# ---------------------------------------------------------------- P22 hats and exponentials
add("so3-hat", "P22 P35 P15", "w:f[3]", '''
z = torch.zeros_like(w[0])
h = S.so3_hat(w)
return {"hat": h, "=skew": (h, mat([[z, -w[2], w[1]], [w[2], z, -w[0]], [-w[1], w[0], z]])), "=meta": ([h.dtype, h.device], [w.dtype, w.device])}
''', **R)
add("so3-hat-column", "P22", "w:f[3,1]", 'return {"=hat": (S.so3_hat(w), S.so3_hat(w[:, 0]))}')
add("se3-hat", "P22 P35 P15", "x:f[6]", '''
z = torch.zeros_like(x[0])
h = S.se3_hat(x)
return {"hat": h, "=hat": (h, mat([[z, -x[5], x[4], x[0]], [x[5], z, -x[3], x[1]], [-x[4], x[3], z, x[2]], [z, z, z, z]])), "=meta": ([h.dtype, h.device], [x.dtype, x.device])}
''', **R)
add("so3-exp", "P22 P35 P16 P15", "w:f[3]", '''
h = S.so3_hat(w); I = torch.eye(3, dtype=w.dtype, device=w.device); t = w.norm()
e = S.so3_exp(w)
return {"exp": e, "=rodrigues": (e, (I + h) if t < S._eps else I + t.sin() / t * h + (1 - t.cos()) / t ** 2 * (h @ h)), "=meta": ([e.dtype, e.device, e.shape], [w.dtype, w.device, (3, 3)])}
''', **R)
for nm, sp, v in (("vector", "x:f[6]", "x"), ("column", "x:f[6,1]", "x[:, 0]")):
    add("se3-exp-" + nm, "P22 P35 P16 P15 P18", sp, '''
c = %s
w = c[3:]; v = c[:3]
h = S.so3_hat(w); I = torch.eye(3, dtype=x.dtype, device=x.device); t = w.norm()
hh = h @ h
if t < S._eps:
    R = I + h; V = I + h
else:
    R = I + t.sin() / t * h + (1 - t.cos()) / t ** 2 * hh
    V = I + (1 - t.cos()) / t ** 2 * h + (t - t.sin()) / t ** 3 * hh
e = S.se3_exp(x)
o = torch.ones_like(t); z = torch.zeros_like(t)
return {"exp": e, "=rotation": (e[:3, :3], R), "=translation": (e[:3, 3], V @ v), "=last": (e[3], torch.stack([z, z, z, o])), "=meta": ([e.dtype, e.device, e.shape], [x.dtype, x.device, (4, 4)])}
''' % v, **R)
add("se3-exp-zero", "P22", "v:f[3]", '''
x = torch.cat([v, torch.zeros_like(v)])
e = S.se3_exp(x); I = torch.eye(3, dtype=v.dtype, device=v.device)
z = torch.zeros_like(v[0]); o = torch.ones_like(z)
return {"=pure": (e, torch.cat([torch.cat([I, v[:, None]], 1), torch.stack([z, z, z, o])[None]], 0)), "=so3": (S.so3_exp(torch.zeros_like(v)), I)}
''')
# ---------------------------------------------------------------- P23 inverse, composition, relative
for nm, s in (("single", "[4,4]"), ("batch", "[2,4,4]")):
    add("inverse-" + nm, "P23 P35 P15", "a:f" + s, '''
Rt = a[..., :3, :3].transpose(-1, -2); i = G.inverse_transfom_3d(a)
z = torch.zeros_like(a[..., 0, 0]); o = torch.ones_like(z)
return {"inv": i, "=rotation": (i[..., :3, :3], Rt), "=translation": (i[..., :3, 3], -(Rt @ a[..., :3, 3:])[..., 0]), "=last": (i[..., 3, :], cols([z, z, z, o]))}
''', **R)
    add("compose-" + nm, "P23 P35 P15", "a:f%s; b:f%s" % (s, s), '''
c = G.compose_transforms_3d(a, b)
z = torch.zeros_like(a[..., 0, 0]); o = torch.ones_like(z)
return {"c": c, "=rotation": (c[..., :3, :3], a[..., :3, :3] @ b[..., :3, :3]), "=translation": (c[..., :3, 3], (a[..., :3, :3] @ b[..., :3, 3:])[..., 0] + a[..., :3, 3]), "=last": (c[..., 3, :], cols([z, z, z, o]))}
''', **R)
    add("relative-" + nm, "P23 P15", "a:f%s; b:f%s" % (s, s), '''
c = G.relative_transform_3d(a, b)
r = G.relative_transformation(a, b, orthogonal_rotations=True)
g = G.relative_transformation(a, b)
i = torch.inverse(a); z = torch.zeros_like(a[..., 0, 0]); o = torch.ones_like(z)
return {"c": c, "g": g, "=inv": (c, G.compose_transforms_3d(G.inverse_transfom_3d(a), b)), "=twins": (r, c),
        "=general-rotation": (g[..., :3, :3], i[..., :3, :3] @ b[..., :3, :3]), "=general-translation": (g[..., :3, 3:], i[..., :3, :3] @ b[..., :3, 3:] + i[..., :3, 3:]), "=last": (g[..., 3, :], cols([z, z, z, o]))}
''', **R)
    add("identity-" + nm, "P23", "a:f" + s, '''
I = torch.eye(4, dtype=a.dtype, device=a.device)
if a.dim() == 3: I = I.repeat(2, 1, 1)
b = torch.cat([a[..., :3, :], I[..., 3:, :]], -2)
return {"=left": (G.compose_transforms_3d(I, b), b), "=right": (G.compose_transforms_3d(b, I), b), "=inverse": (G.inverse_transfom_3d(I), I), "=relative": (G.relative_transform_3d(I, b), b)}
''')
for nm, call in (("inverse-wide", "G.inverse_transfom_3d(a)"), ("relative-wide", "G.relative_transformation(a, a)"), ("compose-wide", "G.compose_transforms_3d(a, a)")):
    for s in ("[4,3]", "[3,4]", "[4]", "[2,3,4,4]", "[3,3]", "[2,4,3]"):
        add("reject-%s-%s" % (nm, s), "P23 P38", "a:f" + s, "return {'x': %s}" % call, dead=True)
add("reject-relative-ranks", "P23", "a:f[4,4]; b:f[2,4,4]", "return {'x': G.relative_transformation(a, b)}", dead=True)
add("reject-compose-shapes", "P23", "a:f[4,4]; b:f[2,4,4]", "return {'x': G.compose_transforms_3d(a, b)}", dead=True)
add("reject-compose-batches", "P23 P38", "a:f[1,4,4]; b:f[3,4,4]", "return {'x': G.compose_transforms_3d(a, b)}", dead=True)
add("reject-compose-counts", "P23 P38", "a:f[3,4,4]; b:f[2,4,4]", "return {'x': G.compose_transforms_3d(a, b)}", dead=True)
add("reject-relative-second", "P23", "a:f[4,4]; b:f[4,3]", "return {'x': G.relative_transformation(a, b)}", dead=True)
# ---------------------------------------------------------------- P07/P23 applying transforms
for nm, n in (("apply-cloud", 5), ("apply-cloud-3", 3), ("apply-cloud-1", 1)):
  add(nm, "P07 P23 P15", "p:f[%d,3]; T:f[4,4]" % n, '''
q = G.transform_pointcloud(p, T); n = G.transform_normals(p, T)
return {"q": q, "=points": (q, p @ T[:3, :3].t() + T[:3, 3]), "=normals": (n, p @ T[:3, :3].t())}
''', **R)
for s in ("[5,3]", "[2,5,3]", "[2,4,5,3]"):
    add("apply-pts-" + s, "P23 P24 P16 P15", "p:f%s; T:f[4,4]" % s, '''
q = G.transform_pts_3d(p, T)
h = G.homogenize_points(p) @ T.t()
return {"q": q, "=points": (q, G.unhomogenize_points(h)), "=homogeneous": (G.transform_pts_3d(G.homogenize_points(p), T), q)}
''', **R)
add("apply-KF", "P23 P24 P16 P15", "p:f[2,5,3]; T:f[2,4,4]", '''
q = G.transform_pts_nd_KF(p, T)
return {"q": q, "=each": ([q[0], q[1]], [G.transform_pts_3d(p[0], T[0]), G.transform_pts_3d(p[1], T[1])])}
''', **R)
for nm, call, sh in (("cloud", "G.transform_pointcloud(p, T)", "p:f[5,4]; T:f[4,4]"), ("cloud-rank", "G.transform_pointcloud(p, T)", "p:f[2,5,3]; T:f[4,4]"), ("cloud-T", "G.transform_pointcloud(p, T)", "p:f[5,3]; T:f[3,4]"),
                     ("normals", "G.transform_normals(p, T)", "p:f[5,2]; T:f[4,4]"), ("normals-T", "G.transform_normals(p, T)", "p:f[5,3]; T:f[3,3]"), ("pts-T", "G.transform_pts_3d(p, T)", "p:f[5,3]; T:f[3,4]"), ("pts-batchT", "G.transform_pts_3d(p, T)", "p:f[5,3]; T:f[2,4,4]"), ("KF-batch", "G.transform_pts_nd_KF(p, T)", "p:f[2,5,3]; T:f[3,4,4]")):
    add("reject-apply-" + nm, "P23 P38", sh, "return {'x': %s}" % call, dead=True)
# ---------------------------------------------------------------- P24 pinhole model
for s in ("[5,3]", "[2,5,3]", "[2,4,5,2]"):
    add("homogenize-" + s, "P24 P16 P15", "p:f" + s, '''
h = J.homogenize_points(p)
w = torch.where(torch.abs(p[..., -1:]) > 1e-6, p[..., -1:], torch.ones_like(p[..., -1:]))
return {"h": h, "=one": (h, torch.cat([p, torch.ones_like(p[..., :1])], -1)), "=back": (J.unhomogenize_points(h), p), "=divide": (J.unhomogenize_points(p), p[..., :-1] / w), "=twins": ([G.homogenize_points(p), G.unhomogenize_points(p)], [h, J.unhomogenize_points(p)])}
''', **R)
for nm, ps, Ms in (("flat", "[5,3]", "[4,4]"), ("shared", "[2,5,3]", "[4,4]"), ("batch", "[2,5,3]", "[2,4,4]"), ("shared4", "[2,3,5,3]", "[4,4]"), ("homog", "[2,5,4]", "[2,4,4]"), ("batch4", "[2,3,5,3]", "[2,3,4,4]"), ("flathom", "[5,4]", "[4,4]")):
    # a projection matrix of the batch applies to every point of its own batch entry
    add("project-" + nm, "P24 P16 P15", "p:f%s; M:f%s" % (ps, Ms), '''
h = p if p.shape[-1] == 4 else torch.cat([p, torch.ones_like(p[..., :1])], -1)
c = h @ M.transpose(-1, -2)
z = torch.where(c[..., 2] != 0, c[..., 2], torch.ones_like(c[..., 2]))
uv = J.project_points(p, M)
return {"uv": uv, "=uv": (uv, cols([c[..., 0] / z, c[..., 1] / z]))}
''', **R)
add("project-twins", "P24", "p:f[2,5,3]; M:f[4,4]; N:f[2,4,4]", '''
a = torch.cat([M[:3], torch.tensor([[0., 0., 0., 1.]], dtype=M.dtype, device=M.device)])
b = torch.stack([torch.cat([m[:3], torch.tensor([[0., 0., 0., 1.]], dtype=M.dtype, device=M.device)]) for m in (N[0], N[1])])
return {"=cam2pixel": (G.cam2pixel(p, a), J.project_points(p, a)), "=KF": (G.cam2pixel_KF(p, b), J.project_points(p, b))}
''')
for s in ("[2,5,3]", "[2,4,5,3]"):
    add("cam2pixel-" + s, "P24 P16 P15", "p:f%s; M:f[4,4]; N:f[2,4,4]" % s, '''
return {"a": G.cam2pixel(p, M)}
''', **R)
add("cam2pixel-KF", "P24 P16 P15", "p:f[2,5,3]; N:f[2,4,4]", 'return {"a": G.cam2pixel_KF(p, N)}', **R)
for nm, ps, Ks in (("flat", "[5,2]", "[3,3]"), ("shared", "[2,5,2]", "[3,3]"), ("batch", "[2,5,2]", "[2,3,3]"), ("homog", "[2,5,3]", "[2,3,3]"), ("grid", "[2,4,5,2]", "[3,3]"), ("batch4", "[2,4,5,2]", "[2,4,3,3]")):
    add("unproject-" + nm, "P24 P15", "p:f%s; Ki:f%s; d:f[%s]" % (ps, Ks, ps[1:-3]), '''
h = p if p.shape[-1] == 3 else torch.cat([p, torch.ones_like(p[..., :1])], -1)
q = J.unproject_points(p, Ki, d)
return {"q": q, "=q": (q, (h @ Ki.transpose(-1, -2)) * d[..., None])}
''', **R)
for nm, h, w in (("pixel2cam", 4, 5), ("pixel2cam-square", 3, 3), ("pixel2cam-flat", 1, 4)):
  add(nm, "P24 P15 P16", "d:f[2,1,%d,%d]; Ki:f[4,4]; p:f[2,%d,%d,3]" % (h, w, h, w), '''
q = G.pixel2cam(d, Ki, p)
return {"q": q, "=q": (q, G.transform_pts_3d(p, Ki) * d[:, 0, :, :, None])}
''', **R)
for s in ("[3,3]", "[4,4]", "[2,3,3]", "[2,1,4,4]"):
    add("inverse-intrinsics-" + s, "P24 P35 P15 P16", "K:f" + s, '''
i = J.inverse_intrinsics(K)
fx = K[..., 0, 0] + 1e-6; fy = K[..., 1, 1] + 1e-6; cx = K[..., 0, 2]; cy = K[..., 1, 2]
z = torch.zeros_like(fx); o = torch.ones_like(fx)
rows = [[1 / fx, z, -cx / fx], [z, 1 / fy, -cy / fy], [z, z, o]]
if K.shape[-1] == 4: rows = [r + [z] for r in rows] + [[z, z, z, o]]
return {"i": i, "=entries": (i, mat(rows)), "=meta": ([i.dtype, i.device, i.shape], [K.dtype, K.device, K.shape]), "=eps": (J.inverse_intrinsics(K, eps=0.5)[..., 0, 0], 1 / (K[..., 0, 0] + 0.5))}
''', **R)
add("meshgrid", "P24", "x:any", '''
g = gradslam.geometry.geometryutils.create_meshgrid(3, 4, normalized_coords=False)
r = torch.linspace(0, 2, 3); c = torch.linspace(0, 3, 4)
return {"g": g, "n": G.create_meshgrid(3, 4), "=rows": (g[..., 0], r[None, :, None].expand(1, 3, 4)), "=cols": (g[..., 1], c[None, None, :].expand(1, 3, 4))}
''')
add("normalize-pixels", "P24 P35 P15", "p:f[2,5,2]", '''
n = G.normalize_pixel_coords(p, 7, 9)
return {"n": n, "u": G.unnormalize_pixel_coords(p, 7, 9), "=axes": (n, cols([p[..., 0] * 2.0 / 6 - 1, p[..., 1] * 2.0 / 8 - 1])), "=unaxes": (G.unnormalize_pixel_coords(p, 7, 9), cols([(p[..., 0] + 1) * 3.0, (p[..., 1] + 1) * 4.0]))}
''', **R)
for nm, call, sh in (("project-width", "J.project_points(p, M)", "p:f[5,2]; M:f[4,4]"), ("project-M", "J.project_points(p, M)", "p:f[5,3]; M:f[3,4]"), ("project-rank", "J.project_points(p, M)", "p:f[5,3]; M:f[2,4,4]"), ("project-batch", "J.project_points(p, M)", "p:f[2,5,3]; M:f[3,4,4]"),
                     ("unproject-width", "J.unproject_points(p, M, p[..., 0])", "p:f[5,4]; M:f[3,3]"), ("unproject-K", "J.unproject_points(p, M, p[..., 0])", "p:f[5,2]; M:f[4,4]"), ("unproject-batch", "J.unproject_points(p, M, p[..., 0])", "p:f[2,5,2]; M:f[3,3,3]"), ("unproject-depth", "J.unproject_points(p, M, p)", "p:f[2,5,2]; M:f[2,3,3]"), ("intrinsics", "J.inverse_intrinsics(M)", "p:f[1]; M:f[3,4]"), ("homogenize-rank", "J.homogenize_points(p)", "p:f[3]; M:f[1]"), ("normalize-width", "G.normalize_pixel_coords(p, 3, 4)", "p:f[5,3]; M:f[1]")):
    add("reject-" + nm, "P24 P38", sh, "return {'x': %s}" % call, dead=True)
# ---------------------------------------------------------------- P37 quaternions
QM = '''
m = q.norm(dim=-1, keepdim=True)
n = torch.nn.functional.normalize(q, p=2, dim=-1, eps=1e-12)
x = n[..., 0]; y = n[..., 1]; z = n[..., 2]; w = n[..., 3]
want = mat([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)], [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])
'''
for s in ("[4]", "[5,4]", "[2,5,4]", "[1,4]"):
    add("quaternion-" + s, "P37 P15 P16 P35", "q:f" + s, QM + '''
r = G.quaternion_to_rotation_matrix(q)
return {"r": r, "=matrix": (r, want), "=shape": (r.shape, q.shape[:-1] + (3, 3)), "=normalized": (G.normalize_quaternion(q), n), "scaled": G.quaternion_to_rotation_matrix(3 * q)}
''', **R)
    add("axisangle-" + s, "P37 P15 P16", "q:f" + s, 'return {"a": G.quaternion_to_axisangle(q), "=shape": (G.quaternion_to_axisangle(q).shape, q.shape[:-1] + (3,))}', **R)
for nm, call in (("matrix", "G.quaternion_to_rotation_matrix(q)"), ("normalize", "G.normalize_quaternion(q)"), ("axisangle", "G.quaternion_to_axisangle(q)")):
    add("reject-quaternion-" + nm, "P37 P38", "q:f[5,3]", "return {'x': %s}" % call, dead=True)
