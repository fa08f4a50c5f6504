"""Scenarios over the dataset helpers: text lists, association, label tables, numpy/torch utilities."""
from fractions import Fraction as F
PRE = '''
import numpy as np
import torch
from gradslam.datasets import datautils as U
from gradslam.datasets import tumutils as V
from gradslam.datasets import scannet as S
from collections import OrderedDict
'''
SC = []
def add(id, props, args, body, head="", **kw):
    names = [a.split(":")[0].strip() for a in args.split(";") if a.strip()]
    SC.append(dict(id=id, props=props.split(), args=args, src=PRE + head + "def main(%s):\n" % ", ".join(names) + "\n".join("    " + l for l in body.strip("\n").split("\n")), **kw))

# ================================================================ P29 association
def greedy(A, B, off, tol):
    """closest pairs first, every stamp at most once, time order"""
    c = sorted((abs(float(a) - (float(b) + off)), a, b) for a in A for b in B if abs(float(a) - (float(b) + off)) < tol)
    ua, ub, out = set(), set(), []
    for d, a, b in c:
        if a in ua or b in ub: continue
        ua.add(a); ub.add(b); out.append((a, b))
    return sorted(out, key=lambda m: float(m[0]))
# times are multiples of 1/64 so that the arithmetic is exact, and no two candidates tie
TABLES = {
    "plain": (["1.0", "2.0", "3.0"], ["1.015625", "2.015625", "3.03125"], 0.0, 0.25),
    "order": (["10.0", "9.0", "100.0", "2.5"], ["100.125", "2.25", "10.0625", "9.03125"], 0.0, 0.5),
    "tolerance": (["1.0", "2.0", "3.0"], ["1.25", "2.125", "3.5"], 0.0, 0.25),
    "conflict-second": (["1.0", "1.125"], ["1.09375"], 0.0, 0.5),
    "conflict-first": (["1.0"], ["1.25", "0.875"], 0.0, 0.5),
    "chain": (["1.0", "2.0", "3.0"], ["1.75", "2.625", "3.5"], 0.0, 1.0),
    "chain-back": (["3.0", "2.0", "1.0"], ["2.25", "1.375", "0.5"], 0.0, 1.0),
    "steal": (["1.0", "1.5"], ["1.46875", "2.0"], 0.0, 1.0),
    "offset": (["5.0", "6.0", "7.0"], ["1.0", "2.03125", "3.125"], 4.0, 0.125),
    "offset-negative": (["1.0", "2.0"], ["4.0", "5.0625", "6.0"], -3.0, 0.25),
    "offset-decides": (["1.0", "2.0"], ["1.0", "1.90625"], 0.25, 0.8125),
    "none": (["1.0"], ["9.0"], 0.0, 0.5), "empty": ([], ["9.0"], 0.0, 0.5),
    "unequal": (["1.0", "2.0", "3.0", "4.0", "5.0"], ["2.0625", "4.125"], 0.0, 0.5),
    "earlier": (["1.0", "2.0", "3.0"], ["0.9375", "1.96875", "2.75"], 0.0, 0.5),
    "written-differently": (["1.50", "2"], ["1.625", "2.0"], 0.0, 0.5),
    "dense": (["0.0", "0.25", "0.5", "0.75", "1.0"], ["0.109375", "0.28125", "0.640625", "0.734375", "1.0625"], 0.0, 0.25),
}
def no_ties(A, B, off, tol):
    c = [(abs(float(a) - (float(b) + off)), a, b) for a in A for b in B]
    c = [x for x in c if x[0] < tol]
    return not any(x[0] == y[0] and (x[1] == y[1]) != (x[2] == y[2]) for x in c for y in c)
for k, (A, B, off, tol) in TABLES.items():
    assert no_ties(A, B, off, tol), k
    add("associate-" + k, "P29 P28", "", '''
a = {%s}
b = {%s}
m = V.associate(a, b, %r, %r)
return {"=pairs": ([tuple(x) for x in m], %r), "=first": (list(a.keys()), %r), "=second": (list(b.keys()), %r)}
''' % (", ".join("%r: ['x']" % x for x in A), ", ".join("%r: ['y']" % x for x in B), off, tol, greedy(A, B, off, tol), A, B))
LIST = ["# color images", "# file", ["1.5", "rgb/1.5.png"], ["10.5", "rgb/10.5.png"], "# comment between", "2.5,rgb/2.5.png,extra", "3.5\trgb/3.5.png", "", "onlystamp", ["4.5", None], "6.5   rgb/6.5.png  "]
ROWS = [("1.5", ["rgb/1.5.png"]), ("10.5", ["rgb/10.5.png"]), ("2.5", ["rgb/2.5.png", "extra"]), ("3.5", ["rgb/3.5.png"]), ("onlystamp", None), ("4.5", [None]), ("6.5", ["rgb/6.5.png"])]
LFS = {"/l/rgb.txt": ("rows", LIST)}
for nm, a, b in (("all", None, None), ("start", 1, None), ("end", None, 3), ("range", 1, 6), ("both", 2, 4), ("beyond", 0, 50)):
    sel = [r for r in ROWS[(a or 0):b] if r[1] is not None]
    add("read-list-" + nm, "P29 P28", "", '''
d = V.read_file_list("/l/rgb.txt"%s)
w = open("/l/rgb.txt").readlines()[9].split()[1]
return {"=list": (list(d.items()), %s)}
''' % ("" if a is None and b is None else ", %r, %r" % (a, b), "[%s]" % ", ".join("(%r, [%s])" % (s, ", ".join("w" if x is None else repr(x) for x in v)) for s, v in sel)), fs=LFS)
TRAJ = ["# ground truth", "# timestamp tx ty tz qx qy qz qw", ["1.5", None, None, None, "0.5", "-0.5", "-0.5", "0.5"], "2.5 1 2 3 0 0 0 0", "12.5,4,5,6,0.5,0.5,0.5,0.5", "3.5\t7\t8\t9\t0\t0\t0\t1", "4.5 nan 2 3 0 0 0 1", "5.5 1 2 3 0 0 nan 1",
        ["6.5", None, "2", None, "0.5", "-0.5", "0.5", "0.5"], "", "7.5 0 0 0 0 0 0 1"]
TFS = {"/l/gt.txt": ("rows", TRAJ)}
add("read-trajectory-rows", "P29 P27 P37", "", '''
d = V.read_trajectory("/l/gt.txt", matrix=False)
L = open("/l/gt.txt").readlines()
a = [float(x) for x in L[2].split()[1:]]; b = [float(x) for x in L[8].split()[1:]]
return {"=stamps": (list(d.keys()), ["1.5", "12.5", "3.5", "6.5", "7.5"]), "=rows": (list(d.values()), [a, [4.0, 5.0, 6.0, 0.5, 0.5, 0.5, 0.5], [7.0, 8.0, 9.0, 0.0, 0.0, 0.0, 1.0], b, [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0]])}
''', fs=TFS)
QM = '''
def quat(v):
    """rigid transform of a row tx ty tz qx qy qz qw, scalar last"""
    x, y, z, w = v[3], v[4], v[5], v[6]
    n = x * x + y * y + z * z + w * w
    return np.array([[1 - 2 * (y * y + z * z) / n, 2 * (x * y - z * w) / n, 2 * (x * z + y * w) / n, v[0]],
                     [2 * (x * y + z * w) / n, 1 - 2 * (x * x + z * z) / n, 2 * (y * z - x * w) / n, v[1]],
                     [2 * (x * z - y * w) / n, 2 * (y * z + x * w) / n, 1 - 2 * (x * x + y * y) / n, v[2]],
                     [0.0, 0.0, 0.0, 1.0]])
'''
add("read-trajectory-matrix", "P29 P27 P37", "", '''
d = V.read_trajectory("/l/gt.txt")
L = open("/l/gt.txt").readlines()
a = [float(x) for x in L[2].split()[1:]]
return {"=stamps": (list(d.keys()), ["1.5", "12.5", "3.5", "6.5", "7.5"]), "=first": (d["1.5"], quat(a)), "=second": (d["12.5"], quat([4.0, 5.0, 6.0, 0.5, 0.5, 0.5, 0.5])), "=third": (d["3.5"], quat([7.0, 8.0, 9.0, 0.0, 0.0, 0.0, 1.0]))}
''', head=QM, fs=TFS)
add("transform44", "P37", "t:float;a:float;b:float;c:float;x:float;y:float;z:float;w:float", '''
r = V.transform44((t, a, b, c, x, y, z, w))
return {"=rotation": (r, quat([a, b, c, x, y, z, w]) if not x * x + y * y + z * z + w * w < V._EPS else quat([a, b, c, 0.0, 0.0, 0.0, 1.0])), "=shape": (r.shape, (4, 4)), "=identity": (V.transform44((t, a, b, c, 0.0, 0.0, 0.0, 0.0)), np.array([[1.0, 0.0, 0.0, a], [0.0, 1.0, 0.0, b], [0.0, 0.0, 1.0, c], [0.0, 0.0, 0.0, 1.0]]))}
''', head=QM)

# ================================================================ P30 label tables
NYU40 = ["unlabeled", "wall", "floor", "cabinet", "bed", "chair", "sofa", "table", "door", "window", "bookshelf", "picture", "counter", "blinds", "desk", "shelves", "curtain", "dresser", "pillow", "mirror", "floormat", "clothes", "ceiling", "books", "refrigerator", "television",
         "paper", "towel", "showercurtain", "box", "whiteboard", "person", "nightstand", "toilet", "sink", "lamp", "bathtub", "bag", "otherstructure", "otherfurniture", "otherprop"]
SCN20 = ["unlabeled", "wall", "floor", "cabinet", "bed", "chair", "sofa", "table", "door", "window", "bookshelf", "picture", "counter", "desk", "curtain", "refrigerator", "showercurtain", "toilet", "sink", "bathtub", "otherfurniture"]
MAP = [SCN20.index(n) if n in SCN20 else 0 for n in NYU40]
add("labels-classes", "P30", "", '''
a = S.get_color_encoding("nyu40"); b = S.get_color_encoding("scannet20")
return {"=nyu40": (list(a.keys()), %r), "=scannet20": (list(b.keys()), %r), "=shared": ([a[k] for k in b], [b[k] for k in b]), "=distinct": (len(set(a.values())), len(a)), "=distinct20": (len(set(b.values())), len(b)),
        "=triples": (all([len(c) == 3 and all([0 <= x <= 255 for x in c]) for c in list(a.values()) + list(b.values())]), True), "=case": (S.get_color_encoding("NYU40"), a), "=case20": (S.get_color_encoding("ScanNet20"), b)}
''' % (NYU40, SCN20))
for nm, arr in (("up", list(range(41))), ("down", list(range(40, -1, -1))), ("pairs", [x for k in range(41) for x in (k, MAP[k])])):
    add("labels-remap-" + nm, "P30", "", '''
r = S.nyu40_to_scannet20(np.array(%r))
return {"=labels": ([int(r[i]) for i in range(%d)], %r)}
''' % (arr, len(arr), [MAP[k] for k in arr]))
add("labels-remap-image", "P30 P34", "", '''
x = np.array(%r)
r = S.nyu40_to_scannet20(x)
return {"=labels": ([[int(r[i, j]) for j in range(3)] for i in range(3)], %r), "=input": ([[int(x[i, j]) for j in range(3)] for i in range(3)], %r)}
''' % ([[14, 13, 39], [40, 16, 28], [33, 34, 36]], [[MAP[k] for k in r] for r in [[14, 13, 39], [40, 16, 28], [33, 34, 36]]], [[14, 13, 39], [40, 16, 28], [33, 34, 36]]))
add("labels-remap-any", "P30", "x:n[h,w]", '''
r = S.nyu40_to_scannet20(x)
want = x
for k, v in enumerate(%r):
    want = np.where(x == k, v, want)
return {"=labels": (r, want), "=shape": (r.shape, x.shape)}
''' % MAP)
add("labels-paint", "P30", "x:n[h,w]", '''
p = OrderedDict([("none", (0, 0, 0)), ("a", (10, 20, 30)), ("b", (1, 2, 3)), ("c", (7, 7, 9))])
r = U.create_label_image(x, p)
want = np.zeros((x.shape[0], x.shape[1], 3))
for k, c in enumerate([(0, 0, 0), (10, 20, 30), (1, 2, 3), (7, 7, 9)]):
    want = np.where(np.expand_dims(x, -1) == k, np.array(c), want)
return {"=image": (r, want), "=shape": (r.shape, (x.shape[0], x.shape[1], 3))}
''')
# ================================================================ P36, P34 conversions
for s in ("h,w,c", "b,h,w,c", "a,b,h,w,c"):
    n = s.count(",") + 1; ax = "(%s)" % ", ".join(map(str, list(range(n - 3)) + [n - 1, n - 3, n - 2]))
    for t, q in (("f", "torch"), ("n", "numpy")):
        add("channels-first-%s-%d" % (q, n), "P36 P34", "x:%s[%s]" % (t, s), 'y = U.channels_first(x)\nreturn {"=image": (y, x.%s), "=shape": (y.shape, tuple([x.shape[k] for k in %s]))}' % ("permute" + ax if t == "f" else "transpose" + ax, ax))
        add("normalize-image-%s-%d" % (q, n), "P36 P34", "x:%s[%s]" % (t, s), 'y = U.normalize_image(x)\nreturn {"=image": (y, x / 255), "=shape": (y.shape, x.shape)}')
for s in ("3,3", "4,4", "b,3,3", "b,l,4,4"):
    for t, q in (("f", "torch"), ("n", "numpy")):
        add("scale-intrinsics-%s-%s" % (q, s.replace(",", "x")), "P36 P34", "k:%s[%s];a:float;b:float" % (t, s), '''
y = U.scale_intrinsics(k, a, b)
%s
return {"=fx": (y[..., 0, 0], k[..., 0, 0] * b), "=cx": (y[..., 0, 2], k[..., 0, 2] * b), "=fy": (y[..., 1, 1], k[..., 1, 1] * a), "=cy": (y[..., 1, 2], k[..., 1, 2] * a), "=skew": (y[..., 0, 1], k[..., 0, 1]), "=zero": (y[..., 1, 0], k[..., 1, 0]),
        "=last": (y[..., 2, :], k[..., 2, :]), "=shape": (y.shape, k.shape)%s}
''' % ("", ', "=rest": (y[..., :2, 3:], k[..., :2, 3:])' if s.endswith("4,4") else ""))
for nm, c in (("list", "U.channels_first([1, 2])"), ("flat", "U.channels_first(x)"), ("norm", "U.normalize_image([1.0])"), ("kshape", "U.scale_intrinsics(x, 1.0, 1.0)"), ("klist", "U.scale_intrinsics([[1.0]], 1.0, 1.0)"), ("pq", "U.pointquaternion_to_homogeneous(x)"), ("pqlist", "U.pointquaternion_to_homogeneous([0.0] * 7)"), ("pqeps", "U.pointquaternion_to_homogeneous(y, 1)")):
    add("datautils-reject-" + nm, "P36" if not nm.startswith("pq") else "P37", "x:f[5,6];y:f[5,7]", "return {'x': %s}" % c, dead=True)
for s in ("7", "n,7", "b,n,7"):
    for t, q in (("f", "torch"), ("n", "numpy")):
        add("pointquaternion-%s-%d" % (q, s.count(",") + 1), "P37 P16 P34 P35 P15", "v:%s[%s]" % (t, s), '''
r = U.pointquaternion_to_homogeneous(v)
x = v[..., 3]; y = v[..., 4]; z = v[..., 5]; w = v[..., 6]
n = (0.5 * (x * x + y * y + z * z + w * w)) ** 0.5
m = 1 / %s
x = x * m; y = y * m; z = z * m; w = w * m
return {"=r00": (r[..., 0, 0], 1 - (y * y + z * z)), "=r01": (r[..., 0, 1], x * y - z * w), "=r02": (r[..., 0, 2], x * z + y * w), "=r10": (r[..., 1, 0], x * y + z * w), "=r11": (r[..., 1, 1], 1 - (x * x + z * z)), "=r12": (r[..., 1, 2], y * z - x * w),
        "=r20": (r[..., 2, 0], x * z - y * w), "=r21": (r[..., 2, 1], y * z + x * w), "=r22": (r[..., 2, 2], 1 - (x * x + y * y)), "=t": (r[..., :3, 3], v[..., :3]), "=bottom": ([v[..., 0] + r[..., 3, k] for k in range(4)], [v[..., 0], v[..., 0], v[..., 0], v[..., 0] + 1]), "=shape": (r.shape, v.shape[:-1] + (4, 4))}
''' % ("torch.clamp(n, min=1e-12)" if t == "f" else "np.maximum(n, 1e-12)"))
add("poses-to-transforms", "P27 P34", "a:n[4,4];b:n[4,4];c:n[4,4]", '''
p = [a, b, c]
r = U.poses_to_transforms(p)
return {"=transforms": (list(r), [np.eye(4), np.linalg.inv(a).dot(b), np.linalg.inv(b).dot(c)]), "=input": (p, [a, b, c])}
''')
add("poses-to-transforms-array", "P27 P34", "a:n[3,4,4]", '''
r = U.poses_to_transforms(a)
return {"=transforms": (r, np.stack([np.eye(4), np.linalg.inv(a[0]).dot(a[1]), np.linalg.inv(a[1]).dot(a[2])], 0))}
''')
