"""Scenarios over the data loaders, on virtual directories: known listings and file names, unknown numbers and images."""
from fractions import Fraction
PRE = '''
import os
import cv2
import imageio
import numpy as np
import torch
from gradslam.datasets import ICL, TUM, Scannet
from gradslam.datasets import datautils as U
from gradslam.datasets import tumutils as V
from gradslam.geometry.geometryutils import relative_transformation
from collections import OrderedDict
def color(p, w, h, norm=False):
    c = torch.from_numpy(cv2.resize(np.asarray(imageio.imread(p), dtype=float), (w, h), interpolation=cv2.INTER_LINEAR)).float()
    return c / 255 if norm else c
def depth(p, w, h, s):
    d = torch.from_numpy(cv2.resize(np.asarray(imageio.imread(p), dtype=np.int64).astype(float), (w, h), interpolation=cv2.INTER_NEAREST)).float()
    return d.unsqueeze(-1) / s
def rel(ps, orth=False):
    p = torch.stack(ps, 0).float()
    return relative_transformation(p[0].unsqueeze(0).repeat(len(ps), 1, 1), p, orthogonal_rotations=orth)
def steps(ps):
    return torch.stack([torch.eye(4)] + [torch.inverse(ps[i - 1]).matmul(ps[i]) for i in range(1, len(ps))], 0).float()
'''
SC = []
def add(id, props, args, body, head="", **kw):
    names = [a.split(":")[0].strip() for a in args.split(";") if a.strip()]
    SC.append(dict(id=id, props=props.split(), args=args, src=PRE + head + "def main(%s):\n" % ", ".join(names) + "\n".join("    " + l for l in body.strip("\n").split("\n")), **kw))

def windows(n, seqlen, dilation, stride):
    """frame indices of every clip of a run of n frames"""
    span = [i * (dilation + 1) for i in range(seqlen)]
    return [[s + i for i in span] for s in range(0, n, stride) if s + span[-1] < n]

IM = [("/rgb/", ("H0", "W0", 3)), ("/color/", ("H0", "W0", 3)), ("/depth/", ("H0", "W0")), ("/label-filt/", ("H0", "W0"))]
# ================================================================ ICL
ICLDIR = "/data/icl"
def traj(k): return "living_room_traj%d_frei_png" % k
def icl_fs(counts, listing=None):
    fs = {"*images": IM, ICLDIR: listing or ["readme.txt"] + [traj(k) for k in sorted(counts, key=lambda k: (k * 7 + 3) % 5)] + ["extras"], ICLDIR + "/readme.txt": ("text", "x"), ICLDIR + "/extras": []}
    for k, n in counts.items():
        d = ICLDIR + "/" + traj(k)
        fs[d] = ["rgb", "depth", "associations.txt"]
        fs[d + "/associations.txt"] = ("rows", [[str(i), "depth/%d.png" % i, str(i), "rgb/%d.png" % i] for i in range(n)])
        rows = []
        for i in range(n - (k == 0)): rows += [[None] * 4, [None] * 4, [None] * 4, ""]
        fs[d + "/livingRoom%dn.gt.sim" % k] = ("rows", rows)
    fs["/data/names.txt"] = ("text", traj(2) + "\n" + traj(0))
    return fs
ICLFS = icl_fs({0: 7, 1: 6, 2: 9})
ICLHEAD = '''
def pose(k, i):
    L = open("/data/icl/living_room_traj{}_frei_png/livingRoom{}n.gt.sim".format(k, k)).readlines()
    return torch.from_numpy(np.array([[float(v) for v in L[4 * i + r].split()] for r in range(3)] + [[0.0, 0.0, 0.0, 1.0]], dtype=np.float32))
def rgb(k, i): return "/data/icl/living_room_traj{}_frei_png/rgb/{}.png".format(k, i)
def dep(k, i): return "/data/icl/living_room_traj{}_frei_png/depth/{}.png".format(k, i)
def nam(k, i): return "living_room_traj{}_frei_png/{}".format(k, i)
'''
def icl_clips(counts, seqlen=4, dilation=None, stride=None, start=None, end=None, only=None):
    """(trajectory, frame indices) of every clip, from the documented meaning of the arguments"""
    dilation = dilation or 0; stride = stride if stride is not None else seqlen * (dilation + 1); start = start or 0
    out = []
    for k in sorted(counts):
        if only is not None and k not in only: continue
        n = counts[k] - (k == 0)
        m = n if end is None else min(end, n)
        out += [(k, [start + i for i in w]) for w in windows(max(0, m - start), seqlen, dilation, stride)]
    return out
def call(d): return "".join(", %s=%r" % kv for kv in d.items())
WINDOWS = [dict(), dict(seqlen=2), dict(seqlen=2, dilation=1), dict(seqlen=2, stride=1), dict(seqlen=3, dilation=1), dict(seqlen=2, dilation=2, stride=3), dict(seqlen=2, start=1), dict(seqlen=3, start=2, end=7, stride=1), dict(seqlen=2, dilation=1, stride=2, start=1, end=6),
           dict(seqlen=1), dict(seqlen=1, stride=2, start=3), dict(seqlen=2, dilation=3, stride=1, end=6), dict(seqlen=2, end=50)]
def tag(d): return "-".join("%s%s" % (k[:2], v) for k, v in d.items()) or "default"
for w in WINDOWS:
    counts = {0: 7, 1: 6, 2: 9}
    cl = icl_clips(counts, **w)
    if not cl: continue
    add("icl-clips-" + tag(w), "P25 P28", "", '''
d = ICL("/data/icl"%s)
return {"=color": (d.colorfiles, %r), "=depth": (d.depthfiles, %r), "=names": (d.framenames, %r), "=poses": ([m["line_nums"] for m in d.posemetas], %r), "=posefile": ([m["file"] for m in d.posemetas], %r), "=len": (len(d), %d)}
''' % (call(w), [[ICLDIR + "/" + traj(k) + "/rgb/%d.png" % i for i in f] for k, f in cl], [[ICLDIR + "/" + traj(k) + "/depth/%d.png" % i for i in f] for k, f in cl],
       [", ".join(traj(k) + "/%d" % i for i in f) for k, f in cl], [[4 * i for i in f] for k, f in cl], [ICLDIR + "/" + traj(k) + "/livingRoom%dn.gt.sim" % k for k, f in cl], len(cl)), fs=ICLFS)
    for j in sorted({0, len(cl) // 2, len(cl) - 1}):
        k, f = cl[j]
        add("icl-item-%s-%d" % (tag(w), j), "P25 P27", "", '''
d = ICL("/data/icl", height=480, width=640%s)
it = d[%d]
F = %r
return {"=color": (it[0], torch.stack([color(rgb(%d, i), 640, 480) for i in F], 0)), "=depth": (it[1], torch.stack([depth(dep(%d, i), 640, 480, 5000.0) for i in F], 0)), "=pose": (it[3], rel([pose(%d, i) for i in F], False)),
        "=transform": (it[4], steps([pose(%d, i) for i in F])), "=names": (it[5], ", ".join([nam(%d, i) for i in F]))}
''' % (call(w), j, f, k, k, k, k, k), head=ICLHEAD, fs=ICLFS)
for nm, tr, only in (("tuple", (traj(2), traj(1)), [1, 2]), ("one", (traj(1),), [1]), ("file", "/data/names.txt", [0, 2]), ("all", None, None)):
    cl = icl_clips({0: 7, 1: 6, 2: 9}, seqlen=2, only=only)
    add("icl-select-" + nm, "P25 P28", "", '''
d = ICL("/data/icl", trajectories=%r, seqlen=2)
return {"=color": (d.colorfiles, %r), "=names": (d.framenames, %r)}
''' % (tr, [[ICLDIR + "/" + traj(k) + "/rgb/%d.png" % i for i in f] for k, f in cl], [", ".join(traj(k) + "/%d" % i for i in f) for k, f in cl]), fs=ICLFS)
for nm, a in (("empty", "trajectories=()"), ("unknown", "trajectories=('living_room_traj3_frei_png',)"), ("badname", "trajectories=('livingroom',)"), ("list", "trajectories=['living_room_traj1_frei_png']"), ("nofile", "trajectories='/data/none.txt'"),
              ("seqlen", "seqlen=2.0"), ("negstride", "stride=-1"), ("negdil", "dilation=-1"), ("negstart", "start=-1"), ("endstart", "start=3, end=3"), ("fstride", "stride=1.5"), ("fdil", "dilation=0.5"), ("fend", "end=2.5"), ("fstart", "start=0.5")):
    add("icl-reject-" + nm, "P25", "", 'return {"x": len(ICL("/data/icl", %s))}' % a, fs=ICLFS, dead=True)
NOPOSE = {k: v for k, v in ICLFS.items() if not k.endswith("livingRoom1n.gt.sim")}
NUMS = dict(ICLFS); _m = [["0", "-2", "0", "3"], ["1", "0", "0", "-1"], ["0", "0", "0.5", "2"]], [["1", "0", "0", "4"], ["0", "0", "-1", "5"], ["0", "1", "0", "0.25"]], [["0", "0", "1", "-2"], ["0", "4", "0", "7"], ["-1", "0", "0", "1"]]
NUMS[ICLDIR + "/" + traj(1) + "/livingRoom1n.gt.sim"] = ("rows", [r for m in (_m[0], _m[1], _m[2], _m[1], _m[0], _m[2]) for r in m + [""]])
def hom(m): return [[Fraction(v) for v in r] for r in m] + [[Fraction(0)] * 3 + [Fraction(1)]]
def hinv(m):
    n = len(m); w = [list(r) + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(m)]
    for c in range(n):
        p = next(r for r in range(c, n) if w[r][c]); w[c], w[p] = w[p], w[c]; w[c] = [v / w[c][c] for v in w[c]]
        for r in range(n):
            if r != c: w[r] = [u - w[r][c] * v for u, v in zip(w[r], w[c])]
    return [r[n:] for r in w]
def hmul(a, b): return [[sum(x * y for x, y in zip(r, c)) for c in zip(*b)] for r in a]
def lit(ms): return [[[float(v) for v in r] for r in m] for m in ms]
for w in (dict(seqlen=3), dict(seqlen=2, dilation=1, start=1)):
    f = icl_clips({0: 7, 1: 6, 2: 9}, only=[1], **w)[-1][1]
    ms = [hom((_m[0], _m[1], _m[2], _m[1], _m[0], _m[2])[i]) for i in f]
    add("icl-numbers-" + tag(w), "P27 P23", "", '''
d = ICL("/data/icl", trajectories=("living_room_traj1_frei_png",), height=480, width=640%s)
it = d[len(d) - 1]
return {"=pose": (it[3], torch.tensor(%r)), "=transform": (it[4], torch.tensor(%r))}
''' % (call(w), lit([hmul(hinv(ms[0]), m) for m in ms]), lit([hom([["1", "0", "0", "0"], ["0", "1", "0", "0"], ["0", "0", "1", "0"]])] + [hmul(hinv(a), b) for a, b in zip(ms, ms[1:])])), fs=NUMS)
add("icl-missing-poses", "P27", "", 'return {"x": len(ICL("/data/icl"))}', fs=NOPOSE, dead=True)
add("icl-no-poses-needed", "P26", "", 'd = ICL("/data/icl", return_pose=False, return_transform=False, seqlen=2)\nreturn {"=n": (len(d), %d), "=item": (len(d[0]), 4)}' % len(icl_clips({0: 7, 1: 6, 2: 9}, seqlen=2)), fs=NOPOSE)
SHORT = dict(ICLFS); SHORT[ICLDIR + "/" + traj(1) + "/livingRoom1n.gt.sim"] = ("rows", ICLFS[ICLDIR + "/" + traj(1) + "/livingRoom1n.gt.sim"][1][:-5])
add("icl-short-poses", "P27", "", 'return {"x": len(ICL("/data/icl"))}', fs=SHORT, dead=True)
CUT = dict(ICLFS); CUT[ICLDIR + "/" + traj(1) + "/livingRoom1n.gt.sim"] = ("rows", ICLFS[ICLDIR + "/" + traj(1) + "/livingRoom1n.gt.sim"][1][:-3])
add("icl-cut-poses", "P27", "", 'd = ICL("/data/icl", seqlen=2, trajectories=("living_room_traj1_frei_png",))\nreturn {"x": d[len(d) - 1]}', fs=CUT, dead=True)
FAULTY = dict(ICLFS); _r = list(ICLFS[ICLDIR + "/" + traj(1) + "/livingRoom1n.gt.sim"][1]); _r[9] = [None] * 3; FAULTY[ICLDIR + "/" + traj(1) + "/livingRoom1n.gt.sim"] = ("rows", _r)
add("icl-faulty-poses", "P27", "", 'd = ICL("/data/icl", trajectories=("living_room_traj1_frei_png",))\nreturn {"x": d[0]}', fs=FAULTY, dead=True)
BADA = dict(ICLFS); _r = [list(x) for x in ICLFS[ICLDIR + "/" + traj(1) + "/associations.txt"][1]]; _r[2][1], _r[2][3] = _r[2][3], _r[2][1]; BADA[ICLDIR + "/" + traj(1) + "/associations.txt"] = ("rows", _r)
add("icl-bad-associations", "P27", "", 'return {"x": len(ICL("/data/icl"))}', fs=BADA, dead=True)

ICLFLAGS = ["depth", "intrinsics", "pose", "transform", "names"]
def flagsets(flags):
    out = [[f] for f in flags] + [flags] + [[g for g in flags if g != f] for f in flags]
    return out + [[a, b] for i, a in enumerate(flags) for b in flags[i + 1:]]
def flag_scenarios(name, ctor, flags, fs):
    for off in flagsets(flags):
        on = [f for f in flags if f not in off]
        keep = [0] + [i + 1 for i, f in enumerate(flags) if f not in off]
        # without poses no frame of TUM has a pose time to report
        skip = "timestamps" in on and "pose" in off and "transform" in off
        got, keep = ("tuple([y for i, y in enumerate(b[1]) if i != %d])" % (len(on)), [k for k in keep if flags[k - 1] != "timestamps" or not k]) if skip else ("b[1]", keep)
        add("%s-flags-off-%s" % (name, "-".join(off) if len(off) < 5 else "most%d-%s" % (len(off), "-".join(f for f in flags if f not in off))), "P26", "", '''
a = %s
b = %s
x = a[1]
return {"=entries": (%s, tuple([x[i] for i in %r])), "=count": (len(b[1]), %d), "=full": (len(x), %d)}
''' % (ctor % "", ctor % "".join(", return_%s=False" % f for f in off), got, keep, len(on) + 1, len(flags) + 1), fs=fs)
flag_scenarios("icl", 'ICL("/data/icl", seqlen=2, start=1, height=480, width=640%s)', ICLFLAGS, ICLFS)
ICLK = "481.20 -480.0 319.5 239.5"
def intrinsics_rows(fx, fy, cx, cy): return "mat4([[{0} * w / 640, z, {2} * w / 640, z], [z, {1} * h / 480, {3} * h / 480, z], [z, z, o, z], [z, z, z, o]])".format(fx, fy, cx, cy)
MAT = '''
def mat4(rows): return torch.stack([torch.stack([torch.as_tensor(float(v)) for v in r], -1) for r in rows], -2)
'''
def layout_scenarios(name, ctor, head, K, scale, fs, F, orth, extra="", item=1, pre=""):
    for cf in (False, True):
        for nc in (False, True):
            add("%s-layout-%s%s" % (name, "cf" if cf else "cl", "-norm" if nc else ""), "P36", "h:int;w:int", '''
z = 0.0; o = 1.0
d = %s
it = d[%d]
F = %r
%s
c = torch.stack([color(rgb(i), w, h, %r) for i in F], 0); q = torch.stack([depth(dep(i), w, h, %r) for i in F], 0)
return {"=color": (it[0], %s), "=depth": (it[1], %s), "=dtypes": ([it[0].dtype, it[1].dtype, it[2].dtype], [torch.float32, torch.float32, torch.float32]),
        %s"=shapes": ([it[0].shape, it[1].shape], [%s])%s}
''' % (ctor % (cf, nc), item, F, pre, nc, scale, "c.permute(0, 3, 1, 2)" if cf else "c", "q.permute(0, 3, 1, 2)" if cf else "q", '"=K": (it[2], %s.unsqueeze(0)), ' % K if K else "", "(%d, 3, h, w), (%d, 1, h, w)" % (len(F), len(F)) if cf else "(%d, h, w, 3), (%d, h, w, 1)" % (len(F), len(F)), extra), head=head + MAT, fs=fs)
layout_scenarios("icl", 'ICL("/data/icl", seqlen=2, height=h, width=w, channels_first=%r, normalize_color=%r)', ICLHEAD.replace("def rgb(k, i)", "def rgb(i, k=0)").replace("def dep(k, i)", "def dep(i, k=0)"), intrinsics_rows(*ICLK.split()), 5000.0, ICLFS, [2, 3], False)

# ================================================================ TUM
TUMDIR = "/data/tum"
SEQS = ["rgbd_dataset_freiburg2_desk", "rgbd_dataset_freiburg1_xyz"]        # listing order; sorted order is the reverse
def ts(x): return "%.4f" % (1300.0 + x)
# colour frames every 0.1 s; depth images slightly later; a gap in the depth images and in the trajectory drops frames
def rgbtimes(n): return [round(0.1 * i, 4) for i in range(n)]
def tum_files(n, nodepth=(), nopose=(), dt=0.004, pt=0.003):
    R = rgbtimes(n)
    D = [(i, round(t + dt, 4)) for i, t in enumerate(R) if i not in nodepth]
    P = []
    for i, t in enumerate(R):
        if i not in nopose: P.append((i, round(t + dt + pt, 4)))
        P.append((None, round(t + dt + 0.03, 4)))          # a pose on the way to the next frame, farther than the tolerance but not than twice of it
    rgb = ["# color images", "# file: 'x.bag'", "# timestamp filename"] + [[ts(t), "rgb/%s.png" % ts(t)] for t in R]
    dep = ["# depth maps", "# timestamp filename"] + [[ts(t), "depth/%s.png" % ts(t)] for i, t in D]
    pos = ["# ground truth trajectory", "# timestamp tx ty tz qx qy qz qw"] + [[ts(t), None, None, None, "0.%d" % (k + 1), "0.2", "0.3", "0.4"] for k, (i, t) in enumerate(P)]
    return rgb, dep, pos
def tum_fs():
    fs = {"*images": IM, TUMDIR: [SEQS[0], "notes.txt", SEQS[1]], TUMDIR + "/notes.txt": ("text", "x"), "/data/seqs.txt": ("text", SEQS[0])}
    for s, a in ((SEQS[0], dict(n=7, nodepth=(2,), nopose=(4,))), (SEQS[1], dict(n=6))):
        d = TUMDIR + "/" + s
        fs[d] = ["rgb", "depth", "rgb.txt"]
        for f, rows in zip(("rgb.txt", "depth.txt", "groundtruth.txt"), tum_files(**a)): fs[d + "/" + f] = ("rows", rows)
    return fs
TUMFS = tum_fs()
USABLE = {SEQS[1]: list(range(6)), SEQS[0]: [0, 1, 3, 5, 6]}; NRGB = {SEQS[1]: 6, SEQS[0]: 7}
def tum_clips(seqlen=4, dilation=None, stride=None, start=None, end=None, only=None, poses=True):
    dilation = dilation or 0; stride = stride if stride is not None else seqlen * (dilation + 1); start = start or 0
    out = []
    for s in sorted(USABLE):
        if only is not None and s not in only: continue
        fr = [i for i in (USABLE[s] if poses else [x for x in range(NRGB[s]) if not (s == SEQS[0] and x == 2)]) if i >= start and (end is None or i < end)]
        out += [(s, [fr[i] for i in w]) for w in windows(len(fr), seqlen, dilation, stride)]
    return out
def ttimes(i): t = rgbtimes(9)[i]; return ts(t), ts(round(t + 0.004, 4)), ts(round(t + 0.007, 4))
TUMHEAD = '''
def raw(s, t):
    """numbers of the trajectory row recorded at one time"""
    for L in open("/data/tum/" + s + "/groundtruth.txt").readlines():
        w = L.split()
        if w[0] == t:
            return np.array([float(x) for x in w[1:8]], dtype=np.float32)
def pose(s, t): return torch.from_numpy(U.pointquaternion_to_homogeneous(raw(s, t)))
'''
def tum_expect(s, F):
    return ([TUMDIR + "/" + s + "/rgb/%s.png" % ttimes(i)[0] for i in F], [TUMDIR + "/" + s + "/depth/%s.png" % ttimes(i)[1] for i in F], ", ".join("%s//%s" % (s, ttimes(i)[0]) for i in F), [tuple(ttimes(i)) for i in F])
for w in WINDOWS:
    cl = tum_clips(**w)
    if not cl: continue
    ex = [tum_expect(*c) for c in cl]
    add("tum-clips-" + tag(w), "P25 P28 P29", "", '''
d = TUM("/data/tum"%s)
return {"=color": (d.colorfiles, %r), "=depth": (d.depthfiles, %r), "=names": (d.framenames, %r), "=times": ([[tuple(t) for t in c] for c in d.timestamps], %r), "=len": (len(d), %d), "=poses": (len(d.poses), %d)}
''' % (call(w), [e[0] for e in ex], [e[1] for e in ex], [e[2] for e in ex], [e[3] for e in ex], len(cl), len(cl)), fs=TUMFS)
    for j in sorted({0, len(cl) // 2, len(cl) - 1}):
        s, f = cl[j]; c, dd, nm, tt = ex[j]
        add("tum-item-%s-%d" % (tag(w), j), "P25 P27 P29", "", '''
d = TUM("/data/tum", height=480, width=640%s)
it = d[%d]
C = %r; D = %r; T = %r
P = [pose(%r, t[2]) for t in T]
return {"=color": (it[0], torch.stack([color(p, 640, 480) for p in C], 0)), "=depth": (it[1], torch.stack([depth(p, 640, 480, 5000.0) for p in D], 0)), "=pose": (it[3], rel(P)), "=transform": (it[4], steps(P)),
        "=names": (it[5], %r), "=times": (it[6], %r)}
''' % (call(w), j, c, dd, tt, s, nm, "\n".join("rgb %s depth %s pose %s" % t for t in tt)), head=TUMHEAD, fs=TUMFS)
NOGT = {k: v for k, v in TUMFS.items() if not k.endswith("groundtruth.txt")}
_c = tum_clips(seqlen=2, poses=False)
add("tum-no-poses", "P25 P26 P29", "", '''
d = TUM("/data/tum", seqlen=2, return_pose=False, return_transform=False)
return {"=color": (d.colorfiles, %r), "=depth": (d.depthfiles, %r), "=item": (len(d[0]), 5), "=times": (d[0][4], %r)}
''' % ([tum_expect(*c)[0] for c in _c], [tum_expect(*c)[1] for c in _c], "\n".join("rgb %s depth %s pose None" % ttimes(i)[:2] for i in _c[0][1])), fs=NOGT)
add("tum-missing-poses", "P27", "", 'return {"x": len(TUM("/data/tum"))}', fs=NOGT, dead=True)
for nm, tr, only in (("tuple", (SEQS[0], SEQS[1]), None), ("one", (SEQS[0],), [SEQS[0]]), ("file", "/data/seqs.txt", [SEQS[0]]), ("all", None, None)):
    cl = tum_clips(seqlen=2, only=only)
    add("tum-select-" + nm, "P25 P28", "", 'd = TUM("/data/tum", sequences=%r, seqlen=2)\nreturn {"=color": (d.colorfiles, %r), "=len": (len(d), %d)}' % (tr, [tum_expect(*c)[0] for c in cl], len(cl)), fs=TUMFS)
for nm, a in (("empty", "sequences=()"), ("unknown", "sequences=('rgbd_dataset_freiburg3_x',)"), ("list", "sequences=['%s']" % SEQS[0]), ("nofile", "sequences='/data/none.txt'"),
              ("seqlen", "seqlen=2.0"), ("negstride", "stride=-1"), ("negdil", "dilation=-1"), ("negstart", "start=-1"), ("endstart", "start=3, end=3"), ("fstride", "stride=1.5"), ("fdil", "dilation=0.5"), ("fend", "end=2.5"), ("fstart", "start=0.5")):
    add("tum-reject-" + nm, "P25", "", 'return {"x": len(TUM("/data/tum", %s))}' % a, fs=TUMFS, dead=True)
TUMFLAGS = ["depth", "intrinsics", "pose", "transform", "names", "timestamps"]
flag_scenarios("tum", 'TUM("/data/tum", sequences=(%r,), seqlen=2, start=1, height=480, width=640%%s)' % SEQS[1], TUMFLAGS, TUMFS)
layout_scenarios("tum", 'TUM("/data/tum", seqlen=2, height=h, width=w, channels_first=%r, normalize_color=%r)',
                 '\ndef rgb(i): return "/data/tum/%s/rgb/{:.4f}.png".format(1300 + i / 10)\ndef dep(i): return "/data/tum/%s/depth/{:.4f}.png".format(1300.004 + i / 10)\n' % (SEQS[1], SEQS[1]), intrinsics_rows("525.0", "525.0", "319.5", "239.5"), 5000.0, TUMFS, [2, 3], True)

# ================================================================ ScanNet
SCDIR, SCMETA = "/data/scannet", "/data/scannet/sequence_associations"
def scan_rows(scene, frames):
    r = []
    for i in frames:
        p = "scans/%s/" % scene
        r.append(["color", p + "color/%d.jpg" % i, "depth", p + "depth/%d.png" % i, "pose", p + "pose/%d.txt" % i, "label-filt", p + "label-filt/%d.png" % i, "instance-filt", p + "instance-filt/%d.png" % i,
                  "intrinsic_color", p + "intrinsic/intrinsic_color.txt", "extrinsic_color", p + "intrinsic/extrinsic_color.txt", "intrinsic_depth", p + "intrinsic/intrinsic_depth.txt"])
    return r
SCSEQ = {"scene0003_00-seq_1": list(range(0, 5)), "scene0003_00-seq_2": list(range(5, 11)), "scene0003_00-seq_10": list(range(50, 55)), "scene0001_01-seq_1": list(range(20, 25))}
SCORDER = ["scene0001_01-seq_1", "scene0003_00-seq_1", "scene0003_00-seq_2", "scene0003_00-seq_10"]
SCFS = {"*images": IM, SCMETA: ["scene0003_00-seq_10.txt", "scene0003_00-seq_2.txt", "readme.md", "scene0001_01-seq_1.txt", "scene0003_00-seq_1.txt"], SCDIR: ["sequence_associations", "scans"], "/data/split.txt": ("text", "scene0003_00")}
for _s, _f in SCSEQ.items(): SCFS[SCMETA + "/" + _s + ".txt"] = ("rows", scan_rows(_s.split("-")[0], _f))
def sc_expect(s, F):
    p = SCDIR + "/scans/%s/" % s.split("-")[0]
    return [p + "color/%d.jpg" % i for i in F], [p + "depth/%d.png" % i for i in F], [p + "pose/%d.txt" % i for i in F], [p + "label-filt/%d.png" % i for i in F], p + "intrinsic/intrinsic_depth.txt"
SCCALL = 'Scannet("/data/scannet", "/data/scannet/sequence_associations", %s)'
for nm, scenes, a, b in (("default", None, 0, -1), ("from2", None, 2, -1), ("range", None, 1, 4), ("first", None, 0, 1), ("tuple", ("scene0003_00",), 1, 3), ("file", "/data/split.txt", 0, -1), ("other", ("scene0001_01", "scene0009_00"), 2, 5)):
    only = None if scenes is None else ("scene0003_00",) if isinstance(scenes, str) else scenes
    seqs = [s for s in SCORDER if only is None or s.split("-")[0] in only]
    ex = [sc_expect(s, SCSEQ[s][a:None if b < 0 else b]) for s in seqs]
    add("scannet-clips-" + nm, "P25 P27 P28", "", '''
d = %s
return {"=color": (d.colorfiles, %r), "=depth": (d.depthfiles, %r), "=pose": (d.posefiles, %r), "=label": (d.labelfiles, %r), "=K": (d.intrinsicsfiles, %r), "=names": (d.seqnames, %r), "=len": (len(d), %d)}
''' % (SCCALL % ("%r, start=%d, end=%d" % (scenes, a, b)), [e[0] for e in ex], [e[1] for e in ex], [e[2] for e in ex], [e[3] for e in ex], [e[4] for e in ex], seqs, len(seqs)), fs=SCFS)
    for j in range(len(seqs)) if nm == "default" else sorted({0, len(seqs) - 1}):
        c, dd, pp, ll, kk = ex[j]
        add("scannet-item-%s-%d" % (nm, j), "P25 P27", "", '''
d = %s
it = d[%d]
C = %r; D = %r; P = [torch.from_numpy(np.loadtxt(p)) for p in %r]; L = %r
return {"=color": (it[0], torch.stack([color(p, 640, 480) for p in C], 0)), "=depth": (it[1], torch.stack([depth(p, 640, 480, 1000.0) for p in D], 0)), "=K": (it[2], torch.from_numpy(np.loadtxt(%r)).float().unsqueeze(0)), "=pose": (it[3], rel(P)), "=transform": (it[4], steps(P)),
        "=names": (it[5], %r), "=labels": (it[6], torch.stack([torch.from_numpy(cv2.resize(np.asarray(imageio.imread(p), dtype=np.uint8), (640, 480), interpolation=cv2.INTER_NEAREST)).unsqueeze(-1) for p in L], 0).float())}
''' % (SCCALL % ("%r, start=%d, end=%d, seg_classes='nyu40'" % (scenes, a, b)), j, c, dd, pp, ll, kk, seqs[j]), fs=SCFS)
SCHEAD = "\nfrom gradslam.datasets import scannet as S\n"
for nm, sg, mapped in (("default", "", True), ("scannet20", ", seg_classes='scannet20'", True), ("ScanNet20", ", seg_classes='ScanNet20'", True), ("nyu40", ", seg_classes='nyu40'", False), ("NYU40", ", seg_classes='NYU40'", False)):
    add("scannet-labels-" + nm, "P30", "", '''
d = %s
it = d[2]
L = [cv2.resize(np.asarray(imageio.imread("/data/scannet/scans/scene0003_00/label-filt/{}.png".format(i)), dtype=np.uint8), (640, 480), interpolation=cv2.INTER_NEAREST) for i in [6, 7]]
E = S.get_color_encoding(%r)
return {"=label": (it[6], torch.stack([torch.from_numpy(%s).unsqueeze(-1) for l in L], 0).float()), "=palette": (list(d.color_encoding.items()), list(E.items()))}
''' % (SCCALL % ("None, start=1, end=3, height=480, width=640" + sg), "scannet20" if mapped else "nyu40", "S.nyu40_to_scannet20(l)" if mapped else "l"), head=SCHEAD, fs=SCFS)
for nm, a in (("negstart", "None, start=-1"), ("end", "None, start=3, end=3"), ("toolong", "None, end=6"), ("list", "['scene0003_00']"), ("nofile", "'/data/none.txt'"), ("beyond", "None, start=9")):
    add("scannet-reject-" + nm, "P25", "", 'return {"x": len(%s)}' % (SCCALL % a), fs=SCFS, dead=True)
for col in (0, 2, 4, 6, 14):
    f = dict(SCFS); r = [list(x) for x in SCFS[SCMETA + "/scene0003_00-seq_2.txt"][1]]; r[3][col] = "other"; f[SCMETA + "/scene0003_00-seq_2.txt"] = ("rows", r)
    add("scannet-bad-column-%d" % col, "P27", "", 'return {"x": len(%s)}' % (SCCALL % "None"), fs=f, dead=True)
flag_scenarios("scannet", 'Scannet("/data/scannet", "/data/scannet/sequence_associations", None, start=1, end=3, height=480, width=640%s)', ["depth", "intrinsics", "pose", "transform", "names", "labels"], SCFS)
layout_scenarios("scannet", 'Scannet("/data/scannet", "/data/scannet/sequence_associations", None, start=1, end=3, height=h, width=w, seg_classes="nyu40", channels_first=%r, normalize_color=%r)',
                 '\ndef rgb(i): return "/data/scannet/scans/scene0003_00/color/{}.jpg".format(i)\ndef dep(i): return "/data/scannet/scans/scene0003_00/depth/{}.png".format(i)\n', "", 1000.0, SCFS, [6, 7], True,
                 extra=''', "=K": (it[2], mat4([[M[r, c] * (w / 640 if r == 0 and c in (0, 2) else h / 480 if r == 1 and c in (1, 2) else 1.0) for c in range(4)] for r in range(4)]).unsqueeze(0)),
        "=labeltype": (it[6].dtype, torch.float32), "=label": (it[6], torch.stack([torch.from_numpy(cv2.resize(np.asarray(imageio.imread("/data/scannet/scans/scene0003_00/label-filt/{}.png".format(i)), dtype=np.uint8), (w, h), interpolation=cv2.INTER_NEAREST)).unsqueeze(-1) for i in F], 0).float())''', item=2, pre='M = np.loadtxt("/data/scannet/scans/scene0003_00/intrinsic/intrinsic_depth.txt")')
