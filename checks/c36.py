"""C36: the compiled route (matersdk.fromcc: neighbour list binding, then the torch operator) against the Python classes and the formula."""
import os, shutil
import numpy as np
from scipy.optimize import linear_sum_assignment
from hypothesis import strategies as st
import vp, native, semodel, brute
from vp import sub, need, label, trivial
from gens import *
import c06, c09
vp.SUBS.clear()

QX = 3
RULE = "a case counts when at least one neighbour lies within the descriptor cutoff; distinct by the hash of its canonical JSON"
ASSUMPTIONS = c09.ASSUMPTIONS + ["fully periodic crystals; types are numbered in the order of the requested species list",
                                 "structures of one batch have the same number of atoms"]
P = None
LIB = ["source/descriptor/deepmd/src/envMatrixOp.cc", "source/descriptor/deepmd/bind/envMatrixOp_bind.cc"]


def prepare():
    """a root laid out as after a build of the tree: the package, the built binding and the built operator library"""
    global P
    R = os.path.join(vp.scratch(), "root")
    shutil.copytree(os.path.join(vp.REPO, "matersdk"), os.path.join(R, "matersdk"), ignore=shutil.ignore_patterns("__pycache__", "*.pyc"))
    g = os.path.join(R, "source", "nblist", "bind", "gen")
    os.makedirs(os.path.dirname(g))
    shutil.copytree(native.build_nblist_module(), g)
    l = os.path.join(R, "source", "build", "lib", "descriptor", "deepmd")
    os.makedirs(l)
    shutil.copy(native.build_torch(None, LIB), os.path.join(l, "libenvMatrixOp_bind.so"))
    P = native.Torch(R, child="fromcc_child.py")


@st.composite
def cases(draw, base=c09.cases):
    k = draw(base())
    n = draw(st.sampled_from([1, 1, 1, 2, 3]))
    k["more"] = [dict(lat=draw(lattices()), frac=[[draw(st.integers(-300000, 1300000)) for _ in range(3)] for _ in k["c"]["Z"]]) for _ in range(n - 1)]
    k["sort"] = draw(st.booleans())
    k["cart"] = draw(st.booleans())
    k["f32"] = draw(st.sampled_from([False, False, True]))
    k["over"] = draw(st.sampled_from([0, 0, 0, 0, 1]))
    return k


def pythonic(st_, rc, s, zs, rd, rs, turn):
    """{(centre, species): rows (k, 16) by distance} from the Python classes"""
    from matersdk.feature.deepmd.se_pair import DpseTildeRPairDescriptor
    nb = c06.neighbours(st_, rc, s, turn)
    Z = [int(x) for x in st_.atomic_numbers]
    out = {}
    for zc in zs:
        cs = [i for i in range(len(Z)) if Z[i] == zc]
        if not cs:
            continue
        for zn in zs:
            if zn not in Z:
                for i in cs:
                    out[i, zn] = np.zeros((0, 16))
                continue
            T = DpseTildeRPairDescriptor.create("v1", nb, zc, zn, rd, rs)
            R = np.asarray(T.dp_feature_pair_tildeR); D = np.asarray(T.calc_derivative(max_num_nbrs=R.shape[1]))
            an = np.asarray(T.dp_feature_pair_an)
            for r, i in enumerate(cs):
                m = int((an[r] != 0).sum())
                out[i, zn] = np.concatenate([R[r, :m], -D[r, :m].reshape(m, 12)], 1)
    return out


@sub("pipeline", cases(), quick=150, thorough=4000)
def pipeline(case):
    first = dict(case)
    setups = [c06.setup(first)]
    for m in case["more"]:
        k = dict(case); k["c"] = dict(case["c"], lat=m["lat"], frac=m["frac"])
        s_ = c06.setup(k)
        if len(s_[0]["Z"]) == len(setups[0][0]["Z"]):
            setups.append(s_)
    rc = min(x[5] for x in setups)
    alld = np.concatenate([x[4].ravel() for x in setups])
    rc = brute.safe_rcut(alld, rc)
    if rc < 0.3:
        trivial("cutoff not covered")
        return
    rd = brute.safe_rcut(alld, rc * case["desc"] / 100.0)
    rs = brute.safe_rcut(alld, rd * case["rs"] / 100.0)
    if case["f32"] and rd - rs < 0.25:
        rs = brute.safe_rcut(alld, rd - 0.25)
        if rs < 0.05:
            trivial("radii too close for single precision")
            return
    zs = sorted(set(z for x in setups for z in x[0]["Z"]))
    if case["rev"]:
        zs = zs[::-1]
    vec = []
    for c, s, sh, v, d, _ in setups:
        per = {}
        for i in range(len(c["Z"])):
            jj, kk = np.where((d[i] < rc) & (d[i] > 1e-8))
            for z in zs:
                per[i, z] = sorted((v[i, j, k] for j, k in zip(jj, kk) if c["Z"][j] == z), key=np.linalg.norm)
        vec.append(per)
    lims = [max(len(p[i, z]) for p in vec for i, zz in p if zz == z) + case["extra"] for z in zs]
    most = max(sum(len(p[i, z]) for z in zs) for p in vec for i in range(len(setups[0][0]["Z"])))
    if not most:
        trivial("no neighbours")
    umax = max(sum(lims), 1)
    if not sum(lims):
        lims[0] = 1
    if case["over"]:
        # a limit that cannot hold the neighbours of that type has to be refused, the total being large enough
        if len(zs) < 2 or not max(len(p[i, z]) for p in vec for i, z in p if z == zs[0]):
            trivial("no limit to exceed")
            return
        m = max(len(p[i, z]) for p in vec for i, z in p if z == zs[0])
        lims = [m - 1, lims[1] + lims[0] - m + 1] + lims[2:]
    req = []
    for c, s, sh, v, d, _ in setups:
        lat = lat_array(c["lat"]); fr = frac_array(c)
        req.append(dict(lat=lat.tolist(), ty=[zs.index(z) for z in c["Z"]], xyz=(fr @ lat if case["cart"] else fr).tolist()))
    status, r = P.ask(s=req, rcut=rc, umax=umax, sort=case["sort"], cart=case["cart"], f32=case["f32"], lims=lims, rd=rd, rs=rs)
    if case["over"]:
        need(status == "throw", "more neighbours of a type than its limit are accepted", lims)
        label("limit too small")
        return
    need(status == "ok", "the compiled route failed", r)
    V, D = np.array(r[0], float), np.array(r[1], float)
    n = len(setups[0][0]["Z"])
    need(V.shape == (len(setups), n, sum(lims), 4) and D.shape == V.shape + (3,), "shapes", V.shape, D.shape)
    N = np.concatenate([V, D.reshape(V.shape[:3] + (12,))], 3)
    near = min((np.linalg.norm(x) for p in vec for L in p.values() for x in L), default=1.0)
    sc = max(1.0, near ** -2, (rd - rs) ** -1, (rd - rs) ** -2)
    tol = (3e-4 if case["f32"] else 1e-7) * sc
    for b, (c, s, sh, v, d, _) in enumerate(setups):
        py = pythonic(make_structure(c), rc, s, zs, rd, rs, case["rc"])
        for i in range(n):
            o = 0
            for z, L in zip(zs, lims):
                w = vec[b][i, z]
                k = len(w)
                got = N[b, i, o:o + L]
                need(not got[k:].any(), "padding rows", b, i, z)
                P_ = py[i, z]
                need(len(P_) == k, "number of Python rows", len(P_), k)
                ref = semodel.joint(np.array(w), rd, rs, 1) if k else np.zeros((0, 16))
                dist = np.array([np.linalg.norm(x) for x in w])
                for what, A, ordered in (("Python", P_, True), ("native", got[:k], case["sort"])):
                    if not k:
                        continue
                    err = np.abs(A[:, None] - ref[None]).max(2)
                    if ordered:
                        err = np.where(np.abs(dist[:, None] - dist[None]) < 1e-6, err, 1e9)
                    bad = (err > tol).astype(float)
                    row, col = linear_sum_assignment(bad)           # one row per neighbour, in any order where the order is free
                    for q, h in zip(row, col):
                        need(not bad[q, h], what + " row %d of centre %d, species %d" % (q, i, z), A[q].tolist(), ref[q].tolist())
                o += L
    label("batch of %d" % len(setups)); label("f32" if case["f32"] else "f64"); label("cart" if case["cart"] else "frac"); label("species %d" % len(zs))


@sub("large", cases(c09.large_cases), quick=4, thorough=120)
def large(case):
    pipeline(case)


@st.composite
def dense_cases(draw):
    k = draw(c06.dense())
    k.update({x: y for x, y in draw(cases()).items() if x not in k})
    k.update(more=[], over=0, desc=100, sort=draw(st.sampled_from([True, True, True, False])))
    return k


@sub("dense", dense_cases(), quick=4, thorough=100)
def dense(case):
    pipeline(case)


@sub("huge", cases(c09.huge_cases), quick=1, thorough=15)
def huge(case):
    pipeline(dict(case, more=[]))
