"""C09 smooth environment matrices (python)."""
import numpy as np
import vp
from vp import sub, need, label
from gens import *
import brute, c06, again
vp.SUBS.clear()
from hypothesis import strategies as st

RULE = "a case counts when at least one neighbour row is non-zero"
ASSUMPTIONS = c06.ASSUMPTIONS + ["centre species are present in the structure"]


def s_ref(r, rs, rc):
    u = (r - rs) / (rc - rs)          # r may be complex (derivatives by a complex step)
    x = np.real(r)
    if x < rs:
        return 1.0 / r
    if x < rc:
        return (u ** 3 * (-6 * u * u + 15 * u - 10) + 1) / r
    return 0.0


def row_ref(v, rs, rc):
    r = np.linalg.norm(v)
    s = s_ref(r, rs, rc)
    return np.array([s, s * v[0] / r, s * v[1] / r, s * v[2] / r])


@st.composite
def cases(draw):
    k = draw(c06.cases(nmax=5))
    k["rs"] = draw(st.integers(5, 95))            # inner radius, percent of the cutoff
    k["desc"] = draw(st.sampled_from([100, 100, 100, 80, 60]))   # descriptor cutoff, percent of the table's
    k["extra"] = draw(st.integers(0, 3))
    k["rev"] = draw(st.booleans())
    return k


def table(case):
    from matersdk.io.publicLayer.neigh import StructureNeighborsDescriptor
    c, s, sh, v, d, rc = c06.setup(case)
    if rc < 0.3:
        return None
    st_ = make_structure(c)
    nb = c06.neighbours(st_, rc, s, case["rc"])
    rd = brute.safe_rcut(d, rc * case["desc"] / 100.0)
    rs = brute.safe_rcut(d, rd * case["rs"] / 100.0)
    return c, v, d, rc, rd, rs, nb


def rows_match(got, vecs, rs, rc, what):
    """rows sorted by distance; equal distances may come in any order"""
    L = sorted(vecs, key=np.linalg.norm)
    need(len(got) == len(L), what + " number of rows", len(got), len(L))
    ref = [row_ref(x, rs, rc) for x in L]
    dist = [np.linalg.norm(x) for x in L]
    used = [False] * len(L)
    for i, g in enumerate(got):
        free = [j for j in range(len(L)) if not used[j] and abs(dist[j] - dist[i]) < 1e-6]
        j = min(free, key=lambda j: np.abs(g - ref[j]).max(), default=None)
        ok = j is not None and vp.allclose(g, ref[j], atol=1e-10)
        if ok:
            used[j] = True
        need(ok, what + " row %d" % i, g, ref[i])


@sub("pair", cases(), quick=300, thorough=6000)
def pair(case):
    from matersdk.feature.deepmd.premise import DpFeaturePairPremiseDescriptor
    from matersdk.feature.deepmd.se_pair import DpseTildeRPairDescriptor
    t = table(case)
    if t is None:
        vp.trivial("cutoff not covered")
        return
    c, v, d, rc, rd, rs, nb = t
    zs = sorted(set(c["Z"]))
    some = False
    for zc in zs:
        centers = [i for i in range(len(c["Z"])) if c["Z"][i] == zc]
        for zn in zs:
            per = []
            for i in centers:
                jj, kk = np.where((d[i] < rc) & (d[i] > 1e-8))
                per.append(sorted((v[i, j, k] for j, k in zip(jj, kk) if c["Z"][j] == zn), key=np.linalg.norm))
            m = max(map(len, per))
            pre = DpFeaturePairPremiseDescriptor.create("v1", structure_neighbors=nb)
            an, dd, rcv = pre.extract_feature_pair(center_atomic_number=zc, nbr_atomic_number=zn)
            need(an.shape == (len(centers), m) and dd.shape == an.shape and rcv.shape == an.shape + (3,), "premise shapes", an.shape, (len(centers), m))
            ex = pre.expand_rc(center_atomic_number=zc, nbr_atomic_number=zn, max_num_nbrs=m + case["extra"])
            need(ex.shape == (len(centers), m + case["extra"], 3) and np.array_equal(ex[:, :m], rcv) and not ex[:, m:].any(), "expanded relative coordinates")
            T = DpseTildeRPairDescriptor.create("v1", nb, zc, zn, rd, rs)
            R = np.asarray(T.dp_feature_pair_tildeR)
            need(R.shape == (len(centers), m, 4), "tildeR shape", R.shape)
            P = T.get_tildeR(max_num_nbrs=m + case["extra"])
            need(P.shape == (len(centers), m + case["extra"], 4) and np.array_equal(P[:, :m], R) and not P[:, m:].any(), "padded tildeR")
            for r, L in enumerate(per):
                k = len(L)
                need((an[r, :k] == zn).all() and not an[r, k:].any() and not dd[r, k:].any() and not rcv[r, k:].any(), "premise species and padding")
                c06.match(dd[r, :k], [zn] * k, rcv[r, :k], [(np.linalg.norm(x), zn, x) for x in L], "premise centre %d" % r)
                rows_match(R[r, :k], L, rs, rd, "tildeR centre %d" % r)
                need(not R[r, k:].any(), "tildeR padding")
                # every row belongs to the neighbour listed at the same place
                for q in range(k):
                    need(vp.allclose(R[r, q], row_ref(rcv[r, q], rs, rd), atol=1e-10), "row and neighbour disagree")
                some = some or k > 0
                for x in L:
                    n_ = np.linalg.norm(x)
                    label("inner" if n_ < rs else ("switching" if n_ < rd else "beyond"))
    if not some:
        vp.trivial("no neighbours")


@sub("concatenated", cases(), quick=250, thorough=5000)
def concatenated(case):
    from matersdk.feature.deepmd.se import DpseTildeRDescriptor
    t = table(case)
    if t is None:
        vp.trivial("cutoff not covered")
        return
    c, v, d, rc, rd, rs, nb = t
    zs = sorted(set(c["Z"]))
    if case["rev"]:
        zs = zs[::-1]
    n = len(c["Z"])
    vec = {}
    for i in range(n):
        jj, kk = np.where((d[i] < rc) & (d[i] > 1e-8))
        for zn in zs:
            vec[i, zn] = [v[i, j, k] for j, k in zip(jj, kk) if c["Z"][j] == zn]
    sel = [max(len(vec[i, zn]) for i in range(n)) + case["extra"] for zn in zs]
    T = DpseTildeRDescriptor.create("v1", structure_neighbors=nb, center_atomic_numbers_lst=zs, nbr_atomic_numbers_lst=zs, sel=sel, rcut=rd, rcut_smooth=rs)
    flat = np.asarray(T.get_tildeR())
    need(flat.shape == (n * sum(sel) * 4,), "length", flat.shape, n * sum(sel) * 4)
    o = 0
    for zc in zs:
        centers = [i for i in range(n) if c["Z"][i] == zc]
        for zn, w in zip(zs, sel):
            blk = flat[o:o + len(centers) * w * 4].reshape(len(centers), w, 4)
            o += len(centers) * w * 4
            for r, i in enumerate(centers):
                k = len(vec[i, zn])
                rows_match(blk[r, :k], vec[i, zn], rs, rd, "block %d-%d centre %d" % (zc, zn, i))
                need(not blk[r, k:].any(), "padding")
    if not flat.any():
        vp.trivial("no neighbours")
    if len(zs) > 1:
        label("several species")


@st.composite
def large_cases(draw, base=c06.large):
    k = draw(base())
    k.update({x: y for x, y in draw(cases()).items() if x not in k})
    return k


@sub("large", large_cases(), quick=12, thorough=300)
def large(case):
    pair(case)
    concatenated(case)


def huge_cases():
    return large_cases(c06.huge)


@sub("huge", huge_cases(), quick=1, thorough=25)
def huge(case):
    pair(case)
    concatenated(case)


@sub("history", again.histories(cases()), quick=80, thorough=1500)
def history(case):
    again.run(case, lambda k: (pair(k), concatenated(k)), c06.setup)
