"""C33 normalisation of the environment matrices (python)."""
import os
import numpy as np
import vp
from vp import sub, need, label, fresh_path
from gens import *
import brute, c06, c09
from c10 import num_deriv
vp.SUBS.clear()
from hypothesis import strategies as st

RULE = "a case counts when a statistic or a normalised matrix with at least one neighbour was compared"
ASSUMPTIONS = c06.ASSUMPTIONS + ["centre species are present in every frame; padded widths are at least the real maximum"]


def stats_ref(X):
    """X: (..., 4): mean of the first column; spread of the first and of the pooled three others; never below 0.01"""
    X = np.asarray(X, float).reshape(-1, 4)
    r, a = X[:, 0], X[:, 1:].reshape(-1)
    return np.array([r.mean(), 0, 0, 0]), np.array([max(0.01, r.std())] + [max(0.01, a.std())] * 3)


def near_floor(X):
    X = np.asarray(X, float).reshape(-1, 4)
    return min(abs(X[:, 0].std() - 0.01), abs(X[:, 1:].std() - 0.01)) < 1e-6


ARR = st.fixed_dictionaries(dict(shape=st.lists(st.integers(1, 6), min_size=2, max_size=3), seed=st.integers(0, 2 ** 31), scale=st.sampled_from([1e-4, 1e-2, 0.03, 1, 1, 30]),
                                 off=st.sampled_from([0, 0, 1, -2]), const=st.booleans(), zero=st.integers(0, 3)))


@sub("pair", ARR, quick=500, thorough=10000)
def pair(case):
    from matersdk.feature.deepmd.preprocess import TildeRPairNormalizer as T
    r = np.random.RandomState(case["seed"])
    sh = tuple(case["shape"])
    X = r.randn(*sh, 4) * case["scale"] + case["off"]
    if case["const"]:
        X[...] = r.rand(4) * case["scale"] + case["off"]
        X[..., 1:] = X[..., 1:2]
        label("equal entries")
    if case["zero"] == 0:
        X[..., -1:, :] = 0
        label("padded rows")
    X0 = X.copy()
    n = T(tildeRs_array=X)
    a, s = stats_ref(X)
    need(np.array_equal(X, X0), "input modified")
    need(np.shape(n.davg) == (1, 4) and np.shape(n.dstd) == (1, 4), "shapes", np.shape(n.davg))
    need(vp.allclose(n.davg[0], a, rtol=1e-9, atol=1e-12), "mean", n.davg, a)
    if not near_floor(X):
        need(vp.allclose(n.dstd[0], s, rtol=1e-6, atol=1e-7 * (1 + abs(case["off"]))), "spread", n.dstd, s)
    if (s == 0.01).any():
        label("floor of 0.01")
    # given statistics are used as they are
    da, ds = r.randn(1, 4), 0.1 + r.rand(1, 4)
    m = T(davg=da, dstd=ds)
    for k, Y in enumerate((r.randn(*sh[-2:], 4) if len(sh) > 1 else r.randn(1, *sh, 4), r.randn(2, *sh[-2:], 4))):
        Y0 = Y.copy()
        need(vp.allclose(m.normalize(Y), (Y0 - da[0]) / ds[0], rtol=1e-12, atol=1e-12) and np.array_equal(Y, Y0), "normalised matrix, %d-D" % Y.ndim)
        D = r.randn(*Y.shape, 3); D0 = D.copy()
        need(vp.allclose(m.normalize_derivative(D), D0 / ds[0][:, None], rtol=1e-12, atol=1e-12) and np.array_equal(D, D0), "normalised derivative, %d-D" % D.ndim)
    for kw in ({}, dict(davg=da), dict(dstd=ds)):
        try:
            T(**kw)
        except ValueError:
            continue
        need(False, "incomplete statistics accepted", sorted(kw))


@st.composite
def scases(draw, base=c09.cases):
    k = draw(base())
    k["nfr"] = draw(st.integers(1, 3))
    k["pick"] = draw(st.lists(st.integers(0, 5), min_size=1, max_size=4))
    k["jit"] = draw(st.integers(0, 2 ** 31))
    k["sub"] = draw(st.integers(0, 3))
    k["dd"] = draw(st.integers(0, 2 ** 31))
    return k


class Frames:
    def __init__(self, L):
        self.structures_lst = L


def blocks(tabs, rc, rs, zc, zns, widths):
    """reference matrices of centres of species zc in one frame: (ncentre, sum(widths), 4), rows by distance"""
    c, v, d = tabs
    out = []
    for i in range(len(c["Z"])):
        if c["Z"][i] != zc:
            continue
        rows = []
        for zn, w in zip(zns, widths):
            jj, kk = np.where((d[i] < rc) & (d[i] > 1e-8))
            L = sorted((v[i, j, k] for j, k in zip(jj, kk) if c["Z"][j] == zn), key=np.linalg.norm)
            rows.append(np.array([c09.row_ref(x, rs, rc) for x in L] + [np.zeros(4)] * (w - len(L))).reshape(w, 4))
        out.append(np.concatenate(rows))
    return np.array(out)


def build(case):
    """frames with the same atoms, jittered; a cutoff covered in all of them"""
    c0, s, sh, v, d, rc = c06.setup(case)
    fr = [c0]
    r = np.random.RandomState(case["jit"])
    for _ in range(case["nfr"] - 1):
        fr.append(dict(c0, frac=[[int(x + y) for x, y in zip(f, r.randint(-40000, 40000, 3))] for f in c0["frac"]]))
    tabs = []
    for f in fr:
        c, s, sh, v, d, q = c06.setup(dict(case, c=f))
        if len(c["Z"]) != len(c0["Z"]):
            return None
        rc = min(rc, q); tabs.append((c, v, d))
    rs = rc * case["rs"] / 100.0
    for _ in range(40):
        for k in range(2):
            if any((np.abs(d - (rc, rs)[k]) < 1e-5).any() for _, _, d in tabs):
                if k: rs -= 3.3e-5
                else: rc -= 3.7e-5
    if rc < 0.3 or rs < 0.05 or any((np.abs(d - x) < 1e-6).any() for _, _, d in tabs for x in (rc, rs)):
        return None
    return tabs, s, rc, rs


def widths_of(tabs, rc, zns, extra):
    return [max(int(((d < rc) & (d > 1e-8))[:, np.array(c["Z"]) == zn].sum((1, 2)).max()) if zn in c["Z"] else 0 for c, v, d in tabs) + extra for zn in zns]


def eq_blocks(got, ref, what):
    """rows of equal distance may be exchanged: compare column 0 exactly and the rest as multisets per centre"""
    need(got.shape == ref.shape, what + ": shape", got.shape, ref.shape)
    if vp.allclose(got, ref, rtol=1e-9, atol=1e-9):
        return
    need(vp.allclose(got[..., 0], ref[..., 0], rtol=1e-9, atol=1e-9), what + ": first column", got[..., 0], ref[..., 0])
    for g, r in zip(got, ref):
        need(vp.allclose(np.sort((g * [1, 3.1, 7.7, 0.9]).sum(1)), np.sort((r * [1, 3.1, 7.7, 0.9]).sum(1)), rtol=1e-8, atol=1e-8)
             and vp.allclose(np.sort((g * [1, -2.3, 0.4, 5.9]).sum(1)), np.sort((r * [1, -2.3, 0.4, 5.9]).sum(1)), rtol=1e-8, atol=1e-8), what + ": rows", g, r)


@sub("structures", scases(), quick=600, thorough=8000)
def structures(case):
    from matersdk.feature.deepmd.preprocess import TildeRNormalizer, NormalizerPremise
    b = build(case)
    if b is None:
        vp.trivial("cutoff not covered"); return
    tabs, s, rc, rs = b
    zs = sorted(set(tabs[0][0]["Z"]))
    zc = zs if case["sub"] else zs[:1]                      # centres may be a part of the species only
    zn = zs[::-1] if case["rev"] else zs
    w = widths_of(tabs, rc, zn, case["extra"])
    if 0 in w:
        vp.trivial("no neighbours"); return
    S = [make_structure(c) for c, _, _ in tabs]
    pick = [p % len(S) for p in case["pick"]]
    kw = dict(rcut=rc, rcut_smooth=rs, nbr_atomic_numbers=zn, max_num_nbrs=w, scaling_matrix=s)
    ref = {z: [blocks(tabs[p], rc, rs, z, zn, w) for p in pick] for z in zc}
    for z in zc:
        X = NormalizerPremise.concat_tildeRs4calc_stats(dp_labeled_system=Frames(S), structure_indices=pick, center_atomic_number=z, **kw)
        R = np.concatenate(ref[z], axis=1)
        need(X.shape == R.shape, "shape of the concatenated matrices", X.shape, R.shape)
        W = sum(w)
        for k in range(len(pick)):
            eq_blocks(X[:, k * W:(k + 1) * W], R[:, k * W:(k + 1) * W], "frame %d, species %d" % (k, z))
    N = TildeRNormalizer.from_dp_labeled_system(dp_labeled_system=Frames(S), structure_indices=pick, center_atomic_numbers=zc, **kw)
    need(N.davgs.shape == (len(zc), 4) and N.dstds.shape == (len(zc), 4), "shapes of the statistics", N.davgs.shape)
    for k, z in enumerate(zc):
        a, sd = stats_ref(np.concatenate(ref[z], axis=1))
        need(vp.allclose(N.davgs[k], a, rtol=1e-9, atol=1e-10), "mean of species %d" % z, N.davgs[k], a)
        if not near_floor(np.concatenate(ref[z], axis=1)):
            need(vp.allclose(N.dstds[k], sd, rtol=1e-7, atol=1e-8), "spread of species %d" % z, N.dstds[k], sd)
    # file round trip, also over an existing file
    p = fresh_path(".h5")
    if case["dd"] % 2:
        TildeRNormalizer(9.0, 1.0, [1], [1], [3], [1, 1, 1], np.ones((1, 4)), np.ones((1, 4))).to(p)
    N.to(p)
    M = TildeRNormalizer.from_file(p)
    need(float(M.rcut) == rc and float(M.rcut_smooth) == rs and list(M.center_atomic_numbers) == zc and list(M.nbr_atomic_numbers) == zn and list(M.max_num_nbrs) == w
         and list(M.scaling_matrix) == list(s) and np.array_equal(M.davgs, N.davgs) and np.array_equal(M.dstds, N.dstds), "normaliser read back")
    # normalise a frame with arbitrary statistics
    r = np.random.RandomState(case["dd"])
    da, ds = r.randn(len(zc), 4), 0.1 + r.rand(len(zc), 4)
    Q = TildeRNormalizer(center_atomic_numbers=zc, davgs=da, dstds=ds, **kw)
    for q in list(range(len(S))) + [0] * (len(S) > 1):      # one normaliser, several frames
        Y, D = Q.normalize(S[q])
        full = np.concatenate([(blocks(tabs[q], rc, rs, z, zn, w) - da[k]) / ds[k] for k, z in enumerate(zc)])
        eq_blocks(Y, full, "normalised matrix")
        need(D.shape == Y.shape + (3,), "shape of the derivative", D.shape)
        c, v, d = tabs[q]
        row = 0
        for k, z in enumerate(zc):
            for i in [i for i in range(len(c["Z"])) if c["Z"][i] == z]:
                o = 0
                for y, wd in zip(zn, w):
                    jj, kk = np.where((d[i] < rc) & (d[i] > 1e-8))
                    L = sorted((v[i, j, m] for j, m in zip(jj, kk) if c["Z"][j] == y), key=np.linalg.norm)
                    need(not D[row, o + len(L):o + wd].any(), "derivative of padding rows")
                    G = [num_deriv(x, rs, rc) / ds[k][:, None] for x in L]
                    if L:
                        got = D[row, o:o + len(L)]
                        need(vp.allclose(got.sum(0), sum(G), rtol=1e-7, atol=1e-7 * (1 + len(L))), "normalised derivative", got.sum(0), sum(G))
                        need(vp.allclose((got ** 2).sum(0), sum(g * g for g in G), rtol=1e-6, atol=1e-6 * (1 + len(L))), "normalised derivative (squares)")
                    o += wd
                row += 1
    need([x.Z for x in S[0].species] == tabs[0][0]["Z"], "input structure modified")
    if len(zs) > 1:
        label("several species")
    if len(zc) < len(zs):
        label("centres a part of the species")
    if len(pick) > 1:
        label("several frames")
    if case["rev"]:
        label("descending neighbour species")


@sub("structures_large", scases(c09.large_cases), quick=8, thorough=200)
def structures_large(case):
    structures(case)


@sub("structures_huge", scases(c09.huge_cases), quick=1, thorough=15)
def structures_huge(case):
    structures(case)
