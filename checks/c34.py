"""C34 inference: model inputs built from a structure, and running a saved model on them."""
import os
import numpy as np
import vp
from vp import sub, need, label, fresh_path
from gens import *
import brute, c06, c09, c33
vp.SUBS.clear()
from hypothesis import strategies as st

RULE = "a case counts when at least one centre has a neighbour"
ASSUMPTIONS = c33.ASSUMPTIONS + ["species lists ascending, as documented; the model is a torch module saved whole; device cpu"]


@st.composite
def cases(draw, base=c33.c09.cases):
    k = draw(c33.scases(base))
    k["nfr"] = draw(st.sampled_from([1, 1, 2, 3]))
    return k


def inputs(case):
    b = c33.build(case)
    if b is None:
        return None
    tabs, s, rc, rs = b
    zs = sorted(set(tabs[0][0]["Z"]))
    w = c33.widths_of(tabs, rc, zs, case["extra"])
    if 0 in w:
        return None
    r = np.random.RandomState(case["dd"])
    da, ds = r.randn(len(zs), 4), 0.1 + r.rand(len(zs), 4)
    return tabs, s, rc, rs, zs, w, da, ds


def judge(t, rc, rs, zs, w, da, ds, out):
    """out: relative coordinates, matrix, derivative, neighbour indices, atom counts; one row per centre, all in the same neighbour order"""
    c, v, d = t
    X, R, D, J, N = [np.asarray(x) for x in out]
    n = len(c["Z"]); W = sum(w)
    need(X.shape == (1, n, W, 3) and R.shape == (1, n, W, 4) and D.shape == (1, n, W, 4, 3) and J.shape == (1, n, W), "shapes", X.shape, R.shape, D.shape, J.shape)
    need(N.shape == (1, 1 + len(zs)) and list(N[0]) == [n] + [c["Z"].count(z) for z in zs], "atom counts", N)
    X, R, D, J = X[0], R[0], D[0], J[0]
    order = [i for z in zs for i in range(n) if c["Z"][i] == z]
    for row, i in enumerate(order):
        k = zs.index(c["Z"][i])
        o = 0
        for z, wd in zip(zs, w):
            jj, kk = np.where((d[i] < rc) & (d[i] > 1e-8))
            L = [(v[i, j, q], j) for j, q in zip(jj, kk) if c["Z"][j] == z]
            m = len(L)
            sl = slice(o, o + m)
            dist = np.linalg.norm(X[row, sl], axis=1)
            need((np.diff(dist) > -1e-6).all(), "neighbours not in order of distance", dist)
            left = list(range(m))
            for q in range(o, o + m):
                hit = [u for u in left if L[u][1] == int(J[row, q]) - 1 and vp.allclose(L[u][0], X[row, q], atol=1e-9)]
                need(hit, "neighbour index and relative position do not belong to one neighbour", J[row, q], X[row, q])
                left.remove(hit[0])
                need(vp.allclose(R[row, q], (c09.row_ref(X[row, q], rs, rc) - da[k]) / ds[k], rtol=1e-9, atol=1e-9), "matrix row of a neighbour", R[row, q])
                G = c33.num_deriv(X[row, q], rs, rc) / ds[k][:, None]
                need(vp.allclose(D[row, q], G, rtol=1e-7, atol=1e-8 * (1 + np.abs(G).max())), "derivative row of a neighbour", D[row, q], G)
            pad = slice(o + m, o + wd)
            need(not X[row, pad].any() and not J[row, pad].any() and not D[row, pad].any(), "padding")
            need(vp.allclose(R[row, pad], -da[k] / ds[k], rtol=1e-9, atol=1e-9), "normalised padding rows")
            if wd > m:
                label("padding")
            o += wd


@sub("inputs", cases(), quick=400, thorough=6000)
def model_inputs(case):
    from matersdk.infer.pwmatmlff.deepmd.preprocess import InferPreprocessor
    t = inputs(case)
    if t is None:
        vp.trivial("no neighbours"); return
    tabs, s, rc, rs, zs, w, da, ds = t
    SS, PP = [], []
    for tab in tabs:
        SS.append(make_structure(tab[0]))
        PP.append(InferPreprocessor(structure=SS[-1], rcut=rc, rcut_smooth=rs, scaling_matrix=s, davg=da, dstd=ds, center_atomic_numbers=zs, nbr_atomic_numbers=zs, max_num_nbrs=w))
    get = [lambda P: P.expand_rc(), lambda P: P.expand_tildeR(), lambda P: P.expand_list_neigh(), lambda P: P.expand_natoms_img()]
    for turn in range(2):                       # in different orders, twice from the same object
        for P, tab in zip(PP, tabs):
            out = {}
            for q in np.random.RandomState(case["dd"] + turn).permutation(4):
                out[int(q)] = get[q](P)
            judge(tab, rc, rs, zs, w, da, ds, (out[0], out[1][0], out[1][1], out[2], out[3]))
    S, tab = SS[0], tabs[0]
    need([x.Z for x in S.species] == tab[0]["Z"] and vp.allclose(S.frac_coords, frac_array(tab[0])), "input structure modified")
    if len(zs) > 1:
        label("several species")
    if tab[0]["Z"] != sorted(tab[0]["Z"]):
        label("unsorted species")


class Recorder:
    """built lazily: torch is imported in the worker only"""
    cls = None


def recorder():
    import torch
    if Recorder.cls is None:
        class M(torch.nn.Module):
            def __init__(self, a):
                super().__init__()
                self.a = torch.nn.Parameter(torch.tensor(float(a), dtype=torch.float64))

            def forward(self, rc, R, D, J, N):
                M.seen = [x.detach().numpy().copy() if hasattr(x, "detach") else np.array(x) for x in (rc, R, D, J, N)]
                M.mode = self.training
                M.dt = [x.dtype for x in (rc, R, D, J)]
                e = (self.a * R[..., 0]).sum((2,)).unsqueeze(-1)
                f = torch.autograd.grad(e.sum(), R, create_graph=True)[0][..., 1:].sum(2) + self.a * rc.sum(2)
                return e.sum(1), e, f, (self.a * D).sum((1, 2, 3)).repeat(1, 3)
        M.__module__ = "c34"; M.__qualname__ = "RecorderModel"
        globals()["RecorderModel"] = M
        Recorder.cls = M
    return Recorder.cls


@sub("infer", st.fixed_dictionaries(dict(k=st.lists(cases(), min_size=1, max_size=2), a=st.integers(-300, 300))), quick=200, thorough=3000)
def infer(case):
    import torch
    from matersdk.infer.pwmatmlff.deepmd.inference import DpInfer
    M = recorder()
    p = fresh_path(".pt")
    some = False
    for nr, k in enumerate(case["k"]):
        a = (case["a"] + 41 * nr) / 100.0
        torch.save(M(a).train(), p)              # the file is written again with another model
        t = inputs(k)
        if t is None:
            continue
        some = True
        tabs, s, rc, rs, zs, w, da, ds = t
        I = DpInfer(pt_file_path=p, device="cpu", rcut=rc, rcut_smooth=rs, davg=da, dstd=ds, center_atomic_numbers=zs, nbr_atomic_numbers=zs, max_num_nbrs=w, scaling_matrix=s)
        for tab in tabs + tabs[:1]:               # one inference object, several structures
            e, ea, fa, vir = I.infer(make_structure(tab[0]))
            judge(tab, rc, rs, zs, w, da, ds, M.seen)
            need(M.mode is False, "the model was not put into evaluation mode")
            need(all(x == torch.float64 for x in M.dt), "model inputs are not double precision", M.dt)
            R, X, D = M.seen[1][0], M.seen[0][0], M.seen[2]
            n = len(tab[0]["Z"])
            need(np.shape(e) == (1,) and vp.allclose(e, a * R[..., 0].sum(), rtol=1e-9, atol=1e-9), "total energy", e)
            need(np.shape(ea) == (n, 1) and vp.allclose(ea[:, 0], a * R[..., 0].sum(1), rtol=1e-9, atol=1e-9), "atomic energies", ea)
            need(np.shape(fa) == (n, 3) and vp.allclose(fa, a * X.sum(1), rtol=1e-9, atol=1e-9), "forces", fa)
            need(np.shape(vir) == (3, 3) and vp.allclose(vir, np.tile(a * D.sum((1, 2, 3)), 3).reshape(3, 3), rtol=1e-9, atol=1e-9), "virial", vir)
    if not some:
        vp.trivial("no neighbours")


@sub("features", cases(), quick=150, thorough=3000)
def features(case):
    """feature extraction from an exported parameter file: one matrix per species pair"""
    import h5py
    from matersdk.infer.pwmatmlff.deepmd.inference_depre import FFInfer
    t = inputs(case)
    if t is None:
        vp.trivial("no neighbours"); return
    tabs, s, rc, rs, zs, w, da, ds = t
    p = fresh_path(".h5")
    W = np.random.RandomState(case["dd"]).randn(2, 3)
    with h5py.File(p, "w") as f:
        f.create_dataset("a.b", data=W)
    F = FFInfer(p, rc, rs, dict(zip(zs, w)), dict(zip(zs, da)), dict(zip(zs, ds)))
    need(set(F.model_params_dict) == {"a.b"} and np.array_equal(F.model_params_dict["a.b"], W), "network parameters")
    for tab in tabs:
        got = F.calc_tildeR(make_structure(tab[0]), s)
        need(set(got) == {"%d_%d" % (a, b) for a in zs for b in zs}, "species pairs", sorted(got))
        for a in zs:
            for b, wd in zip(zs, w):
                c33.eq_blocks(np.asarray(got["%d_%d" % (a, b)]), c33.blocks(tab, rc, rs, a, [b], [wd]), "matrix %d-%d" % (a, b))


@sub("inputs_large", cases(c33.c09.large_cases), quick=6, thorough=150)
def inputs_large(case):
    model_inputs(case)


@sub("inputs_huge", cases(c33.c09.huge_cases), quick=1, thorough=15)
def inputs_huge(case):
    model_inputs(case)
