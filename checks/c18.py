"""C18 structure perturbation."""
import os
import numpy as np
import vp
from vp import sub, need, label, fresh_dir
from gens import *
from hypothesis import strategies as st

RULE = "a case counts when a cell or atom perturbation of non-zero size was produced and measured"
ASSUMPTIONS = ["right-handed cells (left-handed ones are rejected by an assertion, as in dpdata)",
               "the random stream is numpy's global generator, seeded by the case; statistical bounds on displacement sizes are six standard deviations wide"]
CELLS = dict(lo=4000, hi=12000, kinds=("ortho", "lower", "general"))


def measure(c, s, lat0, cart_frac0):
    """symmetric deformation M recovered from metric tensors, displacements in the perturbed cell"""
    L1 = s.lattice.matrix
    need(vp.allclose(np.triu(L1, 1), 0, atol=1e-8) and (np.diag(L1) > 0).all(), "cell is not lower triangular with positive diagonal", L1)
    Li = np.linalg.inv(lat0)
    M2 = Li @ (L1 @ L1.T) @ Li.T
    w, V = np.linalg.eigh((M2 + M2.T) / 2)
    M = V @ np.diag(np.sqrt(w)) @ V.T
    df = s.frac_coords - cart_frac0
    return M, df - np.round(df)


def base(case):
    c = case["c"]
    st_ = make_structure(c)
    lat0 = lat_array(c["lat"]); f0 = frac_array(c)
    return c, st_, lat0, f0


def common(c, st_, out, n, lat0, f0):
    need(len(out) == n, "number of structures", len(out), n)
    need(np.array_equal(st_.lattice.matrix, lat0) and vp.allclose(st_.frac_coords, f0, atol=1e-12) and [x.Z for x in st_.species] == c["Z"], "input structure modified")
    for s in out:
        need([x.Z for x in s.species] == c["Z"], "species or order changed", [x.Z for x in s.species], c["Z"])
        need(s is not st_, "the input itself was returned")


GEN = st.fixed_dictionaries(dict(c=crystals(1, 6, **CELLS), n=st.integers(0, 4), f=st.integers(0, 150), d=st.sampled_from([0, 0, 1, 10, 50, 200]), seed=st.integers(0, 2 ** 31)))


@sub("bounds", GEN, quick=500, thorough=8000)
def bounds(case):
    from matersdk.adalearn.generator.perturbation import PerturbStructure
    c, st_, lat0, f0 = base(case)
    f, d = case["f"] / 1000.0, case["d"] / 1000.0
    np.random.seed(case["seed"])
    out = PerturbStructure(st_).perturb(pert_num=case["n"], cell_pert_fraction=f, atom_pert_distance=d)
    common(c, st_, out, case["n"], lat0, f0)
    for s in out:
        M, df = measure(c, s, lat0, f0)
        dg = np.abs(np.diag(M) - 1).max(); of = np.abs(M - np.diag(np.diag(M))).max()
        need(dg <= f + 1e-6 and of <= 0.5 * f + 1e-6, "cell deformed by more than the requested fraction", dg, of, f)
        if f == 0:
            need(vp.allclose(s.lattice.matrix @ s.lattice.matrix.T, lat0 @ lat0.T, atol=1e-9), "cell changed with fraction 0")
        mv = np.linalg.norm(df @ s.lattice.matrix, axis=1)
        if d == 0:
            need(mv.max() < 1e-7, "atoms moved with distance 0 (fractional coordinates follow the cell)", mv.max())
        else:
            need(mv.max() < 6 * d, "atom moved much further than the requested distance", mv.max(), d)
            need(mv.min() > 0, "atom did not move")
    if len(out) > 1 and (f > 0 or d > 0):
        need(not vp.allclose(out[0].cart_coords, out[1].cart_coords, atol=1e-10, rtol=0) or (d == 0 and not vp.allclose(out[0].lattice.matrix, out[1].lattice.matrix, atol=1e-12, rtol=0)),
             "two copies are identical")
        label("several copies")
    if (f == 0 and d == 0) or not case["n"]:
        vp.trivial("no perturbation")
    label("f=0" if f == 0 else "cell deformed"); label("d=0" if d == 0 else "atoms moved")


STAT = st.fixed_dictionaries(dict(c=crystals(6, 10, **CELLS), f=st.sampled_from([0, 30, 100]), d=st.sampled_from([1, 20, 300]), seed=st.integers(0, 2 ** 31)))


@sub("statistics", STAT, quick=40, thorough=600)
def statistics(case):
    """typical displacement equals the requested distance, isotropic, independent per atom; cell entries spread over the documented interval"""
    from matersdk.adalearn.generator.perturbation import PerturbStructure
    c, st_, lat0, f0 = base(case)
    f, d = case["f"] / 1000.0, case["d"] / 1000.0
    n = case.get("n", 120)
    np.random.seed(case["seed"])
    out = PerturbStructure(st_).perturb(pert_num=n, cell_pert_fraction=f, atom_pert_distance=d)
    common(c, st_, out, n, lat0, f0)
    D, Ms = [], []
    for s in out:
        M, df = measure(c, s, lat0, f0)
        Ms.append(M)
        # displacement in the unrotated frame of the deformed cell
        D.append(df @ (lat0 @ M))
    D = np.array(D); N = D.shape[0] * D.shape[1]
    ms = (D ** 2).sum(-1).mean() / d ** 2
    need(abs(ms - 1) < 6 * np.sqrt(2 / (3.0 * N)), "mean square displacement", ms)
    pc = (D ** 2).mean((0, 1)) * 3 / d ** 2
    need(np.abs(pc - 1).max() < 7 * np.sqrt(2.0 / N), "displacements are not isotropic", pc)
    need(np.abs(D.mean((0, 1))).max() < 6.5 * d / np.sqrt(3 * N), "displacements are biased", D.mean((0, 1)))
    co = (D[:, 0] * D[:, 1]).mean() * 3 / d ** 2
    need(abs(co) < 7 / np.sqrt(3 * n), "atoms move together", co)
    if f:
        Ms = np.array(Ms)
        dg = np.array([np.diag(m) - 1 for m in Ms]).reshape(-1) / f
        of = np.array([m[i, j] for m in Ms for i, j in ((0, 1), (0, 2), (1, 2))]) / (0.5 * f)
        for name, x in (("diagonal", dg), ("off-diagonal", of)):
            need(x.max() > 0.9 and x.min() < -0.9, "cell deformation does not use the documented interval", name, x.min(), x.max())
            need(abs((x ** 2).mean() - 1 / 3.0) < 6.5 * 0.2981 / np.sqrt(x.size), "cell deformation is not uniform", name, (x ** 2).mean())
        label("cell")


LARGE = st.fixed_dictionaries(dict(c=crystals(40, 60, **CELLS), f=st.sampled_from([0, 50]), d=st.sampled_from([1, 20, 300]), seed=st.integers(0, 2 ** 31), n=st.just(300)))


@sub("statistics_large", LARGE, quick=5, thorough=60)
def statistics_large(case):
    """the same with twelve thousand displacements and more"""
    statistics(case)


@sub("rejects", st.tuples(st.integers(1, 1000), st.booleans()), quick=20, thorough=60)
def rejects(case):
    from matersdk.adalearn.generator.perturbation import PerturbStructure
    st_ = make_structure(dict(lat=[[5000, 0, 0], [0, 5000, 0], [0, 0, 5000]], Z=[3], frac=[[0, 0, 0]]))
    x = -case[0] / 1000.0
    try:
        PerturbStructure(st_).perturb(1, x if case[1] else 0.01, 0.01 if case[1] else x)
    except Exception:
        return
    need(False, "negative parameter accepted", x)


@sub("batch", st.fixed_dictionaries(dict(c=st.lists(crystals(1, 5, **CELLS), min_size=1, max_size=3), n=st.one_of(*[st.integers(1, 12)] * 9, st.integers(90, 130)), f=st.integers(0, 100), seed=st.integers(0, 2 ** 31),
                                         pre=st.booleans())), quick=100, thorough=1500)
def batch(case):
    from matersdk.adalearn.generator.perturbation import BatchPerturbStructure
    from matersdk.io.publicLayer.structure import DStructure
    dirs = []
    for c in case["c"]:
        d = fresh_dir(); dirs.append(d)
        make_structure(c).to(file_path=os.path.join(d, "atom.config"), file_format="pwmat")
        if case["pre"]:
            os.mkdir(os.path.join(d, "structures"))
    before = [open(os.path.join(d, "atom.config")).read() for d in dirs]
    np.random.seed(case["seed"])
    f = case["f"] / 1000.0
    BatchPerturbStructure.batch_perturb(dirs, case["n"], f, 0.0)
    for d, c, b in zip(dirs, case["c"], before):
        need(open(os.path.join(d, "atom.config")).read() == b, "input file changed")
        need(sorted(os.listdir(os.path.join(d, "structures"))) == sorted("%d.config" % i for i in range(case["n"])), "files", os.listdir(os.path.join(d, "structures")))
        lat0, f0 = lat_array(c["lat"]), frac_array(c)
        seen = []
        for i in range(case["n"]):
            s = DStructure.from_file(os.path.join(d, "structures", "%d.config" % i), "pwmat")
            need([x.Z for x in s.species] == c["Z"], "species or order")
            Li = np.linalg.inv(lat0); L1 = s.lattice.matrix
            M2 = Li @ (L1 @ L1.T) @ Li.T
            w, V = np.linalg.eigh((M2 + M2.T) / 2); M = V @ np.diag(np.sqrt(w)) @ V.T
            need(np.abs(np.diag(M) - 1).max() <= f + 1e-4 and np.abs(M - np.diag(np.diag(M))).max() <= f / 2 + 1e-4, "deformation of file", i)
            df = s.frac_coords - f0; df -= np.round(df)
            need(np.abs(df).max() < 1e-8, "fractional coordinates", i)
            seen.append(L1)
        if f > 0.005 and case["n"] > 1:
            need(not vp.allclose(seen[0], seen[-1], atol=1e-9), "files hold the same structure")
    if len(dirs) > 1:
        label("several systems")
