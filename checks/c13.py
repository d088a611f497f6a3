"""C13 high-symmetry k-path files."""
import numpy as np, os
import vp
from vp import sub, need, label, fresh_dir
from gens import *
import again
import c12
vp.SUBS.clear()
from hypothesis import strategies as st

RULE = "a case counts when both files were written and parsed back"
ASSUMPTIONS = ["which points and paths exist is taken from the third-party Setyawan-Curtarolo tables (pymatgen); what the files say about them is checked"]
CASE = st.fixed_dictionaries(dict(s=c12.SYM, dim=st.sampled_from([3, 3, 2]), den=st.one_of(st.integers(3, 80), st.just(10)), den2=st.integers(3, 80)))


def parse_pt(line):
    t = line.split()
    need(len(t) == 4, "line has three coordinates and a label", line)
    return np.array([float(x) for x in t[:3]]), t[3]


@sub("files", CASE, quick=150, thorough=2000)
def files(case):
    from matersdk.calculation.kpath.kpathSampler import KpathSampler
    from pymatgen.symmetry.kpath import KPathSetyawanCurtarolo
    s = c12.sym_structure(case["s"])
    dim = case["dim"]
    ref = KPathSetyawanCurtarolo(s, symprec=0.1, angle_tolerance=5, atol=1e-5).kpath
    if ref is None:
        vp.trivial("no path known")
        return
    pts = {("G" if k == "\\Gamma" else k): np.array(v, float) for k, v in ref["kpoints"].items()}
    paths = [["G" if p == "\\Gamma" else p for p in path] for path in ref["path"]]
    if dim == 2:
        pts = {k: v for k, v in pts.items() if v[2] == 0}
        paths = [[p for p in path if p in pts] for path in paths]
        paths = [p for p in paths if len(p) > 1]
        label("2D")
    K = KpathSampler(structure=s, dimension=dim)
    need(set(K.kpoints) == set(pts) and all(vp.allclose(K.kpoints[k], pts[k]) for k in pts), "high-symmetry points", K.kpoints, pts)
    need([list(p) for p in K.kpaths] == paths, "paths", K.kpaths, paths)
    d = fresh_dir()
    K.HIGHK_file_path = os.path.join(d, "HIGHK")
    K.gen_kpt_path = os.path.join(d, "gen.kpt")
    B = np.linalg.inv(s.lattice.matrix).T       # reciprocal lattice without 2 pi
    # an existing file is replaced, not appended to: write twice with different densities
    for den in (case["den"] / 1000.0, case["den2"] / 1000.0):
        K.output_HIGHK_file()
        K.output_gen_kpt(**(dict(density=den) if den != 0.01 else {}))
        L = open(K.HIGHK_file_path).read().splitlines()[1:]
        got = dict()
        for l in L:
            x, n = parse_pt(l)
            need(n not in got, "point listed twice", n)
            got[n] = x
        need(set(got) == set(pts) and all(vp.allclose(got[k], pts[k], atol=6e-7) for k in pts), "HIGHK content", got, pts)
        L = open(K.gen_kpt_path).read().splitlines()[1:]
        seg = [(a, b) for p in paths for a, b in zip(p, p[1:])]
        need(len(L) == 3 * len(seg), "three lines per segment", len(L), len(seg))
        for i, (a, b) in enumerate(seg):
            n = float(L[3 * i])
            (xa, na), (xb, nb) = parse_pt(L[3 * i + 1]), parse_pt(L[3 * i + 2])
            need((na, nb) == (a, b), "segment labels", (na, nb), (a, b))
            need(vp.allclose(xa, pts[a], atol=6e-7) and vp.allclose(xb, pts[b], atol=6e-7), "segment ends")
            length = np.linalg.norm((pts[b] - pts[a]) @ B)
            q = length / den
            need(n == np.ceil(q) or (abs(q - np.round(q)) < 1e-6 and abs(n - q) < 1.01), "number of points on %s-%s" % (a, b), n, q)
            if abs(abs(B[0] @ B[1]) + abs(B[0] @ B[2]) + abs(B[1] @ B[2])) > 1e-8:
                label("non-orthogonal cell")
    label(case["s"]["kind"])


@sub("whole", st.fixed_dictionaries(dict(kind=st.sampled_from(["sc", "tet", "ort"]), a=st.permutations([2, 4, 8]), Z=st.integers(1, 80), k=st.integers(4, 8))), quick=40, thorough=400)
def whole(case):
    """lengths which are whole multiples of the density, in binary arithmetic without rounding: nothing is rounded up"""
    from matersdk.calculation.kpath.kpathSampler import KpathSampler
    a, b, c = [float(x) for x in case["a"]]
    ax = dict(sc=(a, a, a), tet=(a, a, c), ort=(a, b, c))[case["kind"]]
    s = make_structure(dict(lat=[[int(ax[0] * 1e3), 0, 0], [0, int(ax[1] * 1e3), 0], [0, 0, int(ax[2] * 1e3)]], Z=[case["Z"]], frac=[[0, 0, 0]]))
    if not np.array_equal(s.lattice.matrix, np.diag(ax)):
        vp.trivial("cell not exact")
        return
    K = KpathSampler(structure=s, dimension=3)
    d = fresh_dir()
    K.gen_kpt_path = os.path.join(d, "gen.kpt")
    den = 2.0 ** -case["k"]
    K.output_gen_kpt(density=den)
    L = open(K.gen_kpt_path).read().splitlines()[1:]
    hit = 0
    for i in range(0, len(L), 3):
        (xa, _), (xb, _) = parse_pt(L[i + 1]), parse_pt(L[i + 2])
        x = np.abs(xb - xa)
        if (x > 0).sum() != 1 or not set(x) <= {0, 0.5, 0.25}:
            continue
        q = (x / np.array(ax)).sum() / den
        if q == int(q):
            hit += 1
            need(float(L[i]) == q, "number of points on a segment of a whole number of steps", L[i], q)
    if not hit:
        vp.trivial("no whole segment")


@sub("rewritten", again.rewritten(CASE), quick=20, thorough=400)
def rewritten(cases):
    again.rerun(cases, files)
