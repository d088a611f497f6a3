"""C10 derivatives and covariance of the environment matrices (python)."""
import numpy as np
import vp
from vp import sub, need, label
from gens import *
import brute, c06, c09, again
vp.SUBS.clear()
from hypothesis import strategies as st

RULE = "a case counts when at least one neighbour row is non-zero"
ASSUMPTIONS = c09.ASSUMPTIONS + ["the reference derivative is a complex step through the formula of C09 (exact to rounding)"]


def num_deriv(v, rs, rc):
    """derivative with respect to the centre position (v = neighbour - centre) of the formula of C09, by a complex step: exact to rounding"""
    D = np.zeros((4, 3))
    for k in range(3):
        x = np.array(v, complex); x[k] -= 1e-30j
        r = np.sqrt((x * x).sum())
        s = c09.s_ref(r, rs, rc)
        D[:, k] = np.array([s, s * x[0] / r, s * x[1] / r, s * x[2] / r]).imag / 1e-30
    return D


@sub("derivative", c09.cases(), quick=250, thorough=5000)
def derivative(case):
    from matersdk.feature.deepmd.se_pair import DpseTildeRPairDescriptor
    t = c09.table(case)
    if t is None:
        vp.trivial("cutoff not covered")
        return
    c, v, d, rc, rd, rs, nb = t
    zs = sorted(set(c["Z"]))
    some = False
    for zc in zs:
        for zn in zs:
            T = DpseTildeRPairDescriptor.create("v1", nb, zc, zn, rd, rs)
            m = T.dp_feature_pair_tildeR.shape[1]
            w = m + case["extra"]
            D = np.asarray(T.calc_derivative(max_num_nbrs=w))
            nc = c["Z"].count(zc)
            need(D.shape == (nc, w, 4, 3), "shape", D.shape)
            need(not D[:, m:].any(), "padding columns")
            for r in range(nc):
                for q in range(m):
                    x = T.dp_feature_pair_rc[r, q]
                    n_ = np.linalg.norm(x)
                    if n_ == 0:
                        need(not D[r, q].any(), "padding rows")
                        label("padding row")
                        continue
                    some = True
                    N = num_deriv(x, rs, rd)
                    sc = max(1.0, 1 / n_ ** 2, 1.0 / (rd - rs) ** 2)
                    need(vp.allclose(D[r, q], N, atol=1e-8 * sc, rtol=1e-8), "derivative", D[r, q], N, x, rs, rd)
                    label("inner" if n_ < rs else ("switching" if n_ < rd else "beyond"))
    if not some:
        vp.trivial("no neighbours")


ROT = [(0, 1, 0.6, 0.8), (1, 2, 0.28, 0.96), (0, 2, 0.8, -0.6)]


@sub("large", c09.large_cases(), quick=10, thorough=250)
def large(case):
    derivative(case)


@sub("rotation", st.fixed_dictionaries(dict(k=c09.cases(), rot=st.lists(st.integers(0, 2), min_size=1, max_size=3))), quick=150, thorough=3000)
def rotation(case):
    """rotating the crystal leaves the first column unchanged and rotates the other three"""
    from matersdk.feature.deepmd.se_pair import DpseTildeRPairDescriptor
    from matersdk.io.publicLayer.neigh import StructureNeighborsDescriptor
    from matersdk.io.publicLayer.structure import DStructure
    k = case["k"]
    t = c09.table(k)
    if t is None:
        vp.trivial("cutoff not covered")
        return
    c, v, d, rc, rd, rs, nb = t
    if len(np.unique(np.round(d[(d < rc) & (d > 1e-8)], 5))) == 0:
        vp.trivial("no neighbours")
        return
    Q = np.eye(3)
    for a in case["rot"]:
        i, j, co, si = ROT[a]
        R = np.eye(3); R[i, i] = co; R[j, j] = co; R[i, j] = -si; R[j, i] = si
        Q = Q @ R
    lat = lat_array(c["lat"])
    st2 = DStructure(lattice=lat @ Q, species=[Z2S[z] for z in c["Z"]], coords=frac_array(c))
    nb2 = StructureNeighborsDescriptor.create("v1", structure=st2, rcut=rc, scaling_matrix=k["s"], reformat_mark=True, coords_are_cartesian=True)
    for zc in sorted(set(c["Z"])):
        for zn in sorted(set(c["Z"])):
            A = DpseTildeRPairDescriptor.create("v1", nb, zc, zn, rd, rs)
            B = DpseTildeRPairDescriptor.create("v1", nb2, zc, zn, rd, rs)
            X, Y = A.dp_feature_pair_tildeR, B.dp_feature_pair_tildeR
            need(X.shape == Y.shape, "shapes", X.shape, Y.shape)
            need(vp.allclose(X[:, :, 0], Y[:, :, 0], atol=1e-9), "first column not invariant")
            for r in range(X.shape[0]):
                # order of equidistant neighbours may differ: compare as multisets
                P = np.hstack([X[r][:, :1], X[r][:, 1:] @ Q])
                used = np.zeros(len(P), bool)
                for y in Y[r]:
                    e = np.where(used, 1e9, np.abs(P - y).max(1))          # the nearest row left
                    h = int(e.argmin())
                    need(e[h] < 1e-8, "rows do not co-rotate", y, P)
                    used[h] = True


@sub("history", again.histories(c09.cases()), quick=60, thorough=1500)
def history(case):
    again.run(case, derivative, c06.setup)


@sub("huge", c09.huge_cases(), quick=1, thorough=25)
def huge(case):
    derivative(case)
