"""C08 graph adjacency matrix."""
import numpy as np
import vp
from vp import sub, need, label
from gens import *
import brute, c06, again
vp.SUBS.clear()
from hypothesis import strategies as st

RULE = "a case counts when the matrix has at least one non-zero entry"
ASSUMPTIONS = ["no neighbour lies within 1e-6 Angstrom of the cutoff sphere"]


@sub("adjacency", c06.cases(nmax=6), quick=600, thorough=15000)
def adjacency(case):
    from matersdk.feature.graph.edge import AdjacentMatrix
    c, s, sh, v, d, rc = c06.setup(case)
    if rc < 0.05:
        vp.trivial("cutoff not covered")
        return
    n = len(c["Z"])
    want = np.array([[np.count_nonzero((d[i, j] < rc) & (d[i, j] > 1e-8)) for j in range(n)] for i in range(n)])
    st_ = make_structure(c)
    A = np.asarray(AdjacentMatrix(structure=st_, rcut=rc, scaling_matrix=s).get_adjacent_matrix())
    need(A.shape == (n, n) and (A == want).all(), "adjacency counts", A, want)
    need((A == A.T).all(), "not symmetric")
    if not want.any():
        vp.trivial("no bonds")
    if len(set(s)) > 1:
        label("non-uniform scaling")
    if (np.diag(want) > 0).any():
        label("bonds to own images")


@sub("large", c06.large(), quick=24, thorough=600)
def large(case):
    adjacency(case)


@sub("scaled_shells", st.fixed_dictionaries(dict(c=crystals(1, 3, lo=2500, hi=6000, big=12), s=st.lists(st.sampled_from([1, 3, 5, 7]), min_size=3, max_size=3),
                                                 rc=st.integers(500, 15000))), quick=200, thorough=4000)
def scaled_shells(case):
    """cutoffs larger than the supercell: bonds are exactly those to atoms of the supercell"""
    from matersdk.feature.graph.edge import AdjacentMatrix
    c = dedup(case["c"], 0.4)
    s = case["s"]
    sh = brute.shifts(s)
    d = np.linalg.norm(brute.pair_table(c, sh), axis=-1)
    rc = brute.safe_rcut(d, case["rc"] / 1000.0)
    n = len(c["Z"])
    want = np.array([[np.count_nonzero((d[i, j] < rc) & (d[i, j] > 1e-8)) for j in range(n)] for i in range(n)])
    A = np.asarray(AdjacentMatrix(structure=make_structure(c), rcut=rc, scaling_matrix=s).get_adjacent_matrix())
    need(A.shape == (n, n) and (A == want).all(), "adjacency counts", A, want)


@sub("boundary", st.fixed_dictionaries(dict(a=st.lists(st.sampled_from([4, 8]), min_size=3, max_size=3), p=st.lists(st.lists(st.integers(0, 7), min_size=3, max_size=3), min_size=1, max_size=4),
                                            Z=st.lists(st.integers(1, 40), min_size=4, max_size=4), rc=st.integers(1, 9))), quick=150, thorough=2000)
def boundary(case):
    """whole-number cells, positions and cutoffs (no rounding anywhere): an atom exactly at the cutoff is within it"""
    from matersdk.feature.graph.edge import AdjacentMatrix
    a = np.array(case["a"])
    P = []
    for p in case["p"]:
        p = [x % y for x, y in zip(p, a)]
        if p not in P:
            P.append(p)
    P = np.array(P); n = len(P); rc = case["rc"]
    st_ = fresh_structure(dict(lat=np.diag(a * 1000).tolist(), Z=case["Z"][:n], frac=(P * 1000000 // a).tolist()))
    sh = np.array(list(__import__("itertools").product(range(-2, 3), repeat=3))) * a
    want = np.array([[sum(0 < ((P[j] + t - P[i]) ** 2).sum() <= rc * rc for t in sh) for j in range(n)] for i in range(n)])
    A = np.asarray(AdjacentMatrix(structure=st_, rcut=float(rc), scaling_matrix=[5, 5, 5]).get_adjacent_matrix())
    need((A == want).all(), "bonds at the cutoff", A, want)
    if not any(((P[j] + t - P[i]) ** 2).sum() == rc * rc for t in sh for i in range(n) for j in range(n)):
        vp.trivial("no atom at the cutoff")


@sub("even_scaling", st.fixed_dictionaries(dict(c=crystals(1, 2), s=st.lists(st.integers(-1, 6), min_size=3, max_size=3))), quick=100, thorough=500)
def even_scaling(case):
    from matersdk.feature.graph.edge import AdjacentMatrix
    s = case["s"]
    ok = all(k > 0 and k % 2 for k in s)
    if ok:
        vp.trivial("valid scaling")
        AdjacentMatrix(structure=make_structure(case["c"]), rcut=3.0, scaling_matrix=s)
        return
    try:
        AdjacentMatrix(structure=make_structure(case["c"]), rcut=3.0, scaling_matrix=s)
    except Exception:
        return
    raise vp.Violation("an even or non-positive scaling is accepted: %s" % s)


@sub("history", again.histories(c06.cases(nmax=5)), quick=120, thorough=2500)
def history(case):
    again.run(case, adjacency, c06.setup)


@sub("huge", c06.huge(), quick=1, thorough=30)
def huge(case):
    adjacency(case)
