"""C06 python neighbour tables."""
import numpy as np
import vp
from vp import sub, need, label
from gens import *
import brute, again
from hypothesis import strategies as st

RULE = "a case counts when at least one atom has at least one neighbour within the cutoff"
ASSUMPTIONS = ["odd supercell scaling that covers the cutoff sphere around every home-cell atom (the documented use)",
               "no neighbour lies within 1e-6 Angstrom of the cutoff sphere (the cutoff is moved off shells)"]


@st.composite
def cases(draw, nmax=5):
    c = draw(crystals(1, nmax, lo=2000, hi=7000, max_kinds=3, flo=-300000, fhi=1300000, big=18, every=12))
    s = [draw(st.sampled_from([3, 3, 3, 3, 3, 3, 5, 1])) for _ in range(3)]
    return dict(c=c, s=s, rc=draw(st.one_of(st.integers(1500, 9000), st.integers(1500, 9000), st.just(6500))))


@st.composite
def dense(draw):
    """100 to 500 neighbours per atom"""
    return dict(c=draw(crystals(1, 3, lo=2000, hi=2500, max_kinds=2, kinds=("ortho", "left"))), s=[7, 7, 7], rc=draw(st.integers(5800, 7400)))


@st.composite
def large(draw):
    """many atoms, or many neighbours per atom"""
    if draw(i3(1, 3)) == 3:
        return draw(dense())
    if draw(st.booleans()):
        Z, fr = bulk(draw(st.integers(0, 2 ** 31)), draw(st.integers(33, 70)), draw(st.integers(1, 5)), 118, -300000, 1300000)
        return dict(c=dict(lat=draw(lattices(9000, 15000, ("ortho", "lower", "left"))), Z=Z, frac=fr), s=draw(st.sampled_from([[3, 3, 3], [3, 3, 3], [3, 3, 1]])), rc=draw(st.integers(3000, 6000)))
    return dict(c=draw(crystals(1, 3, lo=2000, hi=3200, max_kinds=2, kinds=("ortho", "lower", "left"))), s=[draw(st.sampled_from([5, 7])) for _ in range(3)], rc=draw(st.integers(4500, 7500)))


@st.composite
def huge(draw):
    """more atoms than a byte can number"""
    Z, fr = bulk(draw(st.integers(0, 2 ** 31)), draw(st.integers(262, 300)), draw(st.integers(1, 5)), 118, -300000, 1300000)
    return dict(c=dict(lat=draw(lattices(16000, 19000, ("ortho", "left"))), Z=Z, frac=fr), s=[3, 3, 3], rc=draw(st.integers(2500, 3500)))


def setup(case):
    """structure, scaling, and a cutoff covered by the scaling; tables of vectors over a wide range of shifts"""
    c = dedup(case["c"], 0.4)
    s = case["s"]
    lat = lat_array(c["lat"]); fr = frac_array(c)
    want = min(case["rc"] / 1000.0, case.get("cap", 1e9))
    spread = (fr.max(0) - fr.min(0)).max()
    R = brute.range_for(lat, want, spread)
    sh = np.array(list(__import__("itertools").product(*[range(-x, x + 1) for x in R])), int)
    v = brute.pair_table(c, sh)
    d = np.linalg.norm(v, axis=-1)
    h = [(k - 1) // 2 for k in s]
    inside = (np.abs(sh) <= np.array(h)).all(1)
    if (~inside).any():
        want = min(want, d[:, :, ~inside].min() - 1e-3)
    rc = brute.safe_rcut(d, want)
    return c, s, sh, v, d, rc


def expected(c, v, d, rc):
    """rows in home-cell order sorted stably by species; each: list of (dist, Z, vec) without the atom itself"""
    n = len(c["Z"])
    order = sorted(range(n), key=lambda i: c["Z"][i])
    rows = []
    for i in order:
        jj, kk = np.where((d[i] < rc) & (d[i] > 1e-8))
        L = sorted(((d[i, j, k], c["Z"][j], v[i, j, k]) for j, k in zip(jj, kk)), key=lambda t: t[0])
        rows.append((i, L))
    return rows


def match(dist, Z, vec, L, what):
    """the listed neighbours equal L as multisets; distances ascending"""
    need(len(dist) == len(L), what + ": number of neighbours", len(dist), len(L))
    need((np.diff(dist) >= -1e-9).all(), what + ": not sorted by distance", dist)
    if not L:
        return
    need(vp.allclose(dist, [t[0] for t in L], atol=1e-9), what + ": distances", dist, [t[0] for t in L])
    need(vp.allclose(np.linalg.norm(vec, axis=1), dist, atol=1e-9), what + ": position and distance disagree")
    W = np.array([t[2] for t in L]); WZ = np.array([t[1] for t in L])
    used = np.zeros(len(L), bool)
    for p, z in zip(vec, Z):
        k = np.where((np.abs(W - p).max(1) < 1e-8) & (WZ == z) & ~used)[0]
        need(len(k) >= 1, what + ": listed neighbour does not exist (or is listed twice)", p, z)
        used[k[0]] = True


def neighbours(st_, rc, s, turn=0):
    """the table; arguments which have their default value are left out every other time"""
    from matersdk.io.publicLayer.neigh import StructureNeighborsDescriptor
    kw = dict(reformat_mark=True, coords_are_cartesian=True) if turn % 2 else {}
    if list(s) != [3, 3, 3] or turn % 4 < 2:
        kw["scaling_matrix"] = s
    if rc != 6.5 or turn % 2:
        kw["rcut"] = rc
    return StructureNeighborsDescriptor.create("v1", structure=st_, **kw)


@sub("v1_table", cases(), quick=400, thorough=8000)
def v1_table(case):
    c, s, sh, v, d, rc = setup(case)
    if rc < 0.05:
        vp.trivial("cutoff not covered")
        return
    st_ = make_structure(c)
    nb = neighbours(st_, rc, s, case["rc"])
    rows = expected(c, v, d, rc)
    m = max(len(L) for _, L in rows)
    if m == 0:
        vp.trivial("no neighbours")
    Z, D, X = nb.key_nbr_atomic_numbers, nb.key_nbr_distances, nb.key_nbr_coords
    n = len(c["Z"])
    need(Z.shape == (n, m + 1) and D.shape == (n, m + 1) and X.shape == (n, m + 1, 3), "table shapes", Z.shape, D.shape, X.shape, (n, m + 1))
    cart = frac_array(c) @ lat_array(c["lat"])
    for r, (i, L) in enumerate(rows):
        need(int(Z[r, 0]) == c["Z"][i] and abs(D[r, 0]) < 1e-9 and vp.allclose(X[r, 0], cart[i], atol=1e-9), "first column is the centre atom itself")
        k = len(L)
        match(D[r, 1:k + 1], Z[r, 1:k + 1], X[r, 1:k + 1] - cart[i], L, "centre %d" % i)
        need(not Z[r, k + 1:].any() and not D[r, k + 1:].any() and not X[r, k + 1:].any(), "padding is zero")
        if k < m:
            label("padded rows")
    if len(set(s)) > 1:
        label("non-uniform scaling")
    need(vp.allclose(st_.cart_coords, cart) and [x.Z for x in st_.species] == c["Z"], "input structure modified")


@sub("large", large(), quick=24, thorough=600)
def large_table(case):
    v1_table(case)


@sub("huge", huge(), quick=1, thorough=30)
def huge_table(case):
    v1_table(case)


@sub("history", again.histories(cases(nmax=4)), quick=120, thorough=2500)
def history(case):
    again.run(case, v1_table, setup)


BOUNDARY = st.fixed_dictionaries(dict(a=st.lists(st.sampled_from([2, 4, 6, 8]), min_size=3, max_size=3), p=st.lists(st.integers(0, 7), min_size=1, max_size=4, unique=True),
                                      Z=st.lists(st.sampled_from([3, 9, 14]), min_size=4, max_size=4), rc=st.integers(0, 3), half=st.booleans()))


def at_cutoff(case):
    """whole-number cells, atoms on the half grid, a cutoff equal to a distance: structure, cutoff, per atom the neighbours (distance, Z, vector, index) with those exactly at the cutoff"""
    import itertools
    a = np.array(case["a"])
    P = np.array([[(q >> k & 1) * a[k] // 2 for k in range(3)] for q in case["p"]])
    rc = min(a) // 2 if case["half"] else min(a)
    sh = np.array(list(itertools.product((-1, 0, 1), repeat=3))) * a
    Z = case["Z"][:len(P)]
    rows = []
    for i in range(len(P)):
        L = [(P[j] + t - P[i], j) for j in range(len(P)) for t in sh]
        rows.append(sorted(((float(np.sqrt((w ** 2).sum())), Z[j], w.astype(float), j) for w, j in L if 0 < (w ** 2).sum() <= rc * rc), key=lambda t: t[0]))
    if not any(t[0] == rc for L in rows for t in L):
        vp.trivial("no atom at the cutoff")
    return fresh_structure(dict(lat=np.diag(a * 1000).tolist(), Z=Z, frac=(P * 1000000 // a).tolist())), Z, float(rc), rows


@sub("boundary", BOUNDARY, quick=100, thorough=1000)
def boundary(case):
    st_, Z, rc, rows = at_cutoff(case)
    nb = neighbours(st_, rc, [3, 3, 3], case["rc"])
    order = sorted(range(len(Z)), key=lambda i: Z[i])
    need(nb.key_nbr_distances.shape == (len(Z), 1 + max(map(len, rows))), "width with neighbours exactly at the cutoff", nb.key_nbr_distances.shape, max(map(len, rows)))
    for r, i in enumerate(order):
        k = len(rows[i])
        need(not nb.key_nbr_atomic_numbers[r, k + 1:].any(), "padding")
        match(nb.key_nbr_distances[r, 1:k + 1], nb.key_nbr_atomic_numbers[r, 1:k + 1], nb.key_nbr_coords[r, 1:k + 1] - nb.key_nbr_coords[r, 0], [t[:3] for t in rows[i]], "atom %d" % i)
