"""C07 neighbour counts and index tables."""
import numpy as np
import vp
from vp import sub, need, label
from gens import *
import brute, c06, again
vp.SUBS.clear()
from hypothesis import strategies as st

RULE = c06.RULE
ASSUMPTIONS = c06.ASSUMPTIONS + ["centre species are present in the structure; padded widths are at least the real maximum"]


@sub("counts", c06.cases(), quick=400, thorough=8000)
def counts(case):
    from matersdk.io.publicLayer.neigh import StructureNeighborsUtils as U
    c, s, sh, v, d, rc = c06.setup(case)
    if rc < 0.05:
        vp.trivial("cutoff not covered")
        return
    st_ = make_structure(c)
    rows = c06.expected(c, v, d, rc)
    m = max(len(L) for _, L in rows)
    if not m:
        vp.trivial("no neighbours")
    need(U.get_max_num_nbrs_real(structure=st_, rcut=rc, scaling_matrix=s) == m, "maximum number of neighbours", m)
    els = sorted(set(c["Z"])) + ([2] if 2 not in c["Z"] else [])
    els = els[::-1] if case["rc"] % 2 else els
    got = U.get_max_num_nbrs_real_element(structure=st_, rcut=rc, nbr_elements=[Z2S[z] for z in els], scaling_matrix=s)
    want = {Z2S[z]: max(sum(t[1] == z for t in L) for _, L in rows) for z in els}
    need({k: int(x) for k, x in got.items()} == want, "maximum number per species", got, want)


@st.composite
def icases(draw):
    k = draw(c06.cases(nmax=4))
    if draw(st.booleans()):
        k["c"]["frac"][0] = [0, 0, 0]
    k["extra"] = draw(st.integers(0, 3))
    k["rev"] = draw(st.booleans())
    return k


@sub("indices", icases(), quick=300, thorough=6000)
def indices(case):
    from matersdk.io.publicLayer.neigh import StructureNeighborsDescriptor, StructureNeighborsUtils as U
    c, s, sh, v, d, rc = c06.setup(case)
    if rc < 0.05:
        vp.trivial("cutoff not covered")
        return
    st_ = make_structure(c)
    nb = c06.neighbours(st_, rc, s, case["rc"])
    zs = sorted(set(c["Z"]))
    if case["rev"]:
        zs = zs[::-1]
    n = len(c["Z"])
    # expected per centre and species: home indices in order of distance, as groups of (nearly) equal distance
    per = {}
    for i in range(n):
        for z in zs:
            jj, kk = np.where((d[i] < rc) & (d[i] > 1e-8))
            L = sorted((d[i, j, k], j + 1) for j, k in zip(jj, kk) if c["Z"][j] == z)
            per[i, z] = L
    # without requested widths: the blocks of one centre species are as wide as its own largest number of neighbours
    for z in zs:
        cen = [i for i in range(n) if c["Z"][i] == z]
        ww = [max(len(per[i, y]) for i in cen) for y in zs]
        T = np.asarray(U.get_nbrs_indices(struct_nbr=nb, center_atomic_numbers=[z], nbr_atomic_numbers=zs))
        need(T.shape == (len(cen), sum(ww)), "table shape without padding", T.shape, (len(cen), ww))
        blocks(T, cen, zs, ww, per, c)
    widths = [max(len(per[i, z]) for i in range(n)) + case["extra"] for z in zs]
    if sum(widths) == 0 or not any(per.values()):
        vp.trivial("no neighbours")
    if 0 in widths:
        return          # a width of zero means "no padding" to the code
    T = U.get_nbrs_indices(struct_nbr=nb, center_atomic_numbers=zs, nbr_atomic_numbers=zs, max_num_nbrs=widths)
    T = np.asarray(T)
    need(T.shape == (n, sum(widths)), "table shape", T.shape, (n, sum(widths)))
    order = [i for z in zs for i in range(n) if c["Z"][i] == z]
    blocks(T, order, zs, widths, per, c)


def blocks(T, order, zs, widths, per, c):
    for r, i in enumerate(order):
        o = 0
        for z, w in zip(zs, widths):
            blk = [int(x) for x in T[r, o:o + w]]
            o += w
            L = per[i, z]
            need(all(x == 0 for x in blk[len(L):]), "padding entries are zero", blk, L)
            if len(L) < w and [0, 0, 0] in c["frac"]:
                label("padding with an atom at the origin")
            got = blk[:len(L)]
            # compare by groups of equal distance
            k = 0
            while k < len(L):
                e = k
                while e < len(L) and L[e][0] - L[k][0] < 1e-6:
                    e += 1
                if e < len(L) and L[e][0] - L[e - 1][0] < 1e-5:
                    k = len(L)
                    need(sorted(got) == sorted(x[1] for x in L), "neighbour indices", got, L)
                    break
                need(sorted(got[k:e]) == sorted(x[1] for x in L[k:e]), "neighbour indices of centre %d" % i, got, L)
                k = e


@st.composite
def ilarge(draw, base=c06.large):
    k = draw(base())
    k.update({x: y for x, y in draw(icases()).items() if x not in k})
    return k


@sub("large", ilarge(), quick=16, thorough=400)
def large(case):
    counts(case)
    indices(case)


@sub("history", again.histories(icases()), quick=100, thorough=2000)
def history(case):
    again.run(case, lambda k: (counts(k), indices(k)), c06.setup)


@sub("boundary", c06.BOUNDARY, quick=100, thorough=1000)
def boundary(case):
    """neighbours exactly at the cutoff are in the table, so they are counted"""
    from matersdk.io.publicLayer.neigh import StructureNeighborsUtils as U
    st_, Z, rc, rows = c06.at_cutoff(case)
    m = max(map(len, rows))
    need(U.get_max_num_nbrs_real(structure=st_, rcut=rc, scaling_matrix=[3, 3, 3]) == m, "maximum number of neighbours", m)
    zs = sorted(set(Z))
    want = {z: max(sum(t[1] == z for t in L) for L in rows) for z in zs}
    got = U.get_max_num_nbrs_real_element(structure=st_, rcut=rc, nbr_elements=[Z2S[z] for z in zs], scaling_matrix=[3, 3, 3])
    need({k: int(x) for k, x in got.items()} == {Z2S[z]: want[z] for z in zs}, "maximum number per species", got, want)
    if min(want.values()) == 0:
        return
    T = np.asarray(U.get_nbrs_indices(c06.neighbours(st_, rc, [3, 3, 3], case["rc"]), zs, zs, [want[z] for z in zs]))
    need(T.shape == (len(Z), sum(want.values())), "counts are enough for the table", T.shape)
    order = [i for z in zs for i in range(len(Z)) if Z[i] == z]
    for r, i in enumerate(order):
        o = 0
        for z in zs:
            need(sorted(int(x) for x in T[r, o:o + want[z]] if x) == sorted(t[3] + 1 for t in rows[i] if t[1] == z), "neighbour indices", T[r], i, z)
            o += want[z]


@sub("huge", ilarge(c06.huge), quick=1, thorough=25)
def huge(case):
    counts(case)
    indices(case)
