"""C05 supercells and home-cell (key) indices."""
import numpy as np
import vp
from vp import sub, need, label
from gens import *
import brute, again
from hypothesis import strategies as st

QX = 2
RULE = "a case counts when a supercell with more than one cell was built and compared image by image"
ASSUMPTIONS = ["odd scaling factors (documented requirement)"]
CASE = st.fixed_dictionaries(dict(c=crystals(1, 6, lo=2500, hi=9000, max_kinds=4, big=14, rich=True, every=12), s=st.lists(st.sampled_from([1, 3, 3, 5]), min_size=3, max_size=3), long=st.one_of(st.just([0, 0]), st.tuples(st.integers(0, 2), st.sampled_from([7, 9, 15]))),
                                  arr=st.booleans()))


@sub("supercell", CASE, quick=400, thorough=8000)
def supercell(case):
    c, s = case["c"], list(case["s"])
    if case["long"][1] and len(c["Z"]) <= 6:        # long along one axis
        s = [min(x, 3) for x in s]; s[case["long"][0]] = case["long"][1]; s[case["long"][0] - 1] = 1
    if s == [1, 1, 1]:
        vp.trivial("single cell")
    st_ = make_structure(c)
    n = len(c["Z"])
    lat = lat_array(c["lat"]); cart = frac_array(c) @ lat
    arg = np.array(s) if case["arr"] else list(s)
    sh = brute.shifts(s)
    uns = st_.make_supercell_(scaling_matrix=arg, reformat_mark=False)
    srt = st_.make_supercell_(scaling_matrix=arg)
    key = np.asarray(st_.get_key_idxs(scaling_matrix=arg))
    for what, sc in (("unsorted", uns), ("sorted", srt)):
        need(vp.allclose(sc.lattice.matrix, np.diag(s) @ lat, atol=1e-10), what + " lattice")
        need(sc.num_sites == n * len(sh), what + " number of atoms", sc.num_sites, n * len(sh))
        want = (cart[:, None, :] + (sh @ lat)[None, :, :])          # (n, ncell, 3)
        wz = np.repeat(np.array(c["Z"]), len(sh))
        wp = want.reshape(-1, 3)
        got = sc.cart_coords; gz = np.array([x.Z for x in sc.species])
        # exact multiset comparison: each expected image is matched to one distinct atom
        used = np.zeros(len(got), bool)
        for p, z in zip(wp, wz):
            k = np.where((np.abs(got - p).max(1) < 1e-9) & (gz == z) & ~used)[0]
            need(len(k) >= 1, what + " image missing", p, z)
            used[k[0]] = True
    need(vp.allclose(uns.cart_coords[:n], cart, atol=1e-9) and [x.Z for x in uns.species[:n]] == c["Z"], "home-cell atoms come first, in order")
    gz = [x.Z for x in srt.species]
    need(gz == sorted(gz), "sorted supercell is ordered by atomic number", gz)
    # stability: sorting the unsorted one stably gives the sorted one
    order = sorted(range(uns.num_sites), key=lambda i: uns.species[i].Z)
    need(vp.allclose(uns.cart_coords[order], srt.cart_coords, atol=1e-9), "stable order within an element")
    # key indices
    need(len(key) == n and list(key) == sorted(set(int(x) for x in key)), "key indices are distinct and ascending", key)
    ho = sorted(range(n), key=lambda i: c["Z"][i])
    need(vp.allclose(srt.cart_coords[key], cart[ho], atol=1e-9) and [gz[k] for k in key] == [c["Z"][i] for i in ho],
         "key indices are the home-cell atoms", key)
    # input untouched
    need(vp.allclose(st_.lattice.matrix, lat) and vp.allclose(st_.cart_coords, cart) and [x.Z for x in st_.species] == c["Z"], "input modified")
    if len(set(c["Z"])) > 1:
        label("several species")
    if len(set(s)) > 1:
        label("non-uniform scaling")


@sub("history", again.histories(CASE), quick=60, thorough=1500)
def history(case):
    """one object edited in place, or objects with the same formula, between the calls"""
    again.run(case, supercell)
