"""C11 structure edits."""
import numpy as np
import vp
from vp import sub, need, label
from gens import *
import brute, again
from hypothesis import strategies as st

RULE = "a case counts when the edit or query was compared on a structure with at least two atoms or a lattice shift"
ASSUMPTIONS = ["vacancies are pymatgen dummy species X0+ as documented"]


def rows(s, props=()):
    return [(x.specie.Z,) + tuple(np.round(x.frac_coords, 9)) + tuple(x.properties.get(p) for p in props) for x in s.sites]


CASE = st.fixed_dictionaries(dict(c=crystals(1, 8, max_kinds=4, big=60, rich=True), perm=st.permutations(list(range(8))), absent=st.lists(st.tuples(st.integers(0, 8), st.integers(1, 118)), max_size=2), mag=st.one_of(st.none(), st.lists(st.integers(-500, 500), min_size=8, max_size=8))))


@sub("reorder", CASE, quick=300, thorough=6000)
def reorder(case):
    c = case["c"]
    kw = {}
    props = ()
    if case["mag"] is not None:
        kw = dict(site_properties={"magmom": [(case["mag"][i % 8] + i // 8) / 100 for i in range(len(c["Z"]))]})
        props = ("magmom",)
        label("with moments")
    s = make_structure(c, **kw)
    before = rows(s, props)
    zs = sorted(set(c["Z"]))
    order = [zs[k] for k in case["perm"] if k < len(zs)]
    r = s.reformat_elements([Z2S[z] for z in order])
    want = [b for z in order for b in before if b[0] == z]
    need(rows(r, props) == want, "reordering by a list", rows(r, props), want)
    need(vp.allclose(r.lattice.matrix, s.lattice.matrix), "lattice")
    need(rows(s, props) == before, "input modified")
    s.reformat_elements_()
    want = [b for z in zs for b in before if b[0] == z]
    need(rows(s, props) == want, "ascending reordering", rows(s, props), want)
    if want != before:
        label("really reordered")
    if len(c["Z"]) < 2:
        vp.trivial("one atom")


@sub("vacancies", st.fixed_dictionaries(dict(c=crystals(1, 8, max_kinds=3, big=60, rich=True), vac=st.lists(st.booleans(), min_size=8, max_size=8))), quick=300, thorough=5000)
def vacancies(case):
    from matersdk.io.publicLayer.structure import DStructure
    c = case["c"]
    sp = ["X0+" if case["vac"][i % 8] else Z2S[z] for i, z in enumerate(c["Z"])]
    s = DStructure(lattice=lat_array(c["lat"]), species=sp, coords=frac_array(c))
    need([str(x) for x in s.species] == sp, "harness: dummy species")
    s.remove_vacanies()
    keep = [i for i in range(len(sp)) if sp[i] != "X0+"]
    need([str(x) for x in s.species] == [sp[i] for i in keep], "species left", [str(x) for x in s.species], sp)
    need(vp.allclose(s.frac_coords.reshape(-1, 3), frac_array(c)[keep]), "positions left")
    nv = len(sp) - len(keep)
    label("%s vacancies" % (nv if nv < 2 else ">=2"))


@sub("counts_centroid", CASE, quick=300, thorough=5000)
def counts_centroid(case):
    c = case["c"]
    s = make_structure(c)
    zs = sorted(set(c["Z"]))
    got = [int(x) for x in s.get_natoms()]
    need(got == [len(c["Z"])] + [c["Z"].count(z) for z in zs], "counts, ascending", got)
    order = [zs[k] for k in case["perm"] if k < len(zs)]
    got = [int(x) for x in s.get_natoms(atomic_numbers_order=order)]
    need(got == [len(c["Z"])] + [c["Z"].count(z) for z in order], "counts, requested order", got, order)
    if "absent" in case:
        for k, z in case["absent"]:            # elements of the list that the structure does not contain count zero
            if z not in zs and z not in order:
                order.insert(k % (len(order) + 1), z)
                label("absent element asked for")
        got = [int(x) for x in s.get_natoms(atomic_numbers_order=order)]
        need(got == [len(c["Z"])] + [c["Z"].count(z) for z in order], "counts, with elements that are absent", got, order)
    cart = frac_array(c) @ lat_array(c["lat"])
    need(vp.allclose(s.get_centroid(), cart.mean(0), atol=1e-9), "centroid")
    if len(c["Z"]) < 2:
        vp.trivial("one atom")


@sub("site_index", st.fixed_dictionaries(dict(c=crystals(1, 6, big=40), i=st.integers(0, 39), stack=st.lists(st.integers(0, 6), min_size=6, max_size=6), sh=st.lists(st.integers(-4, 4), min_size=3, max_size=3),
                                              off=st.lists(st.one_of(st.just(0), st.integers(-2000, 2000)), min_size=3, max_size=3),
                                              foff=st.lists(st.sampled_from([0, 0, 0.5, 0.25, -0.37, 1e-3, 1e-6]), min_size=3, max_size=3))), quick=400, thorough=8000)
def site_index(case):
    c = case["c"]
    for k, m in enumerate(case["stack"][: len(c["Z"]) - 1]):     # atoms that share one or two coordinates with the first one
        for a in range(3):
            if m >> a & 1:
                c["frac"][k + 1][a] = c["frac"][0][a]
    c = dedup(c, 0.5)
    s = make_structure(c)
    lat = lat_array(c["lat"]); fr = frac_array(c)
    i = case["i"] % len(fr)
    p = (fr[i] + np.array(case["sh"])) @ lat
    need(s.get_site_index(site_coord=p) == i + 1, "periodic image of atom %d" % i, s.get_site_index(site_coord=p))
    # a position that is no image of any atom
    for q in (p + np.array(case["off"]) / 1000.0, p + np.array(case["foff"]) @ lat):
        f = q @ np.linalg.inv(lat) - fr
        dist = np.abs(f - np.round(f)).max(1).min()
        if dist > 5e-7:
            need(s.get_site_index(site_coord=q) == 0, "no atom there", q)
            label("empty position")


@sub("vacuum", st.fixed_dictionaries(dict(c=crystals(1, 6, big=30, kinds=("ortho",), lo=3000, hi=25000, flo=0, fhi=999999))), quick=200, thorough=3000)
def vacuum(case):
    """orthogonal cells: an axis has vacuum when the cell exceeds the atoms' extent by more than 10 Angstrom"""
    c = case["c"]
    lat = lat_array(c["lat"]); cart = frac_array(c) @ lat
    gap = np.diag(lat) - (cart.max(0) - cart.min(0))
    if (np.abs(gap - 10) < 1e-6).any():
        return
    s = make_structure(c)
    need([bool(x) for x in s.judge_vacuum_exist()] == [bool(g > 10) for g in gap], "vacuum", s.judge_vacuum_exist(), gap)


HC = crystals(1, 6, max_kinds=3)
HIST = st.fixed_dictionaries(dict(c=HC, perm=st.permutations(list(range(8))), i=st.integers(0, 39), stack=st.just([]), sh=st.lists(st.integers(-2, 2), min_size=3, max_size=3),
                                  off=st.lists(st.integers(-500, 500), min_size=3, max_size=3), foff=st.just([0, 0, 0])))


@sub("history", again.histories(HIST), quick=100, thorough=2000)
def history(case):
    """one structure edited in place between the queries"""
    again.run(case, lambda k: (counts_centroid(k), site_index(k)))
