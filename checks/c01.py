"""C01 structure files: write -> read, including rewriting a path that was read before."""
import numpy as np, os
import vp
from vp import sub, need, label, trivial, fresh_path
from gens import *
from hypothesis import strategies as st

RULE = "a case counts when at least one file was written by the code and read back; distinct by canonical JSON of the case"
ASSUMPTIONS = ["coordinates with |fractional| < 2 and cell entries below 1e3 Angstrom",
               "POSCAR/json reading and writing of the third-party pymatgen package is trusted as the carrier"]


def rd(path, fmt="pwmat", **kw):
    from matersdk.io.publicLayer.structure import DStructure
    s = DStructure.from_file(file_path=path, file_format=fmt, **kw)
    need(type(s) is DStructure, "from_file does not return the project's structure class")
    return s


def same(s, lat, Z, fr, tlat, tfr, what):
    need(s.num_sites == len(Z), what + ": number of atoms", s.num_sites, len(Z))
    need(vp.allclose(s.lattice.matrix, lat, rtol=0, atol=tlat), what + ": lattice", s.lattice.matrix, lat)
    need([x.Z for x in s.species] == list(Z), what + ": species order", [x.Z for x in s.species], Z)
    need(vp.allclose(s.frac_coords, fr, rtol=0, atol=tfr), what + ": coordinates", s.frac_coords, fr)


def tol_lat(lat):
    # six decimals in scientific notation
    return 1.01e-6 * np.maximum(1e-3, 10.0 ** np.floor(np.log10(np.maximum(np.abs(lat), 1e-9)))) + 1e-12


RH = ("ortho", "lower", "general")     # POSCAR needs right-handed cells (pymatgen inverts the others)

HIST = st.lists(st.fixed_dictionaries(dict(
    slot=st.integers(0, 1), c=crystals(1, 6, big=150, rich=True), mag=st.one_of(st.none(), st.lists(st.integers(-500, 500), min_size=6, max_size=6)))),
    min_size=1, max_size=4)


@sub("pwmat_history", HIST, quick=400, thorough=8000)
def pwmat_history(hist):
    """write/read a history over two paths; after each write both paths read back what was last written there."""
    from matersdk.io.pwmat.utils.acextractor import ACExtractor
    paths = [fresh_path(".config"), fresh_path(".config")]
    want = {}
    for op in hist:
        c = op["c"]
        n = len(c["Z"])
        kw = {}
        mags = None
        if op["mag"] is not None:
            mags = [((op["mag"][i % 6] + 500 + 37 * (i // 6)) % 1001 - 500) / 100.0 for i in range(n)]
            kw = dict(site_properties={"magmom": mags})
            label("magmom")
        s = make_structure(c, **kw)
        p = paths[op["slot"]]
        if p in want:
            label("rewritten path")
        s.to(file_path=p, file_format="pwmat", include_magnetic_moments=mags is not None)
        # writing must not disturb the object
        same(s, lat_array(c["lat"]), c["Z"], frac_array(c), 1e-9, 1e-9, "object after writing")
        want[p] = (c, mags)
        for q, (d, m) in want.items():
            lat = lat_array(d["lat"])
            r = rd(q)
            same(r, lat, d["Z"], frac_array(d), tol_lat(lat), 6e-7, "file read back")
            e = ACExtractor(q)
            need(e.get_num_atoms() == len(d["Z"]), "extractor atom count")
            need(vp.allclose(np.asarray(e.get_basis_vectors()).reshape(3, 3), lat, rtol=0, atol=tol_lat(lat)), "extractor lattice")
            need(list(np.asarray(e.get_types())) == d["Z"], "extractor species")
            need(vp.allclose(np.asarray(e.get_coords()).reshape(-1, 3), frac_array(d), rtol=0, atol=6e-7), "extractor coordinates")
            mm = np.asarray(e.get_magmoms(), float)
            need(mm.shape == (len(d["Z"]),) and vp.allclose(mm, m if m is not None else 0.0, rtol=0, atol=5.1e-3), "magnetic moments", mm, m)
            # a second generation (write what was read) is lossless: the text is a fixed point
            q2 = fresh_path(".config")
            r.to(file_path=q2, file_format="pwmat")
            r2 = rd(q2)
            same(r2, r.lattice.matrix, d["Z"], r.frac_coords, 1e-12 + 1e-9 * np.abs(lat), 1e-12, "second generation")


@sub("vasp_roundtrip", st.fixed_dictionaries(dict(c=crystals(1, 8, kinds=RH, big=60, rich=True), c2=crystals(1, 5, kinds=RH))), quick=150, thorough=3000)
def vasp_roundtrip(case):
    """atom.config -> POSCAR -> read, and back; POSCAR groups consecutive equal species, order is kept."""
    d = vp.fresh_dir()
    p = os.path.join(d, "POSCAR")
    for c in (case["c"], case["c2"]):
        s = make_structure(c)
        s.to(file_path=p, file_format="poscar")
        r = rd(p, "vasp")
        same(r, lat_array(c["lat"]), c["Z"], frac_array(c), 1e-6, 1e-6, "POSCAR read back")
        q = os.path.join(d, "atom.config")
        r.to(file_path=q, file_format="pwmat")
        lat = lat_array(c["lat"])
        same(rd(q), lat, c["Z"], frac_array(c), tol_lat(lat) + 1e-6, 2e-6, "POSCAR -> atom.config")


@sub("sorted_read", st.fixed_dictionaries(dict(c=crystals(1, 8, max_kinds=4, kinds=RH, big=80, rich=True), fmt=st.sampled_from(["pwmat", "vasp"]))),
     quick=120, thorough=2000)
def sorted_read(case):
    c = case["c"]
    d = vp.fresh_dir()
    s = make_structure(c)
    p = os.path.join(d, "POSCAR" if case["fmt"] == "vasp" else "atom.config")
    s.to(file_path=p, file_format="poscar" if case["fmt"] == "vasp" else "pwmat")
    r = rd(p, case["fmt"], sort=True)
    order = sorted(range(len(c["Z"])), key=lambda i: c["Z"][i])
    if order != list(range(len(order))):
        label("reordered")
    lat = lat_array(c["lat"])
    same(r, lat, [c["Z"][i] for i in order], frac_array(c)[order], tol_lat(lat) + 1e-6, 2e-6, "sorted read")


@sub("huge", st.fixed_dictionaries(dict(c=crystals(1, 999, kinds=RH, big=1100, every=1, rich=True), c2=crystals(1, 12, kinds=RH), mag=st.lists(st.integers(-500, 500), min_size=6, max_size=6), v=st.booleans())), quick=1, thorough=30)
def huge(case):
    """a thousand atoms and more"""
    if case["v"]:
        vasp_roundtrip(case)
    else:
        pwmat_history([dict(slot=0, c=case["c2"], mag=None), dict(slot=0, c=case["c"], mag=case["mag"])])
