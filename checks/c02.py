"""C02 atom.config / frame text parsing."""
import numpy as np
import vp
from vp import sub, need, label, fresh_path
from gens import *
import mvt
from hypothesis import strategies as st

RULE = "a case counts when a generated text was parsed and all its quantities were compared with the generating numbers"
ASSUMPTIONS = ["well-formed PWmat texts: one block per keyword, keywords as PWmat writes them in any letter case"]


def tol(k, x):
    x = np.abs(np.asarray(x, float))
    return {"box": 1e-12 + 1e-11 * x, "coords": 1e-11 + 1e-11 * x, "etot": 1e-9 + 2e-10 * x, "fatoms": 1e-11 + 1e-11 * x, "virial": 1e-11 + 1e-11 * x,
            "eatoms": 1e-12 + 1e-11 * x, "magmoms": 1e-11 + 1e-11 * x, "types": 0 * x}[k]


def eq(k, got, want, what):
    got = np.asarray(got, float); want = np.asarray(want, float)
    need(got.shape == want.shape, "%s %s: shape" % (what, k), got.shape, want.shape)
    need((np.abs(got - want) <= tol(k, want)).all(), "%s %s" % (what, k), got, want)


def raises(fn):
    try:
        fn()
    except Exception:
        return True
    return False


ONE = mvt.movement(1, 1, nmax=6, nmin=1, big=(1, 150), rich=True)


@sub("frame_string", ONE, quick=600, thorough=15000)
def frame_string(mv):
    from matersdk.io.pwmat.utils.acextractor import ACstrExtractor
    fr = mv["frames"][0]
    e = ACstrExtractor(mvt.frame_text(fr, mv["opts"], mv["sty"]))
    w = mvt.arrays(fr)
    need(e.get_num_atoms() == len(fr["Z"]), "atom count")
    eq("box", e.get_basis_vectors(), w["box"], "string")
    eq("types", e.get_types(), w["types"], "string")
    eq("coords", e.get_coords(), w["coords"], "string")
    eq("etot", e.get_etot(), w["etot"], "string")
    eq("fatoms", e.get_fatoms(), w["fatoms"], "string")
    for k, f in (("virial", e.get_virial), ("eatoms", e.get_eatoms), ("magmoms", e.get_magmoms)):
        if k in w:
            eq(k, f(), w[k], "string")
            label("with " + k)
        else:
            need(raises(f), "missing %s block is not reported" % k)
            label("without " + k)


@sub("file_vs_string", st.fixed_dictionaries(dict(mv=ONE, head=st.sampled_from(["%d atoms", "  %d atoms", "%d ATOMS", " %d Atoms", "%d atoms,Iteration (fs) =  0.1E+01, Etot,Ep,Ek (eV) = 1 2 3"]),
                                                  eol=st.booleans())), quick=400, thorough=8000)
def file_vs_string(case):
    from matersdk.io.pwmat.utils.acextractor import ACExtractor, ACstrExtractor
    from matersdk.io.publicLayer.structure import DStructure
    mv = case["mv"]
    fr = mv["frames"][0]
    text = mvt.frame_text(fr, mv["opts"], mv["sty"])
    text = (case["head"] % len(fr["Z"])) + "\n" + text.split("\n", 1)[1]
    if not case["eol"]:
        text = text.rstrip("\n")
    w = mvt.arrays(fr)
    p = fresh_path(".config")
    open(p, "w").write(text)
    for what, e in (("file", ACExtractor(p)), ("string", ACstrExtractor(text))):
        need(e.get_num_atoms() == len(fr["Z"]), what + " atom count")
        eq("box", e.get_basis_vectors(), w["box"], what)
        eq("types", e.get_types(), w["types"], what)
        eq("coords", e.get_coords(), w["coords"], what)
        if "magmoms" in w:
            eq("magmoms", e.get_magmoms(), w["magmoms"], what)
        elif what == "file":
            eq("magmoms", e.get_magmoms(), np.zeros(len(fr["Z"])), what)
    a = DStructure.from_file(file_path=p, file_format="pwmat")
    b = DStructure.from_str(str_content=text, str_format="pwmat")
    for s in (a, b):
        need(type(s) is DStructure, "structure class")
        need([x.Z for x in s.species] == fr["Z"], "structure species")
        eq("box", s.lattice.matrix.reshape(-1), w["box"], "structure")
        eq("coords", s.frac_coords.reshape(-1), w["coords"], "structure")
    eq("fatoms", b.get_atomic_force().reshape(-1), w["fatoms"], "structure from string")
    eq("eatoms", b.get_atomic_energy().reshape(-1), w["eatoms"] if "eatoms" in w else np.zeros(len(fr["Z"])), "structure from string")


@sub("huge", mvt.movement(1, 1, nmax=1000, nmin=1000, big=(1, 1500), every=1, rich=True), quick=3, thorough=60)
def huge(mv):
    """a thousand atoms and more"""
    frame_string(mv)
    file_vs_string(dict(mv=mv, head="%d atoms", eol=True))
