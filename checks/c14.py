"""C14 IN.KPT / OUT.KPT."""
import numpy as np
import vp
from vp import sub, need, label, fresh_path
from gens import *
from hypothesis import strategies as st

RULE = "a case counts when at least two k-points were parsed and all quantities compared"
ASSUMPTIONS = ["files of the supported kind: 'iflag, a0 = 2, 0' and one k-point per line, an optional label as fifth column",
               "two labelled points on consecutive lines mark a break of the path (the documented jump)", "1 Bohr = 0.529177249 Angstrom"]

KP = st.fixed_dictionaries(dict(k=st.lists(st.integers(-1000000, 1000000), min_size=3, max_size=3), w=st.integers(0, 1000000),
                                lab=st.sampled_from([None, None, None, "G", "M", "K", "X", "GAMMA", "X_1"])))
FILE = st.fixed_dictionaries(dict(k=st.lists(KP, min_size=1, max_size=12), head=st.sampled_from(["2 0", "  2   0", "           2           0"]),
                                  num=st.sampled_from(["%d", "     %d", "%d  # k points"]), fmt=st.sampled_from(["%.6f", "%.8f", "%.6E"]), eol=st.booleans()))
BOHR = 0.529177249


def text(f):
    L = [f["num"] % len(f["k"]), f["head"]]
    for p in f["k"]:
        s = "   " + "   ".join(f["fmt"] % (x / 1e6) for x in p["k"]) + "   " + "%.8f" % (p["w"] / 1e6)
        if p["lab"]:
            s += "   " + p["lab"]
        L.append(s)
    return "\n".join(L) + ("\n" if f["eol"] else "")


def check_file(p, f, ac, lat):
    from matersdk.io.pwmat.input.inkpt import Inkpt
    x = Inkpt(p)
    need(x.get_num_kpts() == len(f["k"]), "number of k-points", x.get_num_kpts(), len(f["k"]))
    need(x.iflag == 2 and x.a0 == 0, "flags", x.iflag, x.a0)
    K = np.array([q["k"] for q in f["k"]]) / 1e6
    need(vp.allclose(x.get_kpt_coords_frac(), K, atol=1e-9), "fractional coordinates")
    need(vp.allclose(x.get_kpt_weights(), [q["w"] / 1e6 for q in f["k"]], atol=1e-9), "weights")
    h = x.get_hsp()
    need(list(h["hsp"]) == [q["lab"] for q in f["k"] if q["lab"]], "labels", h["hsp"])
    need(vp.allclose(np.array(h["coords_frac"]).reshape(-1, 3), np.array([np.array(q["k"]) / 1e6 for q in f["k"] if q["lab"]]).reshape(-1, 3), atol=1e-9), "label coordinates")
    B = 2 * np.pi * np.linalg.inv(lat).T
    C = K @ B
    need(vp.allclose(x.get_kpt_coords_A(ac), C, rtol=1e-8, atol=1e-8), "Cartesian coordinates")
    need(vp.allclose(x.get_kpt_coords_Bohr(ac), C * BOHR, rtol=1e-6, atol=1e-8), "Cartesian coordinates in Bohr")
    d = [0.0]
    for i in range(1, len(K)):
        jump = bool(f["k"][i]["lab"]) and bool(f["k"][i - 1]["lab"])
        if jump:
            label("path break")
        d.append(d[-1] + (0.0 if jump else np.linalg.norm(C[i] - C[i - 1])))
    got = x.get_distance_from_gamma_A(ac)
    need(vp.allclose(got, d, rtol=1e-8, atol=1e-8), "distances along the path", got, d)
    got = x.get_distance_from_gamma_bohr(ac)
    need(vp.allclose(got, np.array(d) * BOHR, rtol=1e-6, atol=1e-8), "distances in Bohr", got, d)


@sub("history", st.fixed_dictionaries(dict(f=st.lists(FILE, min_size=1, max_size=3), c=st.lists(crystals(1, 2, lo=2500, hi=9000), min_size=3, max_size=3))),
     quick=500, thorough=10000)
def history(case):
    """the same path is rewritten with other contents, also the structure file"""
    p = fresh_path("IN.KPT"); ac = fresh_path("atom.config")
    for f, c in zip(case["f"], case["c"]):
        open(p, "w").write(text(f))
        make_structure(c).to(file_path=ac, file_format="pwmat")
        check_file(p, f, ac, lat_array(c["lat"]))
    if all(len(f["k"]) < 2 for f in case["f"]):
        vp.trivial("single k-point")
    if len(case["f"]) > 1:
        label("rewritten")


@st.composite
def long_files(draw):
    """many k-points, expanded from a seed"""
    f = draw(FILE)
    r = np.random.RandomState(draw(st.integers(0, 2 ** 31)))
    n = draw(st.integers(40, 400)); every = draw(st.integers(2, 60))
    f["k"] = [dict(k=[int(x) for x in r.randint(-1000000, 1000001, 3)], w=int(r.randint(0, 1000001)), lab=["G", "M", "K", "X", "X_1"][r.randint(5)] if r.randint(every) == 0 else None) for _ in range(n)]
    return f


@sub("long", st.fixed_dictionaries(dict(f=st.lists(long_files(), min_size=1, max_size=1), c=st.lists(crystals(1, 2, lo=2500, hi=9000), min_size=1, max_size=1))), quick=30, thorough=500)
def long(case):
    history(case)
