"""C22 Movement: trajectory access."""
import os
import numpy as np
import vp
from vp import sub, need, label, fresh_path
from gens import *
import mvt, brute, c06
vp.SUBS.clear()
from hypothesis import strategies as st

RULE = "a case counts when the trajectory has at least two frames"
ASSUMPTIONS = ["texts as PWmat writes them (separator line of dashes after each frame); either all frames carry a stress or none"]
SHORT = " %d atoms,Iteration=    %s, Etot,Ep,Ek=   %s  %s   %s"


def text(mv, short):
    t = ""
    for f in mv["frames"]:
        ft = mvt.frame_text(f, mv["opts"], mv["sty"])
        if short:
            ft = SHORT % (len(f["Z"]), mvt.e10(f["t"] / 1e3), mvt.e10(f["etot"] / 1e4), mvt.e10(f["ep"] / 1e4), mvt.e10(f["ek"] / 1e4)) + "\n" + ft.split("\n", 1)[1]
        t += ft + " " + "-" * mv["dashes"] + "\n"
    return t


def same_structure(s, f, what):
    need([x.Z for x in s.species] == f["Z"], what + ": species")
    lat = lat_array(f["lat"])
    need(vp.allclose(s.lattice.matrix, lat, atol=1e-10), what + ": lattice")
    need(vp.allclose(s.frac_coords, frac_array(f), atol=1e-10), what + ": coordinates")
    need(vp.allclose(s.cart_coords, frac_array(f) @ lat, atol=1e-9), what + ": cartesian coordinates")
    n = len(f["Z"])
    need(vp.allclose(s.get_atomic_force(), np.array(f["force"]) / 1e6 if "force" in f else np.zeros((n, 3)), atol=1e-9), what + ": forces")
    need(vp.allclose(s.get_atomic_energy(), np.array(f["eatom"])[:, 0] / 1e6 if "eatom" in f else np.zeros(n), atol=1e-9), what + ": atomic energies")


GEN = st.fixed_dictionaries(dict(mv=st.lists(mvt.movement(1, 5, 5, same_atoms=False, big=(30, 40), rich=True), min_size=1, max_size=2), short=st.booleans(), order=st.permutations(range(5))))


@sub("frames", GEN, quick=500, thorough=6000)
def frames(case):
    from matersdk.io.pwmat.output.movement import Movement
    p = fresh_path("MOVEMENT")
    for mv in case["mv"]:                   # the same path holds other trajectories later
        mv = mvt.classic(mv)
        t = text(mv, case["short"])
        open(p, "w").write(t)
        m = Movement(p)
        F = mv["frames"]; nf = len(F)
        need(len(m.get_chunksize()) == nf, "number of frames", len(m.get_chunksize()), nf)
        need(sum(m.get_chunksize()) == t.count("\n"), "frame sizes do not add up to the file")
        sl = list(m.get_chunkslice())
        need(sl[0] == 0 and len(sl) == nf + 1 and list(np.diff(sl)) == list(m.get_chunksize()), "frame slices", sl)
        for k in [x for x in case["order"] if x < nf] + list(range(nf - 1, 4, -1)):
            f = F[k]
            if hasattr(m, "_get_frame_str"):
                need(m._get_frame_str(k) == "".join(l + "\n" for l in t.split("\n")[sl[k]:sl[k + 1]]), "frame text", k)
            same_structure(m.get_frame_structure(k), f, "frame %d" % k)
            need(vp.allclose(m.get_frame_energy(k), [f["etot"] / 1e4, f["ep"] / 1e4, f["ek"] / 1e4], rtol=2e-10, atol=1e-9), "energies of frame", k, m.get_frame_energy(k))
            need(vp.allclose(m.get_frame_virial(k), np.array(f["virial"]) / 1e6 if "virial" in f else np.zeros((3, 3)), rtol=1e-10, atol=1e-9), "virial of frame", k)
            need(vp.allclose(m.get_frame_volume(k), abs(np.linalg.det(lat_array(f["lat"]))), rtol=1e-10), "volume of frame", k)
        S = m.get_all_frame_structures()
        need(len(S) == nf, "number of structures")
        S2, et, ep, ek, vir = m.get_all_frame_structures_info()
        need(len(S2) == nf and len(et) == nf and len(ep) == nf and len(ek) == nf, "number of frames in the info")
        for k, f in enumerate(F):
            same_structure(S[k], f, "structure %d" % k); same_structure(S2[k], f, "info structure %d" % k)
        for got, key in ((et, "etot"), (ep, "ep"), (ek, "ek")):
            need(vp.allclose(got, [f[key] / 1e4 for f in F], rtol=2e-10, atol=1e-9), key)
        if mv["opts"]["virial"]:
            need(np.shape(vir) == (nf, 3, 3) and vp.allclose(vir, np.array([f["virial"] for f in F]) / 1e6, rtol=1e-10, atol=1e-9), "virials")
            label("virial")
        else:
            need(np.size(vir) == 0, "virials where there are none")
        need(open(p).read() == t, "file changed")
    if max(len(mv["frames"]) for mv in case["mv"]) < 2:
        vp.trivial("single frame")
    if case["short"]:
        label("short header")
    if len(set(len(f["Z"]) for f in case["mv"][0]["frames"])) > 1:
        label("frames of different size")


@sub("neighbours", st.fixed_dictionaries(dict(mv=mvt.movement(1, 3, 4, big=(20, 3)), rc=st.integers(1500, 6000))), quick=250, thorough=1000)
def neighbours(case):
    from matersdk.io.pwmat.output.movement import Movement
    mv = mvt.classic(case["mv"])
    rc = case["rc"] / 1000.0; T = []
    for f in mv["frames"]:
        c, s, sh, v, d, r = c06.setup(dict(c=dict(lat=f["lat"], Z=f["Z"], frac=f["frac"]), s=[3, 3, 3], rc=case["rc"]))
        if len(c["Z"]) != len(f["Z"]):
            vp.trivial("overlapping atoms"); return
        rc = min(rc, r); T.append(d)
    for _ in range(20):
        if any((np.abs(d - rc) < 2e-5).any() for d in T):
            rc -= 7e-5
    if rc < 0.5 or any((np.abs(d - rc) < 2e-5).any() for d in T):
        vp.trivial("cutoff not covered"); return
    p = fresh_path("MOVEMENT"); open(p, "w").write(mvt.movement_text(mv))
    want = max(int(((d < rc) & (d > 1e-6)).sum((1, 2)).max()) for d in T)
    got = Movement(p).get_max_num_nbrs_real(rcut=rc, **({} if case["rc"] % 2 else dict(scaling_matrix=[3, 3, 3])))
    need(got == want, "largest number of neighbours over all frames", got, want)
    if not want:
        vp.trivial("no neighbours")


@sub("neighbours_peak", st.fixed_dictionaries(dict(mv=st.one_of(mvt.movement(2, 8, 1), mvt.movement(20, 20, 1, big=(40, 1), every=1)), rc=st.integers(3000, 5000), a=st.integers(2600, 3200), b=st.integers(4600, 6000), p=st.integers(0, 2 ** 31))), quick=40, thorough=400)
def neighbours_peak(case):
    """one frame, anywhere, is denser than the others"""
    F = case["mv"]["frames"]
    for k, f in enumerate(F):
        x = case["a"] if k == case["p"] % len(F) else case["b"] + k
        F[k] = dict(f, lat=[[x, 0, 0], [0, x, 0], [0, 0, x]])
    neighbours(case)


@sub("long", st.fixed_dictionaries(dict(mv=st.lists(mvt.movement(60, 60, nmax=2, same_atoms=False, big=(200, 2), every=1), min_size=1, max_size=1), short=st.booleans(), order=st.permutations(range(5)))), quick=4, thorough=80)
def long(case):
    frames(case)


@sub("huge", st.fixed_dictionaries(dict(mv=st.lists(mvt.movement(1, 2, nmax=1000, nmin=1000, same_atoms=False, big=(2, 1300), every=1, rich=True), min_size=1, max_size=1), short=st.booleans(), order=st.permutations(range(5)))), quick=2, thorough=30)
def huge(case):
    """a thousand atoms and more in each frame"""
    frames(case)
