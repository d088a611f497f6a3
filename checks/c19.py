"""C19 trajectory averages."""
import numpy as np
import vp
from vp import sub, need, label, fresh_path
from gens import *
import again
import mvt, brute, c06
vp.SUBS.clear()
from hypothesis import strategies as st

RULE = "a case counts when at least one bond / angle / displacement entered the average"
ASSUMPTIONS = ["bond and angle averages are asked for pairs that occur within the cutoff; the scaling covers the cutoff sphere, no neighbour within 1e-6 of the cutoff",
               "displacements are differences of the positions as written (no unwrapping), each frame against the preceding one"]


@sub("msd_pair", st.fixed_dictionaries(dict(a=crystals(1, 8, big=40), lat=lattices(), seed=st.integers(0, 2**31))), quick=400, thorough=8000)
def msd_pair(case):
    from matersdk.feature.avg.msd import MsdParallelFunction as F
    a = case["a"]; n = len(a["Z"])
    b = dict(lat=case["lat"], Z=a["Z"], frac=bulk(case["seed"], n, 1, 9, -300000, 1300000)[1])
    A, B = make_structure(a), make_structure(b)
    xa, xb = frac_array(a) @ lat_array(a["lat"]), frac_array(b) @ lat_array(b["lat"])
    need(vp.allclose(F.calc_msd_s(A, B), ((xb - xa) ** 2).sum() / n, rtol=1e-9, atol=1e-9), "mean square displacement")
    d = (xb - xb.mean(0)) - (xa - xa.mean(0))
    need(vp.allclose(F.calc_msd_sub_centroid_s(A, B), (d ** 2).sum() / n, rtol=1e-9, atol=1e-9), "mean square displacement without centroid")
    need(vp.allclose(F.calc_msd_s(A, B), F.calc_msd_s(B, A)), "symmetric")
    need(F.calc_msd_s(A, A) == 0 and abs(F.calc_msd_sub_centroid_s(B, B)) < 1e-18, "zero for the same frame")
    if n > 1:
        label("several atoms")


class Traj:
    def __init__(self, s):
        self.s = s

    def get_all_frame_structures(self):
        return self.s


MT = st.fixed_dictionaries(dict(mv=mvt.movement(2, 6, 4, big=(30, 30), opts=st.just(dict(force=True, virial=False, eatom=False, mag=False, vel=False, mdinfo=False))), q=st.integers(0, 3000),
                                            file=st.booleans()))


@sub("msd_traj", MT, quick=50, thorough=400)
def msd_traj(case):
    from matersdk.feature.avg.msd import Msd, DiffractionIntensity
    from matersdk.io.pwmat.output.movement import Movement
    mv = mvt.classic(case["mv"])
    if case["file"]:
        p = fresh_path("MOVEMENT"); open(p, "w").write(mvt.movement_text(mv))
        t = Movement(p)
        tol = 1e-9
        label("from file")
    else:
        t = Traj([make_structure(f) for f in mv["frames"]]); tol = 1e-9
    X = np.array([frac_array(f) @ lat_array(f["lat"]) for f in mv["frames"]])
    d = X[1:] - X[:-1]
    ref = (d ** 2).sum((1, 2)) / X.shape[1]
    with cpus(case["q"]):
        msd_values(case, t, X, ref, tol)


def msd_values(case, t, X, ref, tol):
    from matersdk.feature.avg.msd import Msd, DiffractionIntensity
    m = Msd(t)
    need(vp.allclose(m.calc_msd(), ref, rtol=1e-9, atol=tol), "MSD along the trajectory", m.calc_msd(), ref)
    Y = X - X.mean(1, keepdims=True); e = Y[1:] - Y[:-1]
    need(vp.allclose(m.calc_msd_sub_centroid(), (e ** 2).sum((1, 2)) / X.shape[1], rtol=1e-9, atol=tol), "MSD without centroid")
    q = case["q"] / 1000.0
    need(vp.allclose(DiffractionIntensity(t, q).calc_di(), np.exp(-q * q * ref / 3), rtol=1e-8, atol=1e-12), "diffraction intensity")


def angle(a, b):
    return np.degrees(np.arctan2(np.linalg.norm(np.cross(a, b)), np.dot(a, b)))


def bonds(rows, c, za, zb):
    return [t for i, L in rows if c["Z"][i] == za for t in L if t[1] == zb]


def angles(rows, c, z1, z2, z3):
    out = []
    for i, L in rows:
        if c["Z"][i] != z1:
            continue
        A = [t for t in L if t[1] == z2]; B = [t for t in L if t[1] == z3]
        if z2 == z3:
            out += [(angle(A[k][2], A[l][2]), A[k][0], A[l][0]) for k in range(len(A)) for l in range(k + 1, len(A))]
        else:
            out += [(angle(x[2], y[2]), x[0], y[0]) for x in A for y in B]
    return out


@st.composite
def acases(draw):
    k = draw(c06.cases(nmax=4))
    k["rc"] = draw(st.integers(1500, 4200))
    if draw(st.integers(0, 3)) == 0:       # high symmetry: straight angles, coinciding directions
        a = draw(st.integers(2000, 4000))
        k["c"] = dict(lat=[[a, 0, 0], [0, a, 0], [0, 0, a]], Z=[3, 9][:draw(st.integers(1, 2))], frac=[[0, 0, 0], [500000, 500000, 500000]][:2])
        k["c"]["frac"] = k["c"]["frac"][:len(k["c"]["Z"])]
        k["rc"] = draw(st.sampled_from([int(a * 1.1), int(a * 1.5)]))
        k["s"] = [3, 3, 3]
    elif draw(st.integers(0, 3)) == 0:     # a chain or a layer reaching several shells: zero and straight angles
        a = draw(st.integers(1000, 2000)); b = draw(st.sampled_from([9000, 9000, a]))
        k["c"] = dict(lat=[[a, 0, 0], [0, b, 0], [0, 0, 9000]], Z=[draw(st.sampled_from([3, 9]))], frac=[[draw(st.integers(0, 999999)) for _ in range(3)]])
        if draw(st.booleans()):
            k["c"]["Z"].append(draw(st.sampled_from([3, 9]))); k["c"]["frac"].append([k["c"]["frac"][0][0] + 500000] + k["c"]["frac"][0][1:])
        k["s"] = [draw(st.sampled_from([3, 5, 7])), 3 if b == 9000 else 5, 1]
        k["rc"] = draw(st.sampled_from([int(a * 1.1), int(a * 2.1), int(a * 3.2)]))
    k["p"] = [draw(st.integers(0, 5)) for _ in range(3)]
    k["ang"] = [draw(st.integers(0, 180)), draw(st.integers(1, 90))]
    return k


@sub("bond_angle", acases(), quick=500, thorough=6000)
def bond_angle(case):
    from matersdk.io.publicLayer.neigh import StructureNeighborsDescriptor
    from matersdk.feature.avg.avgbond import AvgBond, ParallelFunction
    from matersdk.feature.avg.avgangle import AvgAngle
    c, s, sh, v, d, rc = c06.setup(case)
    if rc < 0.05:
        vp.trivial("cutoff not covered"); return
    rows = c06.expected(c, v, d, rc)
    zs = sorted(set(c["Z"]))
    z1, z2, z3 = [zs[p % len(zs)] for p in case["p"]]
    S = make_structure(c)
    nb = StructureNeighborsDescriptor.create("v1", S, rc, s)
    B = bonds(rows, c, z1, z2)
    if not B:
        vp.trivial("no such bond"); return
    got = AvgBond.get_avg_bond_length(struct_neigh=nb, atomic_number_1=z1, atomic_number_2=z2)
    need(vp.allclose(got, np.mean([t[0] for t in B]), rtol=1e-9), "average bond length", got, np.mean([t[0] for t in B]))
    got = ParallelFunction.get_avg_bond_length(S, rc, s, z1, z2)
    need(vp.allclose(got, np.mean([t[0] for t in B]), rtol=1e-9), "average bond length of a structure", got)
    A = angles(rows, c, z1, z2, z3)
    if not A or len(A) > 8000:
        label("no such angle"); return
    th = np.array([t[0] for t in A])
    m, q = AvgAngle.get_avg_bond(struct_neigh=nb, atomic_number_1=z1, atomic_number_2=z2, atomic_number_3=z3)
    at = np.where(np.sin(np.radians(th)) < 1e-3, 1e-5, 1e-8)       # near 0 and 180 degrees the arc cosine loses half the digits
    need(abs(m - th.mean()) < at.mean(), "average angle", m, th.mean())
    qr = 1 - 3 / 8.0 * ((1 / 3.0 + np.cos(np.radians(th))) ** 2).sum()
    need(abs(q - qr) < 1e-6 * (1 + len(A)), "order parameter", q, qr)
    label("angles")
    if (th > 179.999).any():
        label("straight angle")
    if (th < 1e-3).any():
        label("zero angle")
    std, eps = case["ang"]
    std = float(std); eps = float(eps)
    while (np.abs(np.abs(th - std) - eps) < 1e-4).any():
        eps += 3.1e-4
    sel = sorted([(t[0], min(t[1], t[2]), max(t[1], t[2])) for t in A if abs(t[0] - std) < eps])
    R = AvgBond.get_bond_lengths_lst_according2angle(nb, z1, z2, z3, std, eps)
    need(R.shape == (len(sel), 3), "number of selected angles", R.shape, len(sel))
    if sel:
        sel = np.array(sel)
        need(vp.allclose(np.sort(R[:, 0]), np.sort(sel[:, 0]), atol=1e-5) and vp.allclose(np.sort(R[:, 1]), np.sort(sel[:, 1]), atol=1e-9)
             and vp.allclose(np.sort(R[:, 2]), np.sort(sel[:, 2]), atol=1e-9), "selected angles and bond lengths")
        need((R[:, 1] <= R[:, 2] + 1e-12).all(), "shorter bond first")
        need(vp.allclose(np.sort(R[:, 0] * 0.37 + R[:, 1] * 3 + R[:, 2] * 7), np.sort(sel[:, 0] * 0.37 + sel[:, 1] * 3 + sel[:, 2] * 7), atol=1e-4), "angle and bond lengths of the same triple belong together")
        label("selected by angle")


BT = st.fixed_dictionaries(dict(mv=mvt.movement(1, 4, 4, max_kinds=2, nmin=2, big=(20, 4), opts=st.just(dict(force=True, virial=False, eatom=False, mag=False, vel=False, mdinfo=False))),
                                             i=st.integers(0, 9), j=st.integers(0, 9)))


@st.composite
def lcases(draw):
    k = draw(c06.large())
    k.update(p=[draw(st.integers(0, 5)) for _ in range(3)], ang=[draw(st.integers(0, 180)), draw(st.integers(1, 90))])
    return k


@sub("bond_angle_large", lcases(), quick=20, thorough=400)
def bond_angle_large(case):
    bond_angle(case)


@sub("bond_traj", BT, quick=150, thorough=300)
def bond_traj(case):
    from matersdk.feature.avg.avgbond import AvgBond, PairBond
    mv = mvt.classic(case["mv"])
    p = fresh_path("MOVEMENT"); open(p, "w").write(mvt.movement_text(mv))
    Z = mv["frames"][0]["Z"]
    i, j = case["i"] % len(Z), case["j"] % len(Z)
    X = [frac_array(f) @ lat_array(f["lat"]) for f in mv["frames"]]
    ref = [np.linalg.norm(x[i] - x[j]) for x in X]
    need(vp.allclose(PairBond(p, i, j).get_frames_pair_bond(), ref, atol=1e-9), "distance of an atom pair per frame")
    # average bond: the largest cutoff covered by 3x3x3 in every frame
    rc = 1e9
    tabs = []
    for f in mv["frames"]:
        c, s, sh, v, d, r = c06.setup(dict(c=dict(lat=f["lat"], Z=f["Z"], frac=f["frac"]), s=[3, 3, 3], rc=5000))
        if len(c["Z"]) != len(Z):
            vp.trivial("overlapping atoms"); return
        tabs.append((c, v, d)); rc = min(rc, r)
    for k in range(20):
        if any((np.abs(d - rc) < 2e-5).any() for _, _, d in tabs):
            rc -= 7e-5
    if rc < 0.5 or any((np.abs(d - rc) < 2e-5).any() for _, _, d in tabs):
        vp.trivial("cutoff not covered"); return
    z1, z2 = Z[i], Z[j]
    L = [bonds(c06.expected(c, v, d, rc), c, z1, z2) for c, v, d in tabs]
    if not all(L):
        vp.trivial("no such bond in some frame"); return
    with cpus(case["i"] // 2 + 1):
        got = AvgBond(p, Z2S[z1], Z2S[z2], rc).get_frames_avg_bond(**({} if case["i"] % 2 else dict(scaling_matrix=[3, 3, 3])))
    need(vp.allclose(got, [np.mean([t[0] for t in l]) for l in L], atol=1e-9), "average bond length per frame", got)
    label("average bond per frame")


@sub("rewritten", st.fixed_dictionaries(dict(m=again.rewritten(MT, 2), b=again.rewritten(BT, 2))), quick=40, thorough=200)
def rewritten(case):
    again.rerun([dict(k, file=True) for k in case["m"]], msd_traj)
    again.rerun(case["b"], bond_traj)
