"""C12 k-meshes and irreducible k-points."""
import numpy as np, os, io, re, contextlib
import vp
from vp import sub, need, label, fresh_path
from gens import *
import again
from hypothesis import strategies as st

RULE = "a case counts when a mesh was computed from a file and compared with the reciprocal lattice"
ASSUMPTIONS = ["densities for which the ratio length/density is not within 1e-4 of a half-integer (rounding boundary)",
               "the symmetry search itself (spglib) is trusted; weights and lattice relations of its result are checked"]


def recip(lat):
    return 2 * np.pi * np.linalg.inv(lat).T


MESH = st.fixed_dictionaries(dict(c=crystals(1, 4, lo=2500, hi=25000, flo=0, fhi=999999), den=st.one_of(st.integers(5, 400), st.integers(1, 60), st.just(0)),
                                fmt=st.sampled_from(["pwmat", "pwmat", "vasp"])))


@sub("mesh", MESH, quick=600, thorough=8000)
def mesh(case):
    from matersdk.calculation.kpoints.kmesh import KMesh
    from matersdk.io.publicLayer.structure import DStructure
    c = case["c"]
    s0 = make_structure(c)
    if case["fmt"] == "vasp":
        p = os.path.join(vp.fresh_dir(), "POSCAR")
        s0.to(file_path=p, file_format="poscar")
    else:
        p = fresh_path(".config")
        s0.to(file_path=p, file_format="pwmat")
    s = DStructure.from_file(file_path=p, file_format=case["fmt"])
    den = case["den"] / 1000.0
    K = KMesh(file_format=case["fmt"], file_path=p)
    got = [float(x) for x in K.get_kmesh(density=den)]
    # the printed summary: cell, lengths, reciprocal cell, reciprocal lengths
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        K.get_lattice_info()
    num = [float(x) for x in re.findall(r"-?\d+\.\d*(?:[eE][-+]?\d+)?", buf.getvalue())]
    R = recip(s.lattice.matrix)
    exp = np.concatenate([s.lattice.matrix.ravel(), np.linalg.norm(s.lattice.matrix, axis=1), R.ravel(), np.linalg.norm(R, axis=1)])
    need(len(num) == 24 and vp.allclose(num, exp, atol=2e-6, rtol=1e-6), "printed lattice information", num, exp.tolist())
    if den == 0:
        need(got == [1, 1, 1], "density 0", got)
        return
    b = np.linalg.norm(recip(s.lattice.matrix), axis=1)
    want = b / (den * 2 * np.pi)
    cart = s.cart_coords
    gap = np.linalg.norm(s.lattice.matrix, axis=1) - (cart.max(0) - cart.min(0))
    for k in range(3):
        if abs(gap[k] - 10) < 1e-4:
            continue
        if gap[k] > 10:
            need(got[k] == 1, "vacuum direction", got, gap)
            label("vacuum axis")
            continue
        if abs(want[k] - np.floor(want[k]) - 0.5) < 1e-4:
            continue
        need(got[k] == max(1, np.floor(want[k] + 0.5)), "mesh along axis %d" % k, got, want)
        if want[k] < 0.5:
            label("clamped to one")
        if want[k] > 1.5:
            label("dense axis")


SYM = st.fixed_dictionaries(dict(kind=st.sampled_from(["sc", "bcc", "fcc", "tet", "ort", "hex", "mono", "random"]), a=st.integers(2500, 6000), b=st.integers(2500, 6000),
                                 c=st.integers(2500, 6000), Z=st.integers(1, 80), mesh=st.lists(st.integers(1, 5), min_size=3, max_size=3),
                                 shift=st.lists(st.integers(0, 1), min_size=3, max_size=3), cr=crystals(1, 3, lo=2500, hi=6000)))


def sym_structure(case):
    from matersdk.io.publicLayer.structure import DStructure
    a, b, c = case["a"] / 1000, case["b"] / 1000, case["c"] / 1000
    k = case["kind"]
    L = dict(sc=np.eye(3) * a, bcc=a / 2 * np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]]), fcc=a / 2 * np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]]),
             tet=np.diag([a, a, c]), ort=np.diag([a, b, c]), hex=np.array([[a, 0, 0], [-a / 2, a * np.sqrt(3) / 2, 0], [0, 0, c]]),
             mono=np.array([[a, 0, 0], [0, b, 0], [0.3 * a, 0, c]]))
    if k == "random":
        return make_structure(dedup(case["cr"], 0.6))
    return DStructure(lattice=L[k], species=[Z2S[case["Z"]]], coords=[[0, 0, 0]])


@sub("irreducible", SYM, quick=150, thorough=2000)
def irreducible(case):
    """weights add up to the full mesh; every point lies on the (shifted) mesh; none is listed twice"""
    from matersdk.calculation.kpoints.kpointsSampler import KPointsSampler
    s = sym_structure(case)
    m = np.array(case["mesh"])
    sh = np.array(case["shift"])
    K = KPointsSampler(structure=s, kmesh=m, is_shift=sh)
    pts = K.get_kpoints()
    need(K.get_num_kpoints() == len(pts), "number of points", K.get_num_kpoints(), len(pts))
    need(sum(w for _, w in pts) == int(np.prod(m)), "weights add up to the full mesh", [w for _, w in pts], m)
    seen = set()
    for k, w in pts:
        g = np.asarray(k) * m - sh / 2.0
        need(vp.allclose(g, np.round(g), atol=1e-8), "point is not on the mesh", k, m, sh)
        t = tuple(int(x) % int(y) for x, y in zip(np.round(g), m))
        need(t not in seen, "point listed twice", k)
        seen.add(t)
        need(w >= 1, "weight")
    label(case["kind"])


WS = np.array([w for w in __import__("itertools").product((-1, 0, 1), repeat=9)]).reshape(-1, 3, 3)
WS = WS[np.abs(np.abs(np.linalg.det(WS)) - 1) < 1e-9]


def lattice_ops(L):
    """integer basis changes that keep all lengths and angles; None when some nearly do"""
    ok = []
    n0 = np.linalg.norm(L, axis=1)
    T = WS @ L
    n = np.linalg.norm(T, axis=2)
    G0 = L @ L.T
    G = T @ T.transpose(0, 2, 1)
    exact = np.abs(G - G0).max((1, 2)) < 1e-6
    cos = lambda G, n: np.degrees(np.arccos(np.clip(np.stack([G[..., 0, 1] / n[..., 0] / n[..., 1], G[..., 0, 2] / n[..., 0] / n[..., 2], G[..., 1, 2] / n[..., 1] / n[..., 2]], -1), -1, 1)))
    far = (np.abs(n - n0).max(1) > 0.3) | (np.abs(cos(G, n) - cos(G0[None], n0[None])).max(1) > 12)
    if (~exact & ~far).any():
        return None
    return WS[exact]


@sub("orbits", st.fixed_dictionaries(dict(s=SYM, m=st.integers(2, 5), disp=st.sampled_from([0, 0, 0, 4, 30, 300]), ax=st.lists(st.integers(-3, 3), min_size=3, max_size=3), prec=st.sampled_from([None, None, 1, 10, 100]), two=st.booleans())), quick=120, thorough=1500)
def orbits(case):
    """on a uniform mesh every point is related by a symmetry of the crystal (or time reversal) to exactly one listed point, whose weight counts them"""
    from matersdk.calculation.kpoints.kpointsSampler import KPointsSampler
    from matersdk.io.publicLayer.structure import DStructure
    q = dict(case["s"])
    if q["kind"] == "random":
        q["kind"] = "ort"
    L = np.array(sym_structure(q).lattice.matrix)
    Z = [Z2S[q["Z"]]]
    X = np.zeros((1, 3))
    d = 0.0
    if case["two"]:
        e = np.array(case["ax"], float)
        if np.linalg.norm(e) == 0:
            e = np.array([1.0, 2.0, 3.0])
        d = case["disp"] / 1000.0
        # a second atom of another element half way, displaced by d Angstrom
        X = np.vstack([X, [0.5, 0.5, 0.5] + d * (e / np.linalg.norm(e)) @ np.linalg.inv(L)])
        Z = Z + [Z2S[q["Z"] + 1]]
    prec = 1e-3 if case["prec"] is None else case["prec"] / 1000.0
    ops = lattice_ops(L)
    if ops is None or d and not (d <= prec / 3 or d >= 3 * prec):
        vp.trivial("nearly symmetric")
        return
    if d and d <= prec / 3:
        X[1] = 0.5
        label("displacement below the tolerance")
    keep = []
    for W in ops:
        # a point x (in units of the cell) goes to x W; the first atom is alone in its kind and stays at the origin
        if len(X) == 1:
            keep.append(W); continue
        r = X[1] @ W - X[1]
        dist = np.linalg.norm((r - np.round(r)) @ L)
        if dist < 1e-6:
            keep.append(W)
        elif dist < 2.5 * prec:
            vp.trivial("nearly symmetric")
            return
    if d > prec and len(X) == 2:
        label("broken by a displacement")
    m = case["m"]
    st0 = DStructure(lattice=L, species=Z, coords=(X if not (d and d <= prec / 3) else np.vstack([X[0], [0.5, 0.5, 0.5] + d * (e / np.linalg.norm(e)) @ np.linalg.inv(L)])))
    kw = {} if case["prec"] is None else dict(symprec=prec)
    K = KPointsSampler(structure=st0, kmesh=np.array([m] * 3), is_shift=np.array([0, 0, 0]), **kw)
    pts = K.get_kpoints()
    # k . x is kept when k goes to k inv(W)^T
    R = [np.round(np.linalg.inv(W).T).astype(int) for W in keep]
    R = R + [-w for w in R]
    left = {}
    for k, w in pts:
        g = np.round(np.asarray(k) * m).astype(int)
        orb = {tuple(int(v) % m for v in g @ r) for r in R}
        need(not any(o in left for o in orb), "two listed points are related by symmetry", k, case)
        need(len(orb) == w, "weight of a point", k, int(w), len(orb))
        left.update(dict.fromkeys(orb))
    need(len(left) == m ** 3, "points of the mesh not related to a listed one", len(left), m)
    label("ops%d" % len(R))


@sub("rewritten", again.rewritten(MESH), quick=80, thorough=1500)
def rewritten(cases):
    again.rerun(cases, mesh)
