"""C30: torch operators and modules of the moment tensor potential: values, gradients, invariances (library built from the tree, address sanitizer)."""
import itertools
import numpy as np
from hypothesis import strategies as st
import vp, native, mtpmodel as mm
from vp import sub, need, label, trivial
from gens import i3

QX = 3
RULE = "a case is non-trivial when at least one neighbour lies between the inner radius and the cutoff; distinct by the hash of its canonical JSON"
ASSUMPTIONS = ["index tensors are int64, the coefficients have the dtype of the coordinates, the inner radius is positive (padding entries at distance zero then vanish)",
               "the bases are listed in the order of MtpMCoeffPairCombs (whose content is C28) and contracted in that order, each tensor with the last indices of the product so far"]
P = None
SRC = ["source/descriptor/mtp/src/%s.cc" % x for x in ("mtpLevel", "mtpMRadialOp", "mtpMAngularOp", "mtpMModule", "mtpBModule")]
LAY = ["C", "C", "C", "T", "strided", "offset", "last", "swap"]


def prepare():
    global P
    P = native.Torch(native.build_torch("torch_mtp.cpp", SRC))


def ten(a, d, k="C", g=0):
    a = np.asarray(a)
    return dict(t=a.ravel().tolist(), s=list(a.shape), d=d, k=k, g=g)


def arr(t):
    return np.array(t["t"], float).reshape(t["s"])


def polys(n):
    return [np.polynomial.chebyshev.cheb2poly([0] * k + [1]) for k in range(n)]


def radial(n, rc, rs, v):
    """(size,) radial functions of one relative vector; complex-step safe"""
    r = np.sqrt((v * v).sum())
    if not rs <= r.real < rc:
        return np.zeros(n, v.dtype)
    xi = (2 * r - rc - rs) / (rc - rs); u = (r - rs) / (rc - rs)
    s = 1 - u ** 3 * (10 - 15 * u + 6 * u * u)
    return np.array([np.polynomial.polynomial.polyval(xi, c) for c in polys(n)]) * s


def power(v, nu):
    t = np.ones((), v.dtype)
    for _ in range(nu):
        t = np.multiply.outer(t, v)
    return t


def moment(co, mu, nu, zi, zj, vv, rc, rs):
    """co (nmus, ntypes, ntypes, size)"""
    out = np.zeros((3,) * nu, np.result_type(co.dtype, vv.dtype))
    for z, v in zip(zj, vv):
        out = out + (co[mu, zi, z] * radial(co.shape[3], rc, rs, v)).sum() * power(v, nu)
    return out


def contract(ts):
    p = np.ones((), ts[0].dtype)
    for t in ts:
        p = p * t if p.ndim == 0 else np.tensordot(p, t, axes=(list(range(p.ndim - t.ndim, p.ndim)), list(range(t.ndim)))) if t.ndim else p * t
    assert p.ndim == 0
    return p


H = 1e-30


def cgrad(f, x):
    """gradient of the real function f by complex steps"""
    x = np.asarray(x, complex)
    g = np.zeros(x.shape)
    for k in np.ndindex(*x.shape):
        y = x.copy(); y[k] += 1j * H
        g[k] = f(y).imag / H
    return g


def near(got, want, tol, what, ctx=None, scale=None):
    got = np.asarray(got, float); want = np.asarray(want, float)
    need(got.shape == want.shape, what + ": shape", got.shape, want.shape)
    s = (np.abs(want).max() if want.size else 0) if scale is None else scale
    ok = np.abs(got - want) <= tol * (1 + s)
    if not ok.all():
        k = tuple(int(q[0]) for q in np.nonzero(~ok))
        need(False, what, dict(at=k, got=float(got[k]), want=float(want[k])), ctx)


@st.composite
def radii(draw):
    rc = draw(i3(2000, 9000))
    return [rc, draw(i3(50, rc - 500))]


def vec(rr, t, f32):
    """t = (direction x3, fraction or code): a vector with |v| = rs + fraction*(rc-rs), or special"""
    d = np.array(t[:3], float)
    if not d.any() or t[3] == -3:
        return np.zeros(3)
    rc, rs = rr[0] / 1000.0, rr[1] / 1000.0
    r = {-1: 0.5 * rs, -2: 1.2 * rc}.get(t[3], rs + (rc - rs) * (0.002 + 0.996 * t[3] / 1000.0))
    v = d / np.linalg.norm(d) * r
    return v.astype(np.float32).astype(float) if f32 else v


one = st.tuples(i3(-9, 9), i3(-9, 9), i3(-9, 9), st.one_of(i3(0, 1000), i3(0, 1000), i3(0, 1000), st.sampled_from([-1, -2, -3])))


def setup(c):
    f = c["f32"]
    rc, rs = c["rr"][0] / 1000.0, c["rr"][1] / 1000.0
    if f:
        rc, rs = float(np.float32(rc)), float(np.float32(rs))
    return f, rc, rs, ("f32" if f else "f64"), (2e-3 if f else 1e-9)


def inside(v, rc, rs):
    r = np.linalg.norm(v, axis=-1)
    return bool(((r > rs) & (r < rc)).any())


@sub("radial", lambda: st.fixed_dictionaries(dict(rr=radii(), f32=st.booleans(), n=i3(1, 7), v=st.lists(one, min_size=1, max_size=6), k=st.sampled_from(LAY), direct=st.booleans(), twice=st.booleans(), w=st.lists(i3(-20, 20), min_size=42, max_size=42), wk=st.sampled_from(["C", "T"]))), quick=200, thorough=8000)
def c_radial(c):
    f, rc, rs, d, tol = setup(c)
    V = np.array([vec(c["rr"], t, f) for t in c["v"]]); n = c["n"]
    if not inside(V, rc, rs):
        trivial("nothing inside")
    W = np.resize(np.array(c["w"], float) / 10, (len(V), n))
    r = P.get(op="vpm.q", args=[n, ten([rc, rs], d), ten(V, d, c["k"], 1)], w=W.ravel().tolist(), direct=c["direct"], twice=c["twice"], wk=c["wk"])
    o = r["out"][0]
    need(o["d"] == d, "dtype", o["d"])
    need(r["same"] and r["again"], "inputs or results changed by the backward pass")
    tol *= n * n
    near(arr(o), np.array([radial(n, rc, rs, v) for v in V]), tol, "radial values", dict(k=c["k"]))
    g = cgrad(lambda x: sum((W[i] * radial(n, rc, rs, x[i])).sum() for i in range(len(V))), V)
    near(arr(r["grad"][2]), g, tol * (1 + 1 / (rc - rs)), "gradient of the radial values", dict(k=c["k"]))
    label("layout " + c["k"]); label(d)


@sub("angular", lambda: st.fixed_dictionaries(dict(f32=st.booleans(), v=st.lists(st.tuples(i3(-3000, 3000), i3(-3000, 3000), i3(-3000, 3000)), min_size=1, max_size=5), nu=i3(0, 7), k=st.sampled_from(LAY), w=i3(0, 10 ** 6))), quick=150, thorough=6000)
def c_angular(c):
    f = c["f32"]; d = "f32" if f else "f64"; nu = c["nu"]
    V = np.array(c["v"], float) / 1000.0
    if f:
        V = V.astype(np.float32).astype(float)
    W = np.random.default_rng(c["w"]).uniform(-1, 1, (len(V),) + (3,) * nu)
    r = P.get(op="vpm.angular", args=[ten(V, d, c["k"], 1), nu], w=W.ravel().tolist())
    need(r["same"] and r["again"], "inputs or results changed")
    need(r["out"][0]["d"] == d, "dtype", r["out"][0]["d"])
    tol = (1e-5 * 30 if f else 1e-11) * (1 if nu < 5 else 3 ** (nu - 4))
    near(arr(r["out"][0]), np.array([power(v, nu) for v in V]), tol, "outer powers")
    g = r["grad"][0]
    near(np.zeros(V.shape) if g is None else arr(g), cgrad(lambda x: sum((W[i] * power(x[i], nu)).sum() for i in range(len(V))), V), tol * 10, "gradient of the outer powers")
    if nu == 0:
        q = P.get(op="vpm.outer0", args=[ten(V, d, c["k"], 1)], w=W.ravel().tolist())
        near(arr(q["out"][0]), np.ones(len(V)), 0, "zeroth power")
        near(arr(q["grad"][0]), np.zeros(V.shape), 0, "gradient of the zeroth power")
    label("rank%d" % nu); label("layout " + c["k"])


def coeffs(seed, shape, f32):
    c = np.random.default_rng(seed).uniform(-1.5, 1.5, shape)
    return c.astype(np.float32).astype(float) if f32 else c


@sub("moments", lambda: st.fixed_dictionaries(dict(rr=radii(), f32=st.booleans(), n=i3(1, 5), nmus=i3(1, 3), nt=i3(1, 3), v=st.lists(st.tuples(one, i3(0, 9)), min_size=1, max_size=5), mu=i3(0, 2), nu=i3(0, 5), i=i3(0, 9), ty=st.lists(i3(0, 2), min_size=1, max_size=10),
                                                   kv=st.sampled_from(LAY), kf=st.sampled_from(LAY), seed=i3(0, 10 ** 6))), quick=150, thorough=6000)
def c_moments(c):
    f, rc, rs, d, tol = setup(c)
    nt, n = c["nt"], c["n"]
    ty = [t % nt for t in c["ty"]]; N = len(ty)
    V = np.array([vec(c["rr"], t, f) for t, _ in c["v"]]); J = [j % N for _, j in c["v"]]; i = c["i"] % N
    mu = c["mu"] % c["nmus"]; nu = c["nu"]
    if not inside(V, rc, rs):
        trivial("nothing inside")
    co = coeffs(c["seed"], (c["nmus"], nt, nt, n), f)
    W = np.random.default_rng(c["seed"] + 1).uniform(-1, 1, (3,) * nu)
    r = P.get(op="vpm.moment", args=[c["nmus"], nt, n, ten([rc, rs], d), ten(co.ravel(), d), mu, nu, i, ten(J, "i64", c["kf"]), ten(ty, "i64"), ten(V, d, c["kv"]), ten(W, d)])
    out, npar, pg, rg, again = [arr(t) for t in r["out"]]
    need(int(npar) == co.size, "number of coefficients", int(npar), co.size)
    zj = [ty[j] for j in J]
    ev = lambda co_, v_: moment(co_, mu, nu, ty[i], zj, v_, rc, rs)
    sc = sum((np.abs(co[mu, ty[i], z]) * np.abs(radial(n, rc, rs, v))).sum() * np.linalg.norm(v) ** nu for z, v in zip(zj, V)) + 1
    tol *= n * n * sc
    near(out, ev(co, V), tol, "moment", dict(mu=mu, nu=nu))
    near(again, out, 0 if not f else 1e-6, "the same moment again")
    k = 1 + 1 / (rc - rs)
    near(rg, cgrad(lambda x: (W * ev(co, x)).sum(), V), tol * k * (1 + nu), "gradient by coordinates", dict(mu=mu, nu=nu))
    near(pg.reshape(co.shape), cgrad(lambda x: (W * ev(x, V)).sum(), co), tol * k * 9, "gradient by coefficients")
    label("rank%d" % nu); label("layouts %s %s" % (c["kv"], c["kf"]))


@st.composite
def bcases(draw):
    if draw(i3(1, 12)) == 12:          # larger batches, more neighbours and elements
        nb = draw(i3(1, 4)); nc = draw(i3(1, 5)); m = draw(i3(3, 12)); nt = draw(i3(1, 5)); N = draw(i3(nc, 14))
    else:
        nb = draw(i3(1, 2)); nc = draw(i3(1, 2)); m = draw(i3(1, 3)); nt = draw(i3(1, 2)); N = draw(i3(nc, 5))
    return dict(rr=draw(radii()), f32=draw(i3(0, 3)) == 0, level=draw(st.sampled_from([2, 4, 6, 8, 8, 7, 3, 5])), nt=nt, n=draw(i3(1, 3)), N=N,
                ty=[[draw(i3(0, nt - 1)) for _ in range(N)] for _ in range(nb)], shared=draw(st.booleans()), il=[list(draw(st.permutations(list(range(N)))))[:nc] for _ in range(nb)],
                v=[[[draw(one) for _ in range(m)] for _ in range(nc)] for _ in range(nb)], j=[[[draw(i3(0, N - 1)) for _ in range(m)] for _ in range(nc)] for _ in range(nb)],
                pad=draw(st.sampled_from([-1, 0])), k=[draw(st.sampled_from(LAY)) for _ in range(4)], seed=draw(i3(0, 10 ** 6)), rot=draw(i3(0, 10 ** 6)), perm=draw(i3(0, 10 ** 6)))


_combs = {}


def basis_list(level):
    if level not in _combs:
        o = P.get(op="vpm.combs", args=[level])["out"]
        _combs[level] = ([[tuple(t["t"][q:q + 2]) for q in range(0, len(t["t"]), 2)] for t in o[:-1]], int(o[-1]["t"][0]))
    return _combs[level]


@sub("basis", bcases, quick=120, thorough=4000)
def c_basis(c):
    f, rc, rs, d, tol = setup(c)
    combs, nmus = basis_list(c["level"])
    nb, nc, m = len(c["v"]), len(c["v"][0]), len(c["v"][0][0])
    ty = c["ty"]
    if c["shared"]:
        ty = [ty[0]] * nb
    V = np.array([[[vec(c["rr"], t, f) for t in a] for a in b] for b in c["v"]])
    J = np.array(c["j"])
    J[~V.any(-1)] = c["pad"]
    if not inside(V, rc, rs):
        trivial("nothing inside")
    co = coeffs(c["seed"], (nmus, c["nt"], c["nt"], c["n"]), f)
    if not len(combs):
        trivial("empty basis")
    W = np.random.default_rng(c["seed"] + 1).uniform(-1, 1, (nb, nc, len(combs)))
    V0 = V

    def call(V, J=J, il=c["il"], ty=ty):
        return P.get(op="vpm.basis", args=[c["level"], c["nt"], c["n"], ten([rc, rs], d), ten(co.ravel(), d), ten(il, "i64", c["k"][0]), ten(J, "i64", c["k"][1]), ten(V, d, c["k"][2]),
                                           ten(ty[0] if c["shared"] else ty, "i64", c["k"][3]), ten(W, d)])
    r = call(V)
    need(r["same"], "inputs changed")
    out, npar, pg, rg, again = [arr(t) for t in r["out"]]
    need(int(npar) == co.size, "number of coefficients", int(npar), co.size)
    need(r["out"][0]["s"] == [nb, nc, len(combs)] and r["out"][0]["d"] == d, "shape", r["out"][0]["s"], r["out"][0]["d"])

    def ev1(co_, v_, b, q):
        zj = [ty[b][j] for j in J[b, q]]; zi = ty[b][c["il"][b][q]]
        ms = {}
        o = []
        for cb in combs:
            for p in cb:
                if p not in ms:
                    ms[p] = moment(co_, p[0], p[1], zi, zj, v_, rc, rs)
            o.append(contract([ms[p] for p in cb]))
        return np.array(o)

    ref = np.array([[ev1(co, V[b, q], b, q) for q in range(nc)] for b in range(nb)]).reshape(nb, nc, len(combs))
    # magnitude: the same sums with every term positive
    A = np.abs(co); mag = 1.0
    for b in range(nb):
        for q in range(nc):
            zj = [ty[b][j] for j in J[b, q]]; zi = ty[b][c["il"][b][q]]
            base = {p: sum((A[p[0], zi, z] * np.abs(radial(c["n"], rc, rs, v))).sum() * np.linalg.norm(v) ** p[1] for z, v in zip(zj, V[b, q])) for cb in combs for p in cb}
            mag = max([mag] + [float(np.prod([base[p] for p in cb])) for cb in combs])
    T = tol * mag * 10
    near(out, ref, T, "basis values", dict(level=c["level"]), 0)
    near(again, out, 1e-5 if f else 0, "the same basis again", None, mag)
    k = (1 + 1 / (rc - rs)) * 20
    for b in range(nb):
        for q in range(nc):
            near(rg[b, q], cgrad(lambda x: (W[b, q] * ev1(co, x, b, q)).sum(), V[b, q]), T * k, "gradient by coordinates", dict(level=c["level"], at=(b, q)), 0)
    near(pg.reshape(co.shape), sum(cgrad(lambda x: (W[b, q] * ev1(x, V[b, q], b, q)).sum(), co) for b in range(nb) for q in range(nc)), T * k, "gradient by coefficients", None, 0)
    # rotation / reflection
    Q, _ = np.linalg.qr(np.random.default_rng(c["rot"]).normal(size=(3, 3)))
    VR = V @ Q.T
    if not f:
        near(arr(call(VR)["out"][0]), out, T * 100, "basis values after a rotation or reflection", dict(level=c["level"]), 0)
    # order of the neighbours
    pm = np.random.default_rng(c["perm"]).permutation(m)
    near(arr(call(V[:, :, pm], J[:, :, pm])["out"][0]), out, T * 10, "basis values after reordering the neighbours", dict(level=c["level"]), 0)
    # order of the centres
    pc = np.random.default_rng(c["perm"]).permutation(nc)
    near(arr(call(V[:, pc], J[:, pc], [[b[q] for q in pc] for b in c["il"]])["out"][0]), out[:, pc], T * 10, "basis values after reordering the centres", dict(level=c["level"]), 0)
    label("level%d" % c["level"]); label("shared types" if c["shared"] else "types per batch"); label("batch%d" % nb)


@st.composite
def hcases(draw):
    c = draw(bcases())
    m = draw(i3(1, 3))
    c.update(level=draw(st.sampled_from([9, 10, 10, 12, 12, 11])), n=draw(i3(1, 2)), f32=False, v=[[[draw(one) for _ in range(m)]]], j=[[[draw(i3(0, c["N"] - 1)) for _ in range(m)]]], ty=c["ty"][:1], il=[c["il"][0][:1]])
    return c


sub("basis_high", hcases, quick=16, thorough=600)(c_basis.fn if hasattr(c_basis, "fn") else c_basis)


@sub("fresh", lambda: st.tuples(st.sampled_from([2, 3, 4, 6, 8, 10]), i3(1, 4), i3(1, 9)).map(list), quick=20, thorough=200)
def c_fresh(c):
    """a new module holds one trainable set of coefficients per (mu, centre type, neighbour type), different from one another"""
    combs, nmus = basis_list(c[0])
    need(not combs or nmus == 1 + max(p[0] for cb in combs for p in cb), "number of radial indexes", nmus)
    o = arr(P.get(op="vpm.initial", args=[c[0], c[1], c[2], ten([5, 1], "f32")])["out"][0])
    need(o.size == nmus * c[1] * c[1] * c[2], "number of coefficients", o.size)
    need(np.isfinite(o).all() and (o.size < 2 or len(set(o.tolist())) > o.size // 2), "initial coefficients")
