"""C26: environment-matrix code over flat tables (EnvMatrix) and the torch operators EnvMatrixOp and Se4pwOp, against the formula and its derivative."""
import numpy as np
from hypothesis import strategies as st
import vp, native, semodel
from vp import sub, need, label, trivial
from gens import i3
import c27
vp.SUBS.clear()
from c30 import ten, arr, LAY
vp.SUBS.clear()

QX = 3
RULE = "a case is non-trivial when at least one neighbour is listed; distinct by the hash of its canonical JSON"
ASSUMPTIONS = ["index tensors are int32 (asserted by the operators); neighbours are not at distance zero; inner radius below the cutoff (by 0.25 A in single precision)",
               "the neighbour limits of all batches have the same total (the width of the result)"]
SRC = ["source/descriptor/deepmd/src/envMatrixOp.cc", "source/descriptor/deepmd/src/se4pw_op.cc", "source/descriptor/deepmd/bind/envMatrixOp_bind.cc"]
N_ = P = None


def prepare():
    global N_, P
    N_ = native.Proc(native.build("deepmd.cpp"))
    P = native.Torch(native.build_torch("torch_deepmd.cpp", SRC))


@sub("tables", lambda: st.tuples(c27.clusters(flat=True), st.sampled_from([0, 9])).map(list), quick=300, thorough=20000)
def c_env(case):
    """EnvMatrix over flat tables, derivative by the relative vector"""
    c, junk = case
    rc, rs, x, _ = c27.radii(c)
    tol = c27.f32tol(c, rc, rs)
    if not any(c["nb"]):
        trivial("no neighbours")
    n = len(c["il"])
    fn, lims, tot, short = c27.flat_tables(c, x)
    rel = np.full((n, tot, 3), float(junk))
    for ii, b in enumerate(c["nb"]):
        for q, j in enumerate(b):
            if q < tot:
                rel[ii, q] = x[j] - x[c["il"][ii]]
    if c["f32"]:
        rel = rel.astype(np.float32).astype(float)
    args = [c["il"], [len(b) for b in c["nb"]], fn, rel, c["ty"], lims, rc, rs]
    cmd = "env_f" if c["f32"] else "env_d"
    if short is not None:
        s, t = N_.attempt(cmd, *args)
        need(s == "throw", "more neighbours of a species than its limit are not rejected", lims, s, t if s != "ok" else "")
        label("limit too small")
        return
    r = N_.call(cmd, *args)
    w = c27.expected(c, x, rc, rs, range(n), c["kinds"], lims, 1)
    c27.need_rows(r[0], w[:, :, :4], tol, "values")
    c27.need_rows(r[1], w[:, :, 4:], tol, "derivatives")
    label("f32" if c["f32"] else "f64")


@st.composite
def batches(draw):
    b = draw(st.lists(c27.clusters(flat=True), min_size=1, max_size=3))
    if draw(i3(1, 15)) == 15:                # many small structures
        b = [dict(q, x=[p[k % 3:] + p[:k % 3] for p in q["x"]], nb=[L[k % (len(L) or 1):] + L[:k % (len(L) or 1)] for L in q["nb"]])
             for k, q in enumerate((b * 14)[:draw(i3(4, 14))])]
    nt = max(len(c["kinds"]) for c in b)
    return dict(b=b, nt=nt, extra=[draw(i3(0, 3)) for _ in range(nt)], k=[draw(st.sampled_from(LAY)) for _ in range(6)], f32=draw(st.booleans()), rc=b[0]["rc"], rs=b[0]["rs"], short=draw(i3(0, 9)) == 5, junk=draw(st.sampled_from([0, 9])), roll=draw(i3(0, 4)))


def tables(c):
    for q in c["b"]:
        q["f32"], q["rc"], q["rs"] = c["f32"], c["rc"], c["rs"]
    rc, rs, _, _ = c27.radii(c["b"][0])
    n = min(len(q["il"]) for q in c["b"]); N = max(len(q["ty"]) for q in c["b"])
    per = []                                    # [batch][centre][type] -> neighbours
    for q in c["b"]:
        per.append([[[j for j in q["nb"][ii] if q["ty"][j] == z] for z in range(c["nt"])] for ii in range(n)])
    mx = [max(len(per[b][ii][z]) for b in range(len(per)) for ii in range(n)) for z in range(c["nt"])]
    return rc, rs, n, N, per, mx


def fill(c, n, N, tot, per):
    B = len(c["b"])
    il = np.array([q["il"][:n] for q in c["b"]]); nn = np.array([[len(q["nb"][ii]) for ii in range(n)] for q in c["b"]])
    ty = np.zeros((B, N), int); x = np.full((B, N, 3), 50.0)
    fn = np.full((B, n, tot), c["b"][0]["pad"]); rel = np.full((B, n, tot, 3), float(c["junk"]))
    for b, q in enumerate(c["b"]):
        ty[b, :len(q["ty"])] = q["ty"]
        xb = c27.radii(q)[2]
        x[b, :len(xb)] = xb
        for ii in range(n):
            for k, j in enumerate(q["nb"][ii]):
                if k < tot:
                    fn[b, ii, k] = j; rel[b, ii, k] = xb[j] - xb[q["il"][ii]]
    if c["f32"]:
        rel = rel.astype(np.float32).astype(float)
    return il, nn, ty, x, fn, rel


def want(c, per, lims, rel_of, rc, rs, n, sign):
    out = np.zeros((len(per), n, sum(lims[0]), 16))
    for b, q in enumerate(c["b"]):
        x = c27.radii(q)[2]
        for ii in range(n):
            o = 0
            for z, L in enumerate(lims[b]):
                js = per[b][ii][z]
                if js:
                    out[b, ii, o:o + len(js)] = semodel.joint(x[js] - x[q["il"][ii]], rc, rs, sign)
                o += L
    return out


def get_limits(c, mx):
    lims = [m + e for m, e in zip(mx, c["extra"])]
    if not sum(lims):
        lims[0] = 1
    return lims


def shorten(c, per, lims):
    """a limit below the number of neighbours of that type, the same total; None when impossible"""
    z = max(range(len(lims)), key=lambda z: max(len(p[z]) for b in per for p in b))
    k = max(len(p[z]) for b in per for p in b)
    if not k or len(lims) < 2:
        return None
    new = list(lims); d = new[z] - (k - 1); new[z] -= d; new[(z + 1) % len(new)] += d
    return new


@sub("operator", batches, quick=200, thorough=8000)
def c_op(c):
    rc, rs, n, N, per, mx = tables(c)
    lims = get_limits(c, mx)
    short = shorten(c, per, lims) if c["short"] else None
    if short:
        lims = short
    B = len(per); tot = sum(lims)
    if not any(j for b in per for ii in b for j in ii):
        trivial("no neighbours")
    il, nn, ty, x, fn, rel = fill(c, n, N, tot, per)
    L = [lims] * B
    # limits may differ between batches as long as the totals agree
    if not short and B > 1 and len(lims) > 1 and c["roll"] == 1 and min(len(p[0]) for p in per[1]) >= 0:
        m0 = max(len(p[0]) for p in per[1])
        d = lims[0] - m0
        L = [lims] + [[lims[0] - d, lims[1] + d] + lims[2:]] + [lims] * (B - 2)
        label("limits per batch")
    d = "f32" if c["f32"] else "f64"; k = c["k"]
    s, r = P.ask(op="deepmd.EnvMatrixOp", args=[ten(il, "i32", k[0]), ten(nn, "i32", k[1]), ten(fn, "i32", k[2]), ten(rel, d, k[3]), ten(ty, "i32", k[4]), ten(L, "i32", k[5]), rc, rs])
    if short:
        need(s == "throw", "more neighbours of a type than its limit are not rejected", lims)
        label("limit too small")
        return
    need(s == "ok", "operator raised", r)
    need(r["same"], "inputs changed")
    v, dv = r["out"]
    need(v["s"] == [B, n, tot, 4] and dv["s"] == [B, n, tot, 4, 3] and v["d"] == d and dv["d"] == d, "shapes and types", v["s"], dv["s"], v["d"], dv["d"])
    w = want(c, per, L, rel, rc, rs, n, 1)
    tol = c27.f32tol(c["b"][0], rc, rs)
    c27.need_rows(v["t"], w[..., :4], tol, "values")
    c27.need_rows(dv["t"], w[..., 4:], tol, "derivatives")
    label("batch%d" % B); label(d)
    for q in k:
        label("layout " + q)


@sub("se4pw", batches, quick=200, thorough=8000)
def c_se4pw(c):
    rc, rs, n, N, per, mx = tables(c)
    lims = get_limits(c, mx)
    short = shorten(c, per, lims) if c["short"] else None
    if short:
        lims = short
    B = len(per); tot = sum(lims)
    if not any(j for b in per for ii in b for j in ii):
        trivial("no neighbours")
    il, nn, ty, x, fn, rel = fill(c, n, N, tot, per)
    d = "f32" if c["f32"] else "f64"; k = c["k"]
    idx = [ten(il, "i32", k[0]), ten(nn, "i32", k[1]), ten(fn, "i32", k[2])]
    s, r = P.ask(op="vpd.se4pw", args=[B, n] + idx + [ten(x, d, k[3]), ten(ty, "i32", k[4]), len(lims), ten(lims, "i32", k[5]), rc, rs])
    s2, r2 = P.ask(op="vpd.prim", args=[B, n] + idx + [ten(ty, "i32", k[4]), len(lims), ten(lims, "i32", k[5])])
    if short:
        need(s == "throw" and s2 == "throw", "more neighbours of a type than its limit are not rejected", lims, s, s2)
        label("limit too small")
        return
    need(s == "ok", "operator raised", r)
    need(s2 == "ok", "operator raised", r2)
    need(r["same"] and r2["same"], "inputs changed")
    v, dv, rl = r["out"]
    need(v["s"] == [B, n, tot, 4] and dv["s"] == [B, n, tot, 4, 3] and rl["s"] == [B, n, tot, 3] and {v["d"], dv["d"], rl["d"]} == {d}, "shapes and types", v["s"], dv["s"], rl["s"], v["d"], dv["d"], rl["d"])
    w = want(c, per, [lims] * B, rel, rc, rs, n, -1)
    tol = c27.f32tol(c["b"][0], rc, rs)
    c27.need_rows(v["t"], w[..., :4], tol, "values")
    c27.need_rows(dv["t"], w[..., 4:], tol, "derivatives")
    rw = np.zeros((B, n, tot, 3)); pi = np.full((B, n, tot), -1)
    for b, q in enumerate(c["b"]):
        xb = c27.radii(q)[2]
        for ii in range(n):
            o = 0
            for z, L in enumerate(lims):
                js = per[b][ii][z]
                if js:
                    rw[b, ii, o:o + len(js)] = xb[js] - xb[q["il"][ii]]
                    pi[b, ii, o:o + len(js)] = [j % n for j in js]
                o += L
    c27.need_rows(rl["t"], rw, 1e-5 if c["f32"] else 1e-12, "relative coordinates")
    p = r2["out"][0]
    need(p["s"] == [B, n, tot] and p["d"] == "i32", "shape of the indices", p["s"], p["d"])
    need(p["t"] == pi.ravel().tolist(), "indices of the neighbours", p["t"], pi.ravel().tolist())
    label("batch%d" % B); label(d)
