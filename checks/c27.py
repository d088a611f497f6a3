"""C27: native smooth-edition descriptors (PairTildeR, TildeR, Se4pw) against the formula, its derivative and brute-force neighbours (sanitized build)."""
import json, re
import numpy as np
from hypothesis import strategies as st
import vp, native, gens, semodel
from vp import sub, need, label, trivial
from gens import i3
import c23
vp.SUBS.clear()

QX = 3
RULE = "a case is non-trivial when at least one neighbour lies within the cutoff; distinct by the hash of its canonical JSON"
ASSUMPTIONS = c23.ASSUMPTIONS + ["derivatives are with respect to the position of the centre (minus the derivative with respect to the relative vector)",
                                 "inner radius at least 0.01 A below the cutoff"]
P = None


def prepare():
    global P
    P = native.Proc(native.build("deepmd.cpp"))


# ---------------------------------------------------------------- switching function
@sub("switch", lambda: st.tuples(i3(200, 12000), i3(0, 1000), st.lists(i3(-50, 1500), min_size=1, max_size=20), st.booleans()), quick=300, thorough=20000)
def c_switch(c):
    rc = c[0] / 1000.0
    rs = rc * c[1] / 1000.0 * (0.99 if not c[3] else 0.9)
    if c[3]:
        rc = float(np.float32(rc)); rs = float(np.float32(rs))
    r = [0.0 if x == 0 else rs if x == -1 else rc if x == -2 else abs(x) / 1000.0 * rc for x in c[2]]
    if c[3]:
        r = [float(np.float32(x)) for x in r]
    out = P.call("switch_f" if c[3] else "switch_d", rc, rs, r)
    r = np.array(r)
    tol = 2e-4 if c[3] else 1e-8
    for x, g in zip(r, out):
        rec = 0.0 if x == 0 else 1 / x
        if x < rs:
            w = (1.0, 0.0)
            label("inner")
        elif x < rc:
            u = (x - rs) / (rc - rs)
            w = (1 + u ** 3 * (-6 * u * u + 15 * u - 10), -30 * u * u * (1 - u) ** 2 / (rc - rs))
            label("switching")
        else:
            w = (0.0, 0.0)
            label("outer")
        w = w + (w[0] * rec, rec)
        for a, b, nm in zip(g, w, ("switching function", "its derivative", "smooth function", "reciprocal")):
            need(abs(a - b) <= tol * (1 + abs(b)), nm, dict(r=x, rc=rc, rs=rs, got=a, want=b))
    nums = re.findall(r"= ([-\d.]+)", out[-1])
    need(abs(float(nums[0]) - rc) < 2e-6 and abs(float(nums[1]) - rs) < 2e-6, "printed radii", out[-1])


# ---------------------------------------------------------------- structures
@st.composite
def pairs(draw, nmax=5):
    c = draw(c23.cases(nmax=nmax))
    c["rcut"] = min(c["rcut"], 9000)
    c["rs"] = draw(st.one_of(i3(0, 990), st.sampled_from([0, 900, 990])))      # thousandths of rcut
    k = sorted(set(c["Z"])) + [111]
    c["zc"] = draw(st.sampled_from(k)); c["zn"] = draw(st.sampled_from(k))
    c["lim"] = draw(st.one_of(st.just(-1), i3(0, 12)))       # own maximum or spare rows
    c["fs"] = draw(st.booleans())
    c["short"] = draw(i3(0, 9)) == 5
    return c


def shape_counts(Z, want, zc, zn, rcut):
    Z = np.array(Z)
    lo = max([int(((Z[w[0]] == zn) & (w[2] < rcut - 1e-8)).sum()) for i, w in enumerate(want) if Z[i] == zc] or [0])
    hi = max([int((Z[w[0]] == zn).sum()) for i, w in enumerate(want) if Z[i] == zc] or [0])
    return lo, hi


def close(a, b, tol=1e-8):
    return np.abs(a - b) <= tol * (1 + np.abs(b))


def match_block(got, want, sort, what, exact=False):
    """got (m,16) rows; want (k,16) rows in any order (or exactly in order); the rest zero"""
    if exact:
        w = np.zeros_like(got); w[:len(want)] = want
        need(close(got, w).all(), what, dict(got=got.tolist(), want=w.tolist()) if got.size < 400 else None)
        return
    nz = np.abs(got).max(1) > 1e-12 if len(got) else np.zeros(0, bool)
    # a neighbour right at the cutoff has a zero row too (and may be listed or not)
    gaps = int((~nz[:np.nonzero(nz)[0][-1]]).sum()) if nz.any() else 0
    edge = int((np.abs(want).max(1) <= 1e-12).sum()) if len(want) else 0
    need(gaps <= edge, what + ": padding before a neighbour", got.tolist() if got.size < 400 else None)
    g = got[nz]; w = want[np.abs(want).max(1) > 1e-12] if len(want) else want
    need(len(g) == len(w), what + ": number of neighbours", len(g), len(w))
    used = np.zeros(len(w), bool)
    for r in g:
        k = np.nonzero(close(r, w, 1e-7).all(1) & ~used)[0] if len(w) else []
        need(len(k) > 0, what + ": a row is no neighbour's row", dict(row=r.tolist(), want=w[~used][:4].tolist()))
        used[min(k, key=lambda q: np.abs(w[q] - r).max())] = True
    if sort:
        need((np.diff(g[:, 0]) < 1e-9).all(), what + ": rows not nearest first", g[:, 0].tolist())


def table(r, n, m):
    v = np.array(r[2], float).reshape(n * m, 4); d = np.array(r[3], float).reshape(n * m, 12)
    return np.concatenate([v, d], 1).reshape(n, m, 16)


def printed(txt, n, m, w):
    rows = [l for l in txt.split("\n") if "--" in l]
    need(len(rows) == n * m, "printed rows", len(rows), n, m)
    out = np.zeros((n, m, w))
    for l in rows:
        a, b = l.split("--")
        i, j = [int(x) for x in re.findall(r"\d+", a)]
        out[i, j] = [float(x) for x in re.findall(r"-?\d+\.\d+", b)]
    return out


def judge_pair(c, r, want, rcut, lim):
    Z = c["Z"]; rs = rcut * c["rs"] / 1000.0
    cen = [i for i in range(len(Z)) if Z[i] == c["zc"]]
    lo, hi = shape_counts(Z, want, c["zc"], c["zn"], rcut)
    n, m = r[0], r[1]
    need(n == len(cen), "number of centres", n, len(cen))
    need(m == lim if lim >= 0 else lo <= m <= hi, "number of rows", m, lim, lo, hi)
    t = table(r, n, m)
    for q, i in enumerate(cen):
        jj, vv, dd = want[i]
        k = np.array([Z[j] == c["zn"] for j in jj], bool)
        match_block(t[q], semodel.joint(vv[k], rcut, rs, -1), c["sort"], "centre %d" % i)
    if n:
        need(lo <= r[4] <= hi, "largest number of neighbours", r[4], lo, hi)
    return t


@sub("pair", pairs, quick=250, thorough=12000)
def c_pair(c):
    rcut = c["rcut"] / 1000.0
    lat, sp, cart = c23.spec(c)
    want = c23.oracle(c, lat, cart, rcut)
    lo, hi = shape_counts(c["Z"], want, c["zc"], c["zn"], rcut)
    if not hi:
        trivial("no neighbours")
    if c["fs"]:
        c["bins"] = []
    lim = c["lim"] if c["lim"] < 0 else hi + c["lim"]
    short = c["short"] and lo > 0
    if short:
        lim = lo - 1 - (abs(c["lim"]) % lo)
    args = sp + c23.nlargs(c, rcut) + [int(c["fs"]), c["zc"], c["zn"], lim, rcut * c["rs"] / 1000.0]
    if short:
        s, t = P.attempt("pair", *args)
        need(s == "throw", "a neighbour limit that is too small is not rejected", lim, lo, s, t if s != "ok" else "")
        label("limit too small")
        return
    r = P.call("pair", *args)[0]
    t = judge_pair(c, r, want, rcut, lim)
    label("max" if lim < 0 else "given"); label("from structure" if c["fs"] else "from list")
    n, m = r[0], r[1]
    need(vp.allclose(printed(r[6], n, m, 4), t[:, :, :4], atol=2e-6), "printed values")
    need(vp.allclose(printed(r[7], n, m, 12), t[:, :, 4:], atol=2e-6), "printed derivatives")
    num = dict(re.findall(r"(\w+) = ([-\d.]+)", r[5]))
    need(int(num["center_atomic_number"]) == c["zc"] and int(num["neigh_atomic_number"]) == c["zn"] and int(num["num_center_atoms"]) == n and int(num["num_neigh_atoms"]) == m
         and abs(float(num["rcut"]) - rcut) < 2e-6, "summary", r[5])


@st.composite
def tildes(draw, nmax=4):
    c = draw(pairs(nmax))
    k = sorted(set(c["Z"])) + [111]
    c["cl"] = draw(st.lists(st.sampled_from(k), min_size=1, max_size=3, unique=True))
    c["nlst"] = draw(st.lists(st.sampled_from(k), min_size=1, max_size=4, unique=True))
    c["lims"] = draw(st.one_of(st.just([]), st.lists(i3(0, 9), min_size=len(c["nlst"]), max_size=len(c["nlst"]))))
    return c


def targs(c, want, rcut, sp):
    """request and limits"""
    lims = []
    per = [shape_counts_any(c, want, z, rcut) for z in c["nlst"]]
    if c["lims"]:
        lims = [p[1] + e for p, e in zip(per, c["lims"])]
    if c["fs"]:
        c["bins"] = []
    return sp + c23.nlargs(c, rcut) + [int(c["fs"]), c["cl"], c["nlst"], lims, rcut * c["rs"] / 1000.0], lims, per


def shape_counts_any(c, want, zn, rcut):
    """largest number of zn neighbours over all atoms"""
    Z = np.array(c["Z"])
    lo = max([int(((Z[w[0]] == zn) & (w[2] < rcut - 1e-8)).sum()) for w in want] or [0])
    hi = max([int((Z[w[0]] == zn).sum()) for w in want] or [0])
    return lo, hi


def judge_tilde(c, r, want, rcut, lims, per):
    Z = c["Z"]; rs = rcut * c["rs"] / 1000.0
    n, m = r[0], r[1]
    cen = [i for z in c["cl"] for i in range(len(Z)) if Z[i] == z]
    need(n == len(cen), "number of centres", n, len(cen))
    if not lims:
        nums = [[int(x) for x in re.findall(r"\d+", l.split(":")[1])] for l in r[4].split("\n") if l.startswith("num_neigh_atoms_lst")][0]
        need(len(nums) == len(per) and all(p[0] <= x <= p[1] for p, x in zip(per, nums)), "rows per species", nums, per)
        lims = nums
    need(m == sum(lims), "number of rows", m, lims)
    t = table(r, n, m)
    for q, i in enumerate(cen):
        o = 0
        jj, vv, dd = want[i]
        for z, L in zip(c["nlst"], lims):
            k = np.array([Z[j] == z for j in jj], bool)
            match_block(t[q, o:o + L], semodel.joint(vv[k], rcut, rs, -1), c["sort"], "centre %d, neighbours %d" % (i, z))
            o += L
    return t


@sub("tilde", tildes, quick=180, thorough=8000)
def c_tilde(c):
    rcut = min(c["rcut"], 6000) / 1000.0
    lat, sp, cart = c23.spec(c)
    want = c23.oracle(c, lat, cart, rcut)
    if not any(len(w[0]) for w in want):
        trivial("no neighbours")
    args, lims, per = targs(c, want, rcut, sp)
    if c["short"] and lims:
        # a limit below the largest number of neighbours of a *listed* centre
        bad = [k for k, z in enumerate(c["nlst"]) if max(shape_counts(c["Z"], want, y, z, rcut)[0] for y in c["cl"]) > 0]
        if bad:
            k = bad[0]
            lims[k] = max(shape_counts(c["Z"], want, y, c["nlst"][k], rcut)[0] for y in c["cl"]) - 1
            s, t = P.attempt("tilde", *args)
            need(s == "throw", "a neighbour limit that is too small is not rejected", lims, per, s, t if s != "ok" else "")
            label("limit too small")
            return
    r = P.call("tilde", *args)[0]
    t = judge_tilde(c, r, want, rcut, lims, per)
    n, m = r[0], r[1]
    label("limits given" if lims else "own limits"); label("species%d" % len(c["nlst"]))
    need(vp.allclose(printed(r[5], n, m, 4), t[:, :, :4], atol=2e-6), "printed values")
    need(vp.allclose(printed(r[6], n, m, 12), t[:, :, 4:], atol=2e-6), "printed derivatives")
    need("[%d, %d, 4]" % (n, m) in r[4] and "[%d, %d, 4, 3]" % (n, m) in r[4], "printed shapes", r[4])


@sub("history", lambda: st.tuples(st.lists(tildes(nmax=3), min_size=1, max_size=3), st.lists(st.tuples(i3(0, 7), i3(0, 9), i3(0, 9)), max_size=10), st.booleans()).map(
    lambda t: dict(c=t[0], ops=[list(x) for x in t[1]], pair=t[2])), quick=150, thorough=6000)
def c_hist(case):
    """copies, assignments, self-assignments, moves and destruction of descriptors, in any order"""
    pr = []
    for c in case["c"]:
        rcut = min(c["rcut"], 3500) / 1000.0
        lat, sp, cart = c23.spec(c)
        want = c23.oracle(c, lat, cart, rcut)
        if case["pair"]:
            if c["fs"]:
                c["bins"] = []
            lo, hi = shape_counts(c["Z"], want, c["zc"], c["zn"], rcut)
            lim = c["lim"] if c["lim"] < 0 else hi + c["lim"]
            a = sp + c23.nlargs(c, rcut) + [int(c["fs"]), c["zc"], c["zn"], lim, rcut * c["rs"] / 1000.0]
            pr.append((a, (lambda c, r, want=want, rcut=rcut, lim=lim: judge_pair(c, r, want, rcut, lim)), c))
        else:
            a, lims, per = targs(c, want, rcut, sp)
            pr.append((a, (lambda c, r, want=want, rcut=rcut, lims=lims, per=per: judge_tilde(c, r, want, rcut, lims, per)), c))
    txts = [" ".join(P.flat(p[0], [])) for p in pr]
    toks = ["hist_pair" if case["pair"] else "hist_tilde"] + ["1 " + t for t in txts]
    model = list(range(len(pr)))
    for op, a, b in case["ops"]:
        if op == 0:
            toks.append("0"); model.append(None); continue
        if op == 1:
            toks.append("1 " + txts[a % len(pr)]); model.append(a % len(pr)); continue
        toks.append("%d %d %d" % (op, a, b))
        n = len(model)
        if n == 0:
            continue
        a %= n; b %= n
        if op == 2:
            model.append(model[a])
        elif op == 3:
            model[a] = model[b]; label("assign" if a != b else "self-assign")
        elif op == 4:
            del model[a]
        elif op == 5:
            model[a], model[b] = model[b], model[a]
        elif op == 6:
            model.append(model[a])
    s, txt = P.raw(" ".join(toks))
    need(s == "ok", "native code %s" % s, txt)
    r = json.loads(txt)
    need(isinstance(r, list), "native code threw", r)
    need(len(r) == len(model), "objects", len(r), len(model))
    for g, m in zip(r, model):
        if m is None:
            need(g[0] == 0 and g[1] == 0 and g[2] == [], "an empty descriptor is not empty", g[:3])
            continue
        pr[m][1](pr[m][2], g)


# ---------------------------------------------------------------- explicit lists (lammps form, flat tables)
@st.composite
def big_clusters(draw, flat=False):
    """many atoms and neighbours, expanded from a seed"""
    r = np.random.RandomState(draw(i3(0, 2 ** 31)))
    N = draw(st.one_of(i3(10, 90), i3(10, 90), i3(140, 320))); nt = draw(i3(1, 6))
    x = []
    for p in r.randint(-5000, 5001, (N, 3)).tolist():
        if all(sum((a - b) ** 2 for a, b in zip(p, q)) > 300 ** 2 for q in x):
            x.append(p)
    N = len(x)
    kinds = list(range(nt)) if flat else [int(q) for q in r.permutation(np.arange(1, 101))[:nt]]
    il = [int(q) for q in r.permutation(N)[:draw(i3(1, N if N < 100 else 6))]]
    full = draw(st.booleans())
    nb = [[int(q) for q in r.permutation(N) if q != i][:N if full else r.randint(0, N + 1)] for i in il]
    return dict(x=x, ty=[kinds[q] for q in r.randint(0, nt, N)], kinds=kinds, il=il, nb=nb, rc=draw(i3(2000, 9000)), rs=draw(i3(0, 950)), spare=[draw(i3(0, 4)) for _ in range(nt)],
                f32=draw(st.booleans()), short=draw(i3(0, 11)) == 5, pad=draw(st.sampled_from([-1, 0])), order=list(draw(st.permutations(kinds))), csub=draw(i3(1, nt)),
                zc=draw(st.sampled_from(kinds)), zn=draw(st.sampled_from(kinds)))


@st.composite
def clusters(draw, ntypes=None, flat=False):
    if draw(i3(1, 12)) == 12:
        return draw(big_clusters(flat))
    N = draw(i3(1, 9))
    nt = draw(i3(1, 3))
    x = []
    for _ in range(N):
        p = [draw(i3(-4000, 4000)) for _ in range(3)]
        if all(sum((a - b) ** 2 for a, b in zip(p, q)) > 300 ** 2 for q in x):
            x.append(p)
    N = len(x)
    kinds = list(range(nt)) if flat else draw(st.lists(i3(1, 100), min_size=nt, max_size=nt, unique=True))
    ty = [draw(st.sampled_from(kinds)) for _ in range(N)]
    il = draw(st.permutations(list(range(N))))[:draw(i3(1, N))]
    nb = [draw(st.permutations([j for j in range(N) if j != i]))[:draw(i3(0, N))] for i in il]
    return dict(x=x, ty=ty, kinds=kinds, il=list(il), nb=[list(b) for b in nb], rc=draw(i3(500, 9000)), rs=draw(i3(0, 950)), spare=[draw(i3(0, 4)) for _ in range(nt)],
                f32=draw(st.booleans()), short=draw(i3(0, 11)) == 5, pad=draw(st.sampled_from([-1, 0])), order=list(draw(st.permutations(kinds))), csub=draw(i3(1, nt)),
                zc=draw(st.sampled_from(kinds)), zn=draw(st.sampled_from(kinds)))


def radii(c):
    rc = c["rc"] / 1000.0; rs = rc * c["rs"] / 1000.0
    x = np.array(c["x"], float).reshape(-1, 3) / 1000.0
    tol = 1e-8
    if c["f32"]:
        rc = float(np.float32(rc)); rs = float(np.float32(min(rs, rc - 0.25)))
        x = x.astype(np.float32).astype(float)
        tol = 1e-3
    return rc, rs, x, tol


def f32tol(c, rc, rs):
    return 2e-4 * (1 + 1 / (rc - rs)) if c["f32"] else 1e-8


def need_rows(got, want, tol, what):
    got = np.asarray(got, float).reshape(want.shape)
    ok = np.abs(got - want) <= tol * (1 + np.abs(want))
    if not ok.all():
        k = tuple(int(q[0]) for q in np.nonzero(~ok))
        need(False, what, dict(at=k, got=float(got[k]), want=float(want[k])))


def expected(c, x, rc, rs, centres, blocks, lims, sign):
    """(len(centres), sum(lims), 16)"""
    out = np.zeros((len(centres), sum(lims), 16))
    for q, ii in enumerate(centres):
        o = 0
        for z, L in zip(blocks, lims):
            js = [j for j in c["nb"][ii] if c["ty"][j] == z]
            if js:
                out[q, o:o + len(js)] = semodel.joint(x[js] - x[c["il"][ii]], rc, rs, sign)
            o += L
    return out


def count(c, centres, z):
    return max([sum(1 for j in c["nb"][ii] if c["ty"][j] == z) for ii in centres] or [0])


def ragged(c, x):
    return [c["il"], [len(b) for b in c["nb"]], [j for b in c["nb"] for j in b], x, c["ty"]]


@sub("lists_pair", clusters, quick=300, thorough=20000)
def c_lp(c):
    rc, rs, x, _ = radii(c)
    tol = f32tol(c, rc, rs)
    if not any(c["nb"]):
        trivial("no neighbours")
    cen = [ii for ii in range(len(c["il"])) if c["ty"][c["il"][ii]] == c["zc"]]
    m = count(c, cen, c["zn"]) + c["spare"][0]
    r = P.call("lmp_pair_f" if c["f32"] else "lmp_pair_d", *ragged(c, x), c["zc"], c["zn"], m, rc, rs)
    w = expected(c, x, rc, rs, cen, [c["zn"]], [m], -1)
    need_rows(r[0], w[:, :, :4], tol, "values")
    need_rows(r[1], w[:, :, 4:], tol, "derivatives")
    label("f32" if c["f32"] else "f64")


@sub("lists_tilde", clusters, quick=300, thorough=20000)
def c_lt(c):
    rc, rs, x, _ = radii(c)
    tol = f32tol(c, rc, rs)
    if not any(c["nb"]):
        trivial("no neighbours")
    cl = c["order"][:c["csub"]]; nl = c["kinds"]
    cen = [ii for z in cl for ii in range(len(c["il"])) if c["ty"][c["il"][ii]] == z]
    lims = [count(c, range(len(c["il"])), z) + s for z, s in zip(nl, c["spare"])]
    r = P.call("lmp_tilde_f" if c["f32"] else "lmp_tilde_d", *ragged(c, x), cl, nl, lims, rc, rs)
    w = expected(c, x, rc, rs, cen, nl, lims, -1)
    for k, nm in ((0, "values"), (1, "values (given array)")):
        need_rows(r[k], w[:, :, :4], tol, nm)
    for k, nm in ((2, "derivatives"), (3, "derivatives (given array)")):
        need_rows(r[k], w[:, :, 4:], tol, nm)


def flat_tables(c, x, rel=False):
    """flat firstneigh tables with row length sum(lims); returns request, lims, centres"""
    n = len(c["il"])
    lims = [count(c, range(n), z) + s for z, s in zip(c["kinds"], c["spare"])]
    tot = sum(lims)
    short = None
    if c["short"]:
        for t, L in enumerate(lims):
            k = count(c, range(n), c["kinds"][t])
            if k > 0:
                lims[t] = k - 1
                lims[-1 if t != len(lims) - 1 else 0] += (tot - sum(lims)) if len(lims) > 1 else 0     # same row length: only the per-species limit is too small
                if count(c, range(n), c["kinds"][t]) > lims[t] and sum(lims) >= max(len(b) for b in c["nb"]):
                    short = t
                else:
                    lims = [count(c, range(n), z) + s for z, s in zip(c["kinds"], c["spare"])]
                break
    tot = sum(lims)
    fn = np.full((n, tot), c["pad"], int)
    for ii, b in enumerate(c["nb"]):
        fn[ii, :len(b)] = b
    return fn, lims, tot, short


@sub("tables_se4pw", lambda: clusters(flat=True), quick=300, thorough=20000)
def c_s4(c):
    rc, rs, x, _ = radii(c)
    tol = f32tol(c, rc, rs)
    if not any(c["nb"]):
        trivial("no neighbours")
    n = len(c["il"])
    fn, lims, tot, short = flat_tables(c, x)
    args = [c["il"], [len(b) for b in c["nb"]], fn, x, c["ty"], lims, rc, rs]
    cmd = "se4pw_f" if c["f32"] else "se4pw_d"
    if short is not None:
        s, t = P.attempt(cmd, *args)
        need(s == "throw", "more neighbours of a species than its limit are not rejected", lims, s, t if s != "ok" else "")
        label("limit too small")
        return
    r = P.call(cmd, *args)
    w = expected(c, x, rc, rs, range(n), c["kinds"], lims, -1)
    need_rows(r[0], w[:, :, :4], tol, "values")
    need_rows(r[1], w[:, :, 4:], tol, "derivatives")
    rel = np.zeros((n, tot, 3)); pi = np.full((n, tot), -1)
    for ii in range(n):
        o = 0
        for z, L in zip(c["kinds"], lims):
            js = [j for j in c["nb"][ii] if c["ty"][j] == z]
            if js:
                rel[ii, o:o + len(js)] = x[js] - x[c["il"][ii]]
                pi[ii, o:o + len(js)] = [j % n for j in js]
            o += L
    need_rows(r[2], rel, 1e-5 if c["f32"] else 1e-12, "relative coordinates")
    need(r[3] == pi.ravel().tolist(), "indices of the neighbours", r[3], pi.ravel().tolist())
    label("f32" if c["f32"] else "f64")
