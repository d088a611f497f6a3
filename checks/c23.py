"""C23: native neighbour lists against brute force over periodic images (address/UB-sanitized build)."""
import numpy as np
from hypothesis import strategies as st
import vp, native, gens, brute
from vp import sub, need, label, trivial
from gens import i3

QX = 3
RULE = ("a case is non-trivial when at least one atom has a neighbour; distinct by the hash of its canonical JSON")
ASSUMPTIONS = ["atoms at least 0.3 A apart (the code treats pairs closer than sqrt(1e-3) A as the same atom), bins no smaller than rcut/6",
               "pairs within 1e-8 A of the cutoff may be listed or not"]
P = None


def prepare():
    global P
    P = native.Proc(native.build("nblist.cpp"))


@st.composite
def cells(draw, nmax=6, wrapped=None):
    c = draw(gens.crystals(nmin=1, nmax=min(nmax, 30), max_kinds=3, lo=1800, hi=7000, flo=-1500000, fhi=2500000, big=nmax, every=1))
    mode = wrapped or draw(st.sampled_from(["wrapped", "wrapped", "any", "edge"]))
    if mode == "wrapped":
        c["frac"] = [[x % 1000000 for x in f] for f in c["frac"]]
    elif mode == "edge":
        e = st.sampled_from([0, 1000000, 500000, 999999, 1, -1])
        c["frac"] = [[draw(e) for _ in range(3)] for f in c["frac"]]
    c = gens.dedup(c, 0.3)
    c["mode"] = mode
    return c


def rotated_basis(c):
    """exact lattice with sub-ulp noise such as pymatgen produces (6e-17 entries)"""
    lat = gens.lat_array(c["lat"])
    if c.get("noise"):
        t = np.pi / 2 * c["noise"]
        R = np.array([[np.cos(t), -np.sin(t), 0], [np.sin(t), np.cos(t), 0], [0, 0, 1.0]])
        lat = lat @ R
    return lat


@st.composite
def cases(draw, nmax=6, wrapped=None):
    c = draw(cells(nmax, wrapped))
    c["noise"] = draw(st.sampled_from([0, 0, 0, 1, 2, 3]))
    c["cart"] = draw(st.booleans())
    c["form"] = draw(i3(0, 1))
    c["pbc"] = [int(draw(st.sampled_from([1, 1, 0]))) for _ in range(3)]
    lat = gens.lat_array(c["lat"])
    vol = abs(np.linalg.det(lat))
    h = 1 / np.linalg.norm(np.linalg.inv(lat), axis=0)
    # between half the smallest and three times the largest distance of lattice planes, the number of pairs kept moderate
    rc = draw(i3(0, 1000)) / 1000.0
    lo, hi = 0.5 * h.min(), 3 * h.max()
    cap = (1500.0 * vol / max(1, len(c["Z"])) ** 2) ** (1 / 3.)
    c["rcut"] = int(1000 * min(hi - rc * (hi - lo), max(lo, cap)))
    c["bins"] = draw(st.one_of(st.just([]), st.lists(i3(170, 2500), min_size=3, max_size=3)))     # in units of rcut/1000
    c["sort"] = draw(st.booleans())
    c["umax"] = draw(i3(0, 60))
    return c


def spec(c):
    lat = rotated_basis(c)
    fr = gens.frac_array(c)
    xyz = fr @ lat if c["cart"] else fr
    return lat, [lat, c["Z"], xyz, int(c["cart"]), c["form"]], fr @ lat


def nlargs(c, rcut):
    return [rcut, [b * rcut / 1000.0 for b in c["bins"]], c["pbc"], int(c["sort"])]


def oracle(c, lat, cart, rcut):
    """for each atom: arrays j, vec, dist of all images within rcut (+ those on the boundary, flagged)"""
    fr = cart @ np.linalg.inv(lat)
    spread = (fr.max(0) - fr.min(0)).max()
    R = [r if p else 0 for r, p in zip(brute.range_for(lat, rcut, spread), c["pbc"])]
    import itertools
    sh = np.array(list(itertools.product(*[range(-x, x + 1) for x in R])), float) @ lat
    res = []
    for i in range(len(cart)):
        v = cart[:, None, :] + sh[None] - cart[i]
        d = np.sqrt((v * v).sum(-1))
        m = (d < rcut + 1e-8) & (d > 0.1)
        jj, _ = np.nonzero(m)
        res.append((jj, v[m], d[m]))
    return res


def match(c, i, got_j, got_v, want, rcut, what):
    """multiset comparison by (prim index, vector)"""
    jj, vv, dd = want
    got_j = np.asarray(got_j, int); got_v = np.asarray(got_v, float).reshape(-1, 3)
    used = np.zeros(len(jj), bool)
    for a, v in zip(got_j, got_v):
        e = np.abs(vv - v).max(1) if len(vv) else np.zeros(0)
        k = np.nonzero((jj == a) & (e < 1e-8) & ~used)[0]
        if not len(k):
            dup = ((jj == a) & (e < 1e-8)).any()
            need(False, "%s: atom %d: %s neighbour" % (what, i, "duplicate" if dup else "wrong"), dict(j=int(a), vec=v.tolist(), dist=float(np.linalg.norm(v)), rcut=rcut))
        used[k[0]] = True
    miss = ~used & (dd < rcut - 1e-8)
    need(not miss.any(), "%s: atom %d: missing neighbour" % (what, i), [(int(jj[k]), vv[k].tolist(), float(dd[k])) for k in np.nonzero(miss)[0][:3]], rcut)


@sub("lists_wrapped", lambda: cases(wrapped="wrapped"), quick=350, thorough=20000)
def c_lists(c):
    run(c)


@sub("lists_unwrapped", lambda: cases(wrapped="any"), quick=300, thorough=12000)
def c_lists_u(c):
    run(c)


@sub("lists_edge", lambda: cases(wrapped="edge"), quick=300, thorough=12000)
def c_lists_e(c):
    run(c)


@sub("lists_larger", lambda: cases(nmax=24), quick=120, thorough=5000)
def c_lists2(c):
    run(c)


def run(c):
    rcut = c["rcut"] / 1000.0
    lat, sp, cart = spec(c)
    n = len(c["Z"])
    want = oracle(c, lat, cart, rcut)
    if not any(len(w[0]) for w in want):
        trivial("no neighbours")
    kinds = sorted(set(c["Z"])) + [111]
    r = P.call("nl", *sp, *nlargs(c, rcut), c["umax"], kinds)
    (nc, rc, lists, mx, nsup, coords, zs, owned), ssss, umax, inum, il, nn, fn, rel, ty, ngh, s1, s2, s3, s4, st0 = r
    need(nc == n and rc == rcut and len(lists) == n, "centres / cutoff", nc, rc)
    coords = np.array(coords); zs = np.array(zs)
    label("pbc%d" % sum(c["pbc"])); label(c["mode"]); label("bins" if c["bins"] else "default bins")
    for i in range(n):
        L = np.array(lists[i], int)
        need(((L >= 0) & (L < nsup)).all(), "neighbour index outside the supercell", lists[i])
        need(np.abs(coords[owned[i]] - cart[i]).max() < 1e-8, "owned atom of the supercell is not the atom of the cell", i)
        v = coords[L] - coords[owned[i]] if len(L) else np.zeros((0, 3))
        match(c, i, L % n, v, want[i], rcut, "neighbour list")
        need((zs[L] == np.array(c["Z"])[L % n]).all() if len(L) else True, "species of neighbours", i)
        if c["sort"]:
            d = np.linalg.norm(v, axis=1)
            need((np.diff(d) > -1e-9).all(), "neighbours not sorted by distance", d.tolist())
            label("sorted")
    need(mx == max([len(x) for x in lists]), "largest number of neighbours", mx)
    k = 0
    for a in kinds:
        for b in kinds:
            w = max([sum(1 for j in lists[i] if c["Z"][j % n] == b) for i in range(n) if c["Z"][i] == a] or [0])
            need(ssss[k] == w, "largest number of %d neighbours around %d" % (b, a), ssss[k], w)
            k += 1
    # table for machine learning
    need(inum == n and il == list(range(n)) and ngh == 0 and ty == c["Z"], "table header", inum, il, ty, ngh)
    need(nn == [len(x) for x in lists], "neighbour counts", nn)
    fn = np.array(fn, int).reshape(n, umax) if umax else np.zeros((n, 0), int)
    rel = np.array(rel, float).reshape(n, umax, 3) if umax else np.zeros((n, 0, 3))
    for i in range(n):
        m = nn[i]
        need((fn[i, m:] == -1).all() and (rel[i, m:] == 0).all(), "padding of the table", fn[i].tolist())
        need(fn[i, :m].tolist() == [j % n for j in lists[i]], "indices of the table", fn[i].tolist())
        match(c, i, fn[i, :m], rel[i, :m], want[i], rcut, "table")
        if c["sort"]:
            d = np.linalg.norm(rel[i, :m], axis=1)
            need((np.diff(d) > -1e-9).all(), "table not sorted by distance", d.tolist())
    # printed forms
    def parse(txt, f=float):
        rows = [l for l in txt.split("\n") if ":" in l]
        need(len(rows) == n, "printed rows", len(rows))
        return [(int(l.split(":")[0]), [f(x) for x in l.split(":")[1].split(",") if x.strip()]) for l in rows]
    need(parse(s1, int) == [(i, lists[i]) for i in range(n)], "show_in_index")
    need(parse(s2, int) == [(i, [j % n for j in lists[i]]) for i in range(n)], "show_in_prim_index")
    need(parse(s3, int) == [(c["Z"][i], [c["Z"][j % n] for j in lists[i]]) for i in range(n)], "show_in_an")
    for i, (z, d) in enumerate(parse(s4)):
        w = [np.linalg.norm(coords[j] - coords[owned[i]]) for j in lists[i]]
        need(z == c["Z"][i] and len(d) == len(w) and vp.allclose(d, w, atol=1e-6), "show_in_distances", i)
    need(st0[0] == n, "the structure handed in changed")


@sub("lists_many", lambda: cases(nmax=90), quick=16, thorough=600)
def lists_many(c):
    run(c)


@st.composite
def huge(draw):
    """more atoms than a byte can number"""
    Z, fr = gens.bulk(draw(st.integers(0, 2 ** 31)), draw(i3(262, 300)), draw(i3(1, 5)), 118, -300000, 1300000)
    c = gens.dedup(dict(lat=draw(gens.lattices(16000, 19000, ("ortho", "left"))), Z=Z, frac=fr), 0.3)
    c.update(mode="any", noise=draw(i3(0, 3)), cart=draw(st.booleans()), form=draw(i3(0, 1)), pbc=[int(draw(st.sampled_from([1, 1, 0]))) for _ in range(3)],
             rcut=draw(i3(3000, 5000)), bins=[], sort=draw(st.booleans()), umax=draw(i3(0, 60)))
    return c


@sub("lists_huge", huge, quick=2, thorough=60)
def lists_huge(c):
    run(c)


@sub("history", lambda: st.tuples(st.lists(cases(nmax=3), min_size=1, max_size=3), st.lists(st.tuples(i3(0, 7), i3(0, 9), i3(0, 9)), max_size=12)).map(lambda t: dict(c=t[0], ops=[list(x) for x in t[1]])), quick=200, thorough=8000)
def c_hist(case):
    """copies, assignments, self-assignments, moves and destruction of neighbour lists, in any order"""
    cs = case["c"]
    for c in cs:
        c["rcut"] = min(c["rcut"], 3500)
    pr = []
    for c in cs:
        rcut = c["rcut"] / 1000.0
        lat, sp, cart = spec(c)
        a = P.flat(sp + nlargs(c, rcut), [])
        pr.append((" ".join(a), oracle(c, lat, cart, rcut), c, rcut))
    toks = ["hist_nl"] + ["1 " + p[0] for p in pr]
    model = list(range(len(pr)))
    for op, a, b in case["ops"]:
        if op == 0:
            toks.append("0"); model.append(None); continue
        if op == 1:
            toks.append("1 " + pr[a % len(pr)][0]); model.append(a % len(pr)); continue
        toks.append("%d %d %d" % (op, a, b))
        n = len(model)
        if n == 0:
            continue
        a %= n; b %= n
        if op == 2:
            model.append(model[a])
        elif op == 3:
            model[a] = model[b]; label("assign" if a != b else "self-assign")
        elif op == 4:
            del model[a]
        elif op == 5:
            model[a], model[b] = model[b], model[a]
        elif op == 6:
            model.append(model[a])
    s, txt = P.raw(" ".join(toks))
    need(s == "ok", "native code %s" % s, txt)
    import json
    r = json.loads(txt)
    need(isinstance(r, list), "native code threw", r)
    need(len(r) == len(model), "objects", len(r), len(model))
    for g, m in zip(r, model):
        if m is None:
            need(g[0] == 0 and g[2] == [], "an empty list is not empty", g[:3])
            continue
        _, want, c, rcut = pr[m]
        n = len(c["Z"])
        need(g[0] == n and g[1] == rcut, "copied list", g[:2])
        coords = np.array(g[5])
        for i in range(n):
            L = np.array(g[2][i], int)
            match(c, i, L % n, coords[L] - coords[g[7][i]] if len(L) else np.zeros((0, 3)), want[i], rcut, "copied neighbour list")
