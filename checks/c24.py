"""C24: native structures, supercells and bins: value semantics over operation histories, geometry by definition."""
import itertools, json
import numpy as np
from hypothesis import strategies as st
import vp, native, gens
from vp import sub, need, label, trivial
from gens import i3
import c23
vp.SUBS.clear()

QX = 3
RULE = "a case is non-trivial when at least one non-empty object exists at the end; distinct by the hash of its canonical JSON"
ASSUMPTIONS = ["scalings are positive; the cell index label (get_prim_cell_idx) of an even scaling follows the convention pinned by the project's own tests"]
P = None


def prepare():
    global P
    P = native.Proc(native.build("nblist.cpp"))


@st.composite
def specs(draw, nmax=4):
    c = draw(gens.crystals(nmin=1, nmax=nmax, max_kinds=3, lo=1800, hi=7000, flo=-1500000, fhi=2500000))
    c["cart"] = draw(st.booleans()); c["form"] = draw(i3(0, 1))
    return c


def args(c):
    lat = gens.lat_array(c["lat"]); fr = gens.frac_array(c)
    return lat, fr @ lat, [lat, c["Z"], (fr @ lat) if c["cart"] else fr, int(c["cart"]), c["form"]]


class Model:
    def __init__(self, lat, Z, cart, origin):
        self.lat, self.Z, self.cart, self.origin = lat, list(Z), cart, origin

    @staticmethod
    def of(c):
        lat, cart, _ = args(c)
        return Model(lat, c["Z"], cart, np.zeros(3))

    def copy(self):
        return Model(self.lat.copy(), self.Z, self.cart.copy(), self.origin.copy())

    def supercell(self, s):
        lo = [-(k // 2) + 1 if k % 2 == 0 else -((k - 1) // 2) for k in s]
        rng = [range(l, l + k) for l, k in zip(lo, s)]
        sh = np.array(list(itertools.product(*rng)), float)
        return Model(self.lat * np.array(s)[:, None], self.Z * len(sh), (self.cart[None] + (sh @ self.lat)[:, None]).reshape(-1, 3), np.array(lo) @ self.lat)


def near(a, b, tol=1e-9):
    a = np.asarray(a, float); b = np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def nums(t):
    return [float(x) for x in t.replace("[", " ").replace("]", " ").replace(",", " ").split()]


def cmp_structure(g, m, what, tol=1e-9):
    if m is None:
        need(g[0] == 0 and g[1] is True, what + ": an empty structure hands out data", g)
        return
    n, lat, org, Z, cart, proj, ipd, vert, lim, txt = g
    need(n == len(m.Z), what + ": number of atoms", n, len(m.Z))
    need(near(lat, m.lat, tol), what + ": lattice", lat, m.lat.tolist())
    need(near(org, m.origin, tol), what + ": origin", org, m.origin.tolist())
    need(Z == m.Z, what + ": species", Z)
    need(near(cart, m.cart, tol), what + ": coordinates", cart, m.cart.tolist())
    need(near(proj, np.abs(m.lat).sum(0), tol), what + ": projected lengths", proj)
    vol = abs(np.linalg.det(m.lat))
    w = [vol / np.linalg.norm(np.cross(m.lat[(k + 1) % 3], m.lat[(k + 2) % 3])) for k in range(3)]
    need(near(ipd, w, max(tol, 1e-8)), what + ": interplanar distances", ipd, w)
    v = np.array([m.origin + np.array(k) @ m.lat for k in itertools.product((0, 1), repeat=3)])
    gv = np.array(vert)
    need(gv.shape == (8, 3), what + ": vertexes")
    left = list(range(8))
    for r in gv:
        k = [q for q in left if np.abs(v[q] - r).max() <= tol * (1 + np.abs(v).max())]
        need(k, what + ": vertex", r.tolist(), v.tolist())
        left.remove(k[0])
    need(near(lim, np.stack([v.min(0), v.max(0)], 1), tol), what + ": limits along x, y, z", lim)
    # the printed form
    rows = [l for l in txt.split("\n") if l.strip() and not any(k in l for k in ("Lattice", "---", "Pseudo", "Site"))]
    need(len(rows) == 4 + n, what + ": printed rows", len(rows))
    need(all(vp.allclose(nums(rows[k]), m.lat[k], atol=2e-6 + tol * 100) for k in range(3)) and vp.allclose(nums(rows[3]), m.origin, atol=2e-6 + tol * 100), what + ": printed cell")
    for k in range(n):
        q = nums(rows[4 + k])
        need(int(q[0]) == k and int(q[1]) == m.Z[k] and vp.allclose(q[2:], m.cart[k], atol=2e-6 + tol * 100), what + ": printed atom", rows[4 + k])


ops = lambda hi: st.lists(st.tuples(i3(0, hi), i3(0, 9), i3(0, 9), st.lists(i3(1, 3), min_size=3, max_size=3)).map(list), max_size=14)


def simulate(model, op, a, b):
    """generic value semantics; returns False if the operation was skipped"""
    n = len(model)
    if n == 0:
        return
    a %= n; b %= n
    if op == 2:
        model.append(model[a]); label("copy")
    elif op == 3:
        model[a] = model[b]; label("assign" if a != b else "self-assign")
        if model[b] is None:
            label("assign empty")
    elif op == 4:
        del model[a]
    elif op == 5:
        model[a], model[b] = model[b], model[a]
    elif op == 6:
        model.append(model[a]); label("collection")
    elif op == 9:
        model.append(model[a]); label("reserved room, then assigned")


@sub("structure_history", lambda: st.tuples(st.lists(specs(), min_size=1, max_size=3), ops(9)).map(list), quick=600, thorough=30000)
def c_struct(case):
    cs, oo = case
    toks = ["hist_structure"] + ["1 " + " ".join(P.flat(args(c)[2], [])) for c in cs]
    model = [Model.of(c) for c in cs]
    for op, a, b, sc in oo:
        if op == 0:
            toks.append("0"); model.append(None); continue
        if op == 1:
            c = cs[a % len(cs)]
            toks.append("1 " + " ".join(P.flat(args(c)[2], []))); model.append(Model.of(c)); continue
        toks.append("%d %d %d" % (op, a, b) + (" %d %d %d" % tuple(sc) if op == 8 else ""))
        if op == 8:
            if model:
                k = a % len(model)
                m = model[k]
                if m is not None and len(m.Z) * sc[0] * sc[1] * sc[2] > 300:
                    toks.pop(); continue
                model[k] = m.supercell(sc) if m is not None else None
                label("supercell")
        else:
            simulate(model, op, a, b)
    s, txt = P.raw(" ".join(toks))
    need(s == "ok", "native code %s" % s, txt)
    r = json.loads(txt)
    need(isinstance(r, list), "native code threw", r)
    need(len(r) == len(model), "objects", len(r), len(model))
    for k, (g, m) in enumerate(zip(r, model)):
        cmp_structure(g, m, "object %d" % k)
    if not any(m is not None for m in model):
        trivial("no object")


def cmp_supercell(g, c, sc, what):
    n, N, scal, ixyz, idx, owned, stt, txt = g
    if c is None:
        need(n == 0 and N == 0 and owned is True, what + ": an empty supercell is not empty", g[:6])
        need(scal == [1, 1, 1] and ixyz == [0, 0, 0] and idx == 0, what + ": an empty supercell differs from a new one", g[:6])
        return
    m = Model.of(c)
    need(n == len(m.Z) and N == n * sc[0] * sc[1] * sc[2], what + ": atom counts", n, N)
    need(scal == sc, what + ": scaling", scal, sc)
    need(ixyz == [(k - 1) // 2 if k % 2 else k // 2 - 1 for k in sc], what + ": index of the primitive cell", ixyz, sc)
    need(idx == ixyz[0] + ixyz[1] * sc[0] + ixyz[2] * sc[0] * sc[1], what + ": label of the primitive cell", idx)
    cmp_structure(stt, m.supercell(sc), what)
    need(len(owned) == n and len(set(owned)) == n, what + ": owned atoms", owned)
    for k, o in enumerate(owned):
        need(0 <= o < N and stt[3][o] == m.Z[k] and near(stt[4][o], m.cart[k]), what + ": owned atom %d is not the atom of the primitive cell" % k, owned, sc)
    # the printed form
    i, j = txt.find("Super Cell"), txt.find("prim_num_atoms")
    need(0 < i < j, what + ": printed form", txt)
    summary(txt[:i], c, what + ": printed")
    need(stt[9].strip() in txt[i:j], what + ": printed structure")
    tail = dict((q.strip() for q in l.split("=")) for l in txt[j:].split("\n") if "=" in l)
    need(int(tail["prim_num_atoms"]) == n and int(tail["prim_cell_idx"]) == idx and nums(tail["prim_cell_idx_xyz"]) == ixyz
         and [int(q) for q in tail["owned_atom_idxs range"].split("~")] == [owned[0], owned[-1]], what + ": printed summary", txt[j:])


@sub("supercell_history", lambda: st.tuples(st.lists(st.tuples(specs(3), st.lists(i3(1, 4), min_size=3, max_size=3)).map(list), min_size=1, max_size=3), ops(7)).map(list), quick=400, thorough=20000)
def c_super(case):
    cs, oo = case
    new = lambda k: "1 " + " ".join(P.flat(args(cs[k][0])[2], []) + [str(x) for x in cs[k][1]])
    toks = ["hist_supercell"] + [new(k) for k in range(len(cs))]
    model = list(range(len(cs)))
    for op, a, b, _ in oo:
        if op == 0:
            toks.append("0"); model.append(None)
        elif op == 1:
            toks.append(new(a % len(cs))); model.append(a % len(cs))
        else:
            toks.append("%d %d %d" % (op, a, b))
            simulate(model, op, a, b)
    s, txt = P.raw(" ".join(toks))
    need(s == "ok", "native code %s" % s, txt)
    r = json.loads(txt)
    need(isinstance(r, list), "native code threw", r)
    need(len(r) == len(model), "objects", len(r), len(model))
    for k, (g, m) in enumerate(zip(r, model)):
        cmp_supercell(g, None if m is None else cs[m][0], None if m is None else cs[m][1], "object %d" % k)
    if not any(m is not None for m in model):
        trivial("no object")


@sub("bins_history", lambda: st.tuples(st.lists(c23.cases(nmax=3), min_size=1, max_size=2), ops(7)).map(list), quick=300, thorough=12000)
def c_bins(case):
    """bins: value semantics; every atom of the supercell sits in exactly one bin; neighbouring bins cover the cutoff sphere"""
    cs, oo = case
    for c in cs:
        c["rcut"] = min(c["rcut"], 3500)
        # bins below a quarter of the cutoff only make the dump long
        c["bins"] = [max(b, 300) for b in c["bins"]]
    info = []
    for c in cs:
        rcut = c["rcut"] / 1000.0
        lat, sp, cart = c23.spec(c)
        info.append((" ".join(P.flat(sp + c23.nlargs(c, rcut), [])), c, rcut, lat, cart, c23.oracle(c, lat, cart, rcut)))
    toks = ["hist_bins"] + ["1 " + i[0] for i in info]
    model = list(range(len(info)))
    for op, a, b, _ in oo[:8]:
        if op == 0:
            toks.append("0"); model.append(None)
        elif op == 1:
            toks.append("1 " + info[a % len(cs)][0]); model.append(a % len(cs))
        else:
            toks.append("%d %d %d" % (op, a, b))
            simulate(model, op, a, b)
    s, txt = P.raw(" ".join(toks))
    need(s == "ok", "native code %s" % s, txt)
    r = json.loads(txt)
    need(isinstance(r, list), "native code threw", r)
    need(len(r) == len(model), "objects", len(r), len(model))
    for g, m in zip(r, model):
        if m is None:
            need(g[0][0] == 0 and g[0][1] == 0 and g[0][2:5] == [[1, 1, 1], [0, 0, 0], 0] and g[1] == [0, 0, 0] and g[2] == [0, 0, 0] and g[3] == [0, 0, 0] and g[4] == [], "an empty bin list is not empty or differs from a new one", g)
            continue
        _, c, rcut, lat, cart, want = info[m]
        sup, bs, nb, lim, neigh, bidx, nnb, nbins, txt = g
        n = len(c["Z"])
        need(near(bs, [b * rcut / 1000.0 for b in c["bins"]] if c["bins"] else [rcut / 2] * 3), "bin sizes", bs)
        N, S = sup[1], sup[6]
        need(near(lim, np.array(S[8])[:, 0]), "lower limits", lim)
        coords = np.array(S[4])
        rows = [l for l in txt.split("\n") if l.startswith("bin_") and not l.startswith("bin_size")]
        need(len(rows) == nb[0] * nb[1] * nb[2], "printed bins", len(rows), nb)
        where = {}
        for l in rows:
            k, rest = l.split(":")
            for a in rest.split(","):
                if a.strip():
                    need(int(a) not in where, "atom in two bins", a)
                    where[int(a)] = int(k.strip()[4:])
        head = dict((q.strip() for q in l.split("=")) for l in txt.split("\n") if "=" in l)
        need(abs(float(head["rcut"]) - rcut) < 1e-3 and nums(head["pbc_xyz"]) == [float(x) for x in c["pbc"]] and vp.allclose(nums(head["bin_size_xyz"]), bs, atol=1e-3)
             and nums(head["num_bin_xyz"]) == nb and vp.allclose(nums(head["min_limit_xyz"]), lim, atol=2e-6), "printed header", head, c["pbc"])
        need(sorted(where) == list(range(N)), "atoms not in any bin", N, len(where))
        for i in range(n):
            L = np.array(neigh[i], int)
            c23.match(c, i, L % n, coords[L] - coords[sup[5][i]] if len(L) else np.zeros((0, 3)), want[i], rcut, "neighbours from the bins")
            need(where[sup[5][i]] == bidx[i], "bin of atom %d" % i, bidx[i])
            q = [b for b in nbins[i] if b != -1]
            need(len(nbins[i]) == nnb, "number of neighbouring bins", len(nbins[i]), nnb)
            for j in L:
                need(where[int(j)] in q, "neighbouring bins of atom %d miss the bin of a neighbour" % i)
    if not any(m is not None for m in model):
        trivial("no object")


@sub("structure_float", lambda: st.tuples(specs(), st.lists(i3(1, 3), min_size=3, max_size=3)).map(list), quick=200, thorough=6000)
def c_float(case):
    c, sc = case
    r = P.call("structure_f", *args(c)[2], *sc)
    cmp_structure(r[0], Model.of(c), "float structure", 3e-6)
    cmp_structure(r[1], Model.of(c).supercell(sc), "float supercell", 3e-6)


@st.composite
def two(draw):
    a = draw(specs()); b = draw(specs())
    if draw(st.booleans()):
        # the same number of atoms, another cell
        m = min(len(a["Z"]), len(b["Z"]))
        for c in (a, b):
            c["Z"] = c["Z"][:m]; c["frac"] = c["frac"][:m]
    return [a, b]


def summary(t, c, what):
    lat = gens.lat_array(c["lat"])
    vol = abs(np.linalg.det(lat))
    w = [vol / np.linalg.norm(np.cross(lat[(k + 1) % 3], lat[(k + 2) % 3])) for k in range(3)]
    rows = [l for l in t.split("\n") if "[" in l]
    need(int(t.split("=")[1].split()[0]) == len(c["Z"]), what + ": atoms of the summary", t)
    need(len(rows) == 2 and vp.allclose(nums(rows[0]), np.abs(lat).sum(0), atol=2e-6) and vp.allclose(nums(rows[1]), w, atol=2e-6), what + ": summary of a structure", t)


@sub("basic_info", two, quick=200, thorough=6000)
def c_info(case):
    c, c2 = case
    A, B, C, ret, B2, A2, C2, D, C3, D2, C4 = P.call("basic_info", *args(c)[2], *args(c2)[2])
    need(ret is True, "assignment does not return its left operand")
    for k, t in enumerate((A, C, B2, C2, D2)):
        summary(t, c, "object %d of the first structure" % k)
    for k, t in enumerate((D, C3, C4)):
        summary(t, c2, "object %d of the second structure" % k)
    for t in (B, A2):
        need(int(t.split("=")[1].split()[0]) == 0 and "[" not in t, "empty summary", t)
    if len(c["Z"]) == len(c2["Z"]):
        label("equal numbers of atoms")
