"""C16 DOS and fat-band tables."""
import os
import numpy as np
import vp
from vp import sub, need, label, fresh_dir
from gens import *
import again
from hypothesis import strategies as st

QX = 2
RULE = "a case counts when the table has at least two orbital columns and every selection was compared"
ASSUMPTIONS = ["columns are named <Symbol>-<orbital>; fat-band files have the header first, then per band a BAND line, one line per k-point and a blank line",
               "orbital selections are asked for names that are no proper prefix of another column"]
BOHR = 0.529177249
FRIENDS = ["S", "Si", "Se", "Sn", "Sc", "K", "Kr", "C", "Cs", "Ca", "Cl", "Cr", "Co", "Cu", "B", "Ba", "Be", "Br", "N", "Na", "Ne", "Ni", "Nb", "H", "He", "Hf",
           "P", "Pt", "Pb", "O", "Os", "I", "In", "Ir", "E", "Er", "Eu", "T", "Te", "Ti", "W", "Mo", "As", "V", "F", "Fe", "Y", "Yb"]
FRIENDS = [s for s in FRIENDS if s in S2Z]
ORB = ["3S", "3P", "4S", "4D", "s", "p", "d", "3Px", "3Py", "4Dxy", "4Dz2", "4Dx2", "5F"]


@st.composite
def tables(draw, dup):
    els = draw(st.one_of(st.lists(st.sampled_from(["S", "Si", "Sn", "Cs", "C", "K", "Kr", "As", "N", "Na"]), min_size=2, max_size=5, unique=True),
                         st.lists(st.sampled_from(FRIENDS), min_size=1, max_size=5, unique=True)))
    cols = []
    for e in els:
        for o in draw(st.lists(st.sampled_from(ORB), min_size=1, max_size=4, unique=True)):
            cols.append(e + "-" + o)
    cols = draw(st.permutations(cols))
    if dup and draw(st.booleans()):
        cols = list(cols) + [draw(st.sampled_from(cols))]
    nb = draw(st.integers(1, 5)); nk = draw(st.integers(1, 5))
    rows = [[draw(st.integers(0, 99999)) for _ in cols] for _ in range(nb * nk)]
    head = [[draw(st.integers(0, 999999)), draw(st.integers(-999999, 999999)), draw(st.integers(0, 99999))] for _ in range(nb * nk)]
    how = draw(st.sampled_from([0, 0, 1, 2, 2, 3]))
    for i in range(nk, nb * nk) if how else ():
        head[i][0] = head[i % nk][0]            # the bands share the k-points
        if how == 2 and draw(st.booleans()):    # degenerate with an earlier band
            j = i % nk + nk * draw(st.integers(0, i // nk - 1))
            head[i], rows[i] = list(head[j]), list(rows[j])
    if how == 3:                                # nothing of some orbitals or in some rows
        gone = draw(st.lists(st.booleans(), min_size=len(cols), max_size=len(cols)))
        rows = [[0 if g or k == 0 else x for x, g in zip(r, gone)] for r, k in zip(rows, draw(st.lists(st.integers(0, 3), min_size=nb * nk, max_size=nb * nk)))]
    return dict(cols=list(cols), nb=nb, nk=nk, rows=rows, head=head, hash=draw(st.booleans()), tot=draw(st.sampled_from(["Total", "total"])))


def by_element(cols, A):
    out = {}
    for j, c in enumerate(cols):
        e = c.split("-")[0]
        out[e] = out.get(e, 0) + A[:, j]
    return out


@sub("dos", tables(True), quick=500, thorough=8000)
def dos(case):
    from matersdk.io.pwmat.output.dostotalspin import Dostotalspin
    d = fresh_dir(); p = os.path.join(d, "DOS.totalspin")
    cols = case["cols"]
    txt = ("#   " if case["hash"] else "") + "   ".join(["Energy", case["tot"]] + cols) + "\n"
    for h, r in zip(case["head"], case["rows"]):
        txt += "  ".join(["%.4f" % (h[1] / 1e4), "%.5E" % (h[2] / 1e4)] + ["%.6f" % (x / 1e4) for x in r]) + "\n"
    open(p, "w").write(txt)
    o = Dostotalspin(p)
    H = np.array(case["head"], float); A = np.array(case["rows"], float).reshape(len(H), -1) / 1e4
    t = o.get_tdos()
    need(t.shape == (len(H), 2), "total DOS shape", t.shape)
    need(vp.allclose(t["Energy"], H[:, 1] / 1e4) and vp.allclose(t[case["tot"]], H[:, 2] / 1e4), "total DOS")
    ref = by_element(cols, A)
    e = o.get_pdos_elements()
    need(sorted(e.columns) == sorted(["Energy"] + list(ref)), "elements", sorted(e.columns), sorted(ref))
    need(vp.allclose(e["Energy"], H[:, 1] / 1e4), "energies of the element DOS")
    for k in ref:
        need(vp.allclose(e[k], ref[k], atol=1e-9), "DOS of element", k)
    q = o.get_pdos_orbitals()
    need(q.shape == (len(H), len(cols) + 1), "orbital table shape")
    need(vp.allclose(q.iloc[:, 0], H[:, 1] / 1e4) and vp.allclose(q.iloc[:, 1:].to_numpy(), A), "orbital DOS")
    for j, c in enumerate(cols):
        if cols.count(c) == 1:
            need(vp.allclose(q[c], A[:, j]), "orbital column", c)
    need(open(p).read() == txt, "the DOS file was changed")
    del o
    need(os.listdir(d) == ["DOS.totalspin"], "files left behind", os.listdir(d))
    els = sorted(ref)
    if any(a != b and b.startswith(a) for a in els for b in els):
        label("symbol is a prefix of another")
    if len(cols) < 2:
        vp.trivial("one column")


@sub("fatband", tables(False), quick=350, thorough=8000)
def fatband(case):
    from matersdk.io.pwmat.output.fatabandstructureTxt import FatbandStructure
    p = os.path.join(fresh_dir(), "fatbandstructure_1.txt")
    cols = case["cols"]; nb, nk = case["nb"], case["nk"]
    L = ["   ".join(["", "KPOINT", "ENERGY", "weight_tot"] + cols)]
    for b in range(nb):
        L.append("  BAND      %d" % (b + 1))
        for i in range(b * nk, b * nk + nk):
            h = case["head"][i]
            L.append("  ".join(["", "%.6f" % (h[0] / 1e6), "%.4f" % (h[1] / 1e4), "%.5f" % (h[2] / 1e5)] + ["%.6f" % (x / 1e4) for x in case["rows"][i]]))
        L.append("")
    open(p, "w").write("\n".join(L) + "\n")
    f = FatbandStructure(p)
    need(f.num_bands == nb and f.num_kpoints == nk, "number of bands and k-points", f.num_bands, f.num_kpoints, nb, nk)
    H = np.array(case["head"], float) / [1e6 * BOHR, 1e4, 1e5]
    A = np.array(case["rows"], float).reshape(len(H), -1) / 1e4
    ref = by_element(cols, A)
    need(sorted(f.elements_lst) == sorted(ref), "elements", f.elements_lst)
    tot, ele = f.get_total_dfs_lst(), f.get_element_dfs_lst()
    need(len(tot) == nb and len(ele) == nb, "one table per band")
    for b in range(nb):
        s = slice(b * nk, b * nk + nk)
        for df, names in ((tot[b], cols), (ele[b], sorted(ref))):
            need(sorted(df.columns) == sorted(["KPOINT", "ENERGY", "weight_tot"] + list(names)), "columns", list(df.columns))
            need(len(df) == nk, "rows per band")
            need(vp.allclose(df[["KPOINT", "ENERGY", "weight_tot"]].to_numpy(), H[s], atol=1e-9), "k-point, energy, total weight")
        for j, c in enumerate(cols):
            need(vp.allclose(tot[b][c], A[s, j]), "orbital weight", c)
        for e in ref:
            need(vp.allclose(ele[b][e], ref[e][s], atol=1e-9), "weight of element", e)
    for j, c in enumerate(cols):
        if any(o != c and o.lower().startswith(c.lower()) for o in cols):
            label("ambiguous orbital skipped"); continue
        for name in (c, c.lower(), c.upper()):
            o = f.get_orbital_dfs_lst(name)
            need(len(o) == nb, "one table per band")
            for b in range(nb):
                need(list(o[b].columns) == ["KPOINT", "ENERGY", "weight_tot", c], "columns selected for " + name, list(o[b].columns))
                need(vp.allclose(o[b][c], A[b * nk:b * nk + nk, j]), "weight of orbital", c)
                need(vp.allclose(o[b][["KPOINT", "ENERGY", "weight_tot"]].to_numpy(), H[b * nk:b * nk + nk], atol=1e-9), "k-point, energy, total weight")
    els = sorted(ref)
    if any(a != b and b.startswith(a) for a in els for b in els) or "K" in els:
        label("symbol is a prefix of another")
    if len(cols) < 2:
        vp.trivial("one column")


@st.composite
def large(draw, dup):
    """many rows, elements and columns, expanded from a seed"""
    t = draw(tables(dup))
    r = np.random.RandomState(draw(st.integers(0, 2 ** 31)))
    els = [FRIENDS[i] for i in r.permutation(len(FRIENDS))[:draw(st.integers(4, 20))]]
    cols = [e + "-" + ORB[i] for e in els for i in r.permutation(len(ORB))[:r.randint(1, 6)]]
    cols = [cols[i] for i in r.permutation(len(cols))]
    nb, nk = draw(st.integers(6, 40 if dup else 14)), draw(st.integers(6, 40))
    n = nb * nk
    return dict(t, cols=cols, nb=nb, nk=nk, rows=r.randint(0, 100000, (n, len(cols))).tolist(), head=np.stack([r.randint(0, 1000000, n), r.randint(-999999, 1000000, n), r.randint(0, 100000, n)], 1).tolist())


@sub("large_dos", large(True), quick=12, thorough=300)
def large_dos(case):
    dos(case)


@sub("large_fatband", large(False), quick=5, thorough=200)
def large_fatband(case):
    fatband(case)


@sub("rewritten", again.rewritten(tables(True)), quick=60, thorough=1500)
def rewritten(cases):
    again.rerun(cases, dos)


@sub("rewritten_fatband", again.rewritten(tables(False)), quick=60, thorough=1500)
def rewritten_fatband(cases):
    again.rerun(cases, fatband)
