"""C15 REPORT / OUT.FERMI: eigenvalues, band edges, gap."""
import numpy as np
import vp
from vp import sub, need, label, fresh_path
from hypothesis import strategies as st

RULE = "a case counts when the report has at least two k-points or two spins and edges were compared"
ASSUMPTIONS = ["eigenvalues are written with four decimals, five per line, one block per k-point and spin (up first)",
               "semiconductors have at least one state below and one above the Fermi level; degenerate partners are the states of the same k-point within 1 meV"]


@st.composite
def reports(draw):
    nk = draw(st.integers(1, 6)); nb = draw(st.integers(2, 13)); ns = draw(st.integers(1, 2))
    ef = draw(st.integers(-8000, 8000))          # 1e-3 eV
    kind = draw(st.sampled_from(["gap", "gap", "gap", "metal"]))
    E = []
    nocc = [draw(st.integers(1, nb - 1)) for _ in range(ns)]
    step = st.one_of(st.integers(0, 25), st.sampled_from([0, 0, 1, 5, 9]), st.integers(0, 20000))
    off = st.one_of(st.integers(2, 40), st.integers(2, 3), st.integers(2, 30000))
    if draw(st.integers(0, 4)) == 0:             # states exactly at the Fermi level
        off = st.one_of(off, st.just(-1))
    for s in range(ns):
        ks = []
        for k in range(nk):
            lo = [ef * 10 - 1 - draw(off)]
            for _ in range(nocc[s] - 1):
                lo.append(lo[-1] - draw(step))
            hi = [ef * 10 + 1 + draw(off)]
            for _ in range(nb - nocc[s] - 1):
                hi.append(hi[-1] + draw(step))
            ks.append(lo[::-1] + hi)
        E.append(ks)
    if kind == "metal" and nk > 1:
        s = draw(st.integers(0, ns - 1)); k = draw(st.integers(0, nk - 1))
        v = E[s][k]
        if draw(st.booleans()):   # occupied count of one k point changes
            o = nocc[s]
            x = ef * 10 + draw(st.integers(5, 400)) if draw(st.booleans()) else None
            if x is not None:
                v[o - 1] = min(x, v[o]) if v[o] > ef * 10 + 5 else v[o]
                E[s][k] = sorted(v)
            else:
                v[o] = max(ef * 10 - draw(st.integers(5, 400)), v[o - 1])
                E[s][k] = sorted(v)
    return dict(nk=nk, nb=nb, E=E, ef=ef, spin_order_note=draw(st.booleans()), atom=draw(st.sampled_from(["atom.config", "POSCAR.config", "x/a.config"])),
                lead=draw(st.integers(0, 5)), pad=draw(st.integers(0, 4)))


def write(case, rp, fp):
    L = ["# comment"] * case["lead"]
    L += [" IN.ATOM = %s" % case["atom"], " ECUT = 50.0", " NUM_KPT  =  %d" % case["nk"], " NUM_BAND = %d" % case["nb"]]
    n = 0
    for s, ks in enumerate(case["E"]):
        for k, v in enumerate(ks):
            n += 1
            L += [" **** kpoint iislda, ikpt = %d %d" % (s + 1, k + 1)] * (1 if case["pad"] else 0)
            L.append(" eigen energies, in eV")
            for i in range(0, len(v), 5):
                L.append("".join("%12.4f" % (x / 1e4) for x in v[i:i + 5]))
            L += ["-" * 20] * (case["pad"] % 3)
    L.append(" end")
    open(rp, "w").write("\n".join(L) + "\n")
    open(fp, "w").write("   EF(Hartree) = %.8f   %.3f eV\n" % (case["ef"] / 1e3 / 27.2114, case["ef"] / 1e3))


def metal(case):
    for ks in case["E"]:
        A = np.array(ks)
        for b in range(A.shape[1]):
            d = A[:, b] - 10 * case["ef"]
            if (d < -1).any() and (d > 1).any():
                return True
    return False


def edge(case, side):
    st_ = []
    for s, ks in enumerate(case["E"]):
        for k, v in enumerate(ks):
            for b, x in enumerate(v):
                if side * (x - 10 * case["ef"]) >= 0:
                    st_.append((side * x, k, b, s))
    return st_


def check_edge(case, d, side, name):
    st_ = edge(case, side)
    best = min(x[0] for x in st_)
    ext = side * best / 1e4
    states = list(zip(d["kpts"], d["bands"], d["spins"]))
    need(len(d["energies"]) == len(states), "%s: lists of different lengths" % name, d)
    need(all(abs(e - ext) < 1e-9 for e in d["energies"]), "%s energy" % name, d, ext)
    k0 = d["kpts"][0]
    first = (k0 - 1, d["bands"][0] - 1, ["up", "down"].index(d["spins"][0]))
    need(any(x[0] == best and x[1:] == first for x in st_), "%s: the first listed state is not the edge" % name, d)
    need(len(set(states)) == len(states), "%s: state listed twice" % name, d)
    must, may = set(), set()
    for s, ks in enumerate(case["E"]):
        for b, x in enumerate(ks[k0 - 1]):
            dd = abs(x - side * best)
            if dd < 10:
                must.add((k0, b + 1, ["up", "down"][s]))
            if dd <= 10:
                may.add((k0, b + 1, ["up", "down"][s]))
    got = set((int(a), int(b), c) for a, b, c in states)
    need(must <= got <= may, "%s: degenerate states" % name, sorted(got), sorted(must))
    if len(must) > 1:
        label("degenerate")
    return ext


@st.composite
def large(draw):
    """many k-points and bands, expanded from a seed"""
    c = draw(reports())
    r = np.random.RandomState(draw(st.integers(0, 2 ** 31)))
    nk, nb, ns = draw(st.integers(1, 20)), draw(st.integers(14, 60)), draw(st.integers(1, 2))
    E = []
    for s in range(ns):
        o = draw(st.integers(1, nb - 1)); w = draw(st.sampled_from([3, 30, 5000])); ks = []
        for k in range(nk):
            lo = 10 * c["ef"] - 3 - r.randint(0, 200) - np.cumsum(r.randint(0, w, o)); hi = 10 * c["ef"] + 3 + r.randint(0, 200) + np.cumsum(r.randint(0, w, nb - o))
            ks.append([int(x) for x in lo[::-1]] + [int(x) for x in hi])
        E.append(ks)
    if nk > 1 and draw(st.integers(0, 3)) == 0:          # one band crosses at one k-point
        s = draw(st.integers(0, ns - 1)); v = E[s][draw(st.integers(0, nk - 1))]
        o = int((np.array(v) < 10 * c["ef"]).sum())
        v[o - 1] = min(v[o], 10 * c["ef"] + 40)
    return dict(c, nk=nk, nb=nb, E=E)


@sub("large", st.lists(large(), min_size=1, max_size=1), quick=15, thorough=300)
def large_reports(case):
    history(case)


@sub("history", st.lists(reports(), min_size=1, max_size=2), quick=600, thorough=12000)
def history(cases):
    from matersdk.io.pwmat.output.report import Report
    from matersdk.io.pwmat.output.outfermi import OutFermi
    rp = fresh_path("REPORT"); fp = fresh_path("OUT.FERMI")
    nt = False
    for case in cases:
        write(case, rp, fp)
        r = Report(rp)
        need(r.get_num_bands() == case["nb"], "number of bands")
        need(r.get_num_kpts() == case["nk"], "number of k-points")
        need(r.get_in_atom() == case["atom"], "structure name", r.get_in_atom())
        need(abs(OutFermi(fp).get_efermi() - case["ef"] / 1e3) < 1e-9, "Fermi level", OutFermi(fp).get_efermi())
        e = r.get_eigen_energies()
        need(set(e) == {"up", "down"}, "spin channels", sorted(e))
        for s, name in enumerate(["up", "down"]):
            ref = np.array(case["E"][s]) / 1e4 if s < len(case["E"]) else np.zeros((0,))
            need(np.array(e[name]).size == ref.size and (ref.size == 0 or np.array(e[name]).shape == ref.shape), "eigenvalue table shape", name, np.shape(e[name]), ref.shape)
            need(ref.size == 0 or vp.allclose(e[name], ref, atol=1e-9), "eigenvalues", name)
        m = metal(case)
        if hasattr(r, "_is_metal"):
            need(bool(r._is_metal(fp)) == m, "metal or not", m)
        cbm, vbm = r.get_cbm(fp), r.get_vbm(fp)
        if m:
            label("metal")
            need(cbm is None and vbm is None, "band edges of a metal")
            need(r.get_bandgap(fp) == 0, "gap of a metal")
            need(r.get_bandgap_type(fp) is None, "gap type of a metal")
        else:
            if any(x == 10 * case["ef"] for ks in case["E"] for v in ks for x in v):
                label("state at the Fermi level")
            c = check_edge(case, cbm, 1, "CBM"); v = check_edge(case, vbm, -1, "VBM")
            need(abs(r.get_bandgap(fp) - (c - v)) < 1e-9, "gap", r.get_bandgap(fp), c - v)
            direct = cbm["kpts"][0] == vbm["kpts"][0]
            # only decided where each edge sits at a single k-point
            ks = [set(x[1] for x in edge(case, s) if x[0] == min(y[0] for y in edge(case, s))) for s in (1, -1)]
            if len(ks[0]) == 1 and len(ks[1]) == 1:
                need(r.get_bandgap_type(fp) == int(direct), "gap type", r.get_bandgap_type(fp), direct)
                label("direct" if direct else "indirect")
            else:
                need(r.get_bandgap_type(fp) in (0, 1), "gap type")
            nt = nt or case["nk"] > 1 or len(case["E"]) > 1
        if len(case["E"]) > 1:
            label("two spins")
    if len(cases) > 1:
        label("rewritten")
    if not nt:
        vp.trivial("metal or single state")
