"""Generators shared by the checks.  Cases are plain JSON values; `build_*` turn them into inputs."""
import itertools, random
import numpy as np
import vp  # noqa: F401  (sets sys.path)
from hypothesis import strategies as st

# symbol table written independently of /repo
SYMBOLS = ["H", "He", "Li", "Be", "B", "C", "N", "O", "F", "Ne", "Na", "Mg", "Al", "Si", "P", "S", "Cl", "Ar",
           "K", "Ca", "Sc", "Ti", "V", "Cr", "Mn", "Fe", "Co", "Ni", "Cu", "Zn", "Ga", "Ge", "As", "Se", "Br", "Kr",
           "Rb", "Sr", "Y", "Zr", "Nb", "Mo", "Tc", "Ru", "Rh", "Pd", "Ag", "Cd", "In", "Sn", "Sb", "Te", "I", "Xe",
           "Cs", "Ba", "La", "Ce", "Pr", "Nd", "Pm", "Sm", "Eu", "Gd", "Tb", "Dy", "Ho", "Er", "Tm", "Yb", "Lu",
           "Hf", "Ta", "W", "Re", "Os", "Ir", "Pt", "Au", "Hg", "Tl", "Pb", "Bi", "Po", "At", "Rn", "Fr", "Ra",
           "Ac", "Th", "Pa", "U", "Np", "Pu", "Am", "Cm", "Bk", "Cf", "Es", "Fm", "Md", "No", "Lr",
           "Rf", "Db", "Sg", "Bh", "Hs", "Mt", "Ds", "Rg", "Cn", "Nh", "Fl", "Mc", "Lv", "Ts", "Og"]
Z2S = {i + 1: s for i, s in enumerate(SYMBOLS)}
S2Z = {s: z for z, s in Z2S.items()}

i3 = lambda lo, hi: st.integers(lo, hi)


@st.composite
def lattices(draw, lo=2500, hi=12000, kinds=("ortho", "lower", "general", "left"), unit=1000):
    """row vectors, integer multiples of 1/unit Angstrom, never singular."""
    kind = draw(st.sampled_from(kinds))
    d = [draw(i3(lo, hi)) for _ in range(3)]
    eq = draw(st.sampled_from(["", "", "", "abc", "ab"]))      # cubic / tetragonal: many equal distances
    if eq:
        d = [d[0], d[0], d[0] if eq == "abc" else d[2]]
    m = [[d[0], 0, 0], [0, d[1], 0], [0, 0, d[2]]]
    if kind != "ortho":
        def off(k):
            return draw(i3(-int(0.6 * d[k]), int(0.6 * d[k])))
        m[1][0] = off(0); m[2][0] = off(0); m[2][1] = off(1)
    if kind in ("general", "left"):
        # rotate the cell by a rational rotation (3-4-5) about two axes, stays exact to 1e-3 after rounding
        A = np.array(m, float)
        for ax in draw(st.lists(st.integers(0, 2), min_size=1, max_size=2)):
            c, s = draw(st.sampled_from([(0.6, 0.8), (0.8, -0.6), (0.28, 0.96), (0.96, -0.28)]))
            R = np.eye(3); j, k = [(1, 2), (0, 2), (0, 1)][ax]
            R[j, j] = c; R[k, k] = c; R[j, k] = -s; R[k, j] = s
            A = A @ R
        m = np.round(A).astype(int).tolist()
    if kind == "left":
        m = [m[1], m[0], m[2]]
    return m


def lat_array(m, unit=1000.0):
    return np.array(m, dtype=float) / unit


@st.composite
def frac_coords(draw, n, lo=-300000, hi=1300000):
    c = st.one_of(i3(0, 999999), i3(0, 999999), st.sampled_from([0, 500000, 250000, 333333, 999999]), i3(lo, hi))
    return [[draw(c), draw(c), draw(c)] for _ in range(n)]


@st.composite
def species(draw, n, max_kinds=3, zmax=118, pool=None):
    if not pool and draw(st.booleans()):        # elements evenly over the periodic table
        pool = random.Random(draw(i3(0, 2**31))).sample(range(1, zmax + 1), draw(i3(1, min(max_kinds, zmax))))
    pool = pool or draw(st.lists(i3(1, zmax), min_size=1, max_size=max_kinds, unique=True))
    return [draw(st.sampled_from(pool)) for _ in range(n)]


def bulk(seed, n, kinds, zmax, flo, fhi):
    """species and positions of a larger crystal, expanded from one integer"""
    rng = random.Random(seed)
    pool = rng.sample(range(1, zmax + 1), min(kinds, zmax))
    Z = [rng.choice(pool) for _ in range(n)]
    fr = [[rng.choice((rng.randint(0, 999999), rng.randint(flo, fhi))) for _ in range(3)] for _ in range(n)]
    return Z, fr


@st.composite
def crystals(draw, nmin=1, nmax=8, max_kinds=3, zmax=118, lo=2500, hi=12000, kinds=("ortho", "lower", "general", "left"),
             flo=-300000, fhi=1300000, big=0, every=8, rich=False):
    """big > nmax: one case in `every` has up to `big` atoms (expanded from a seed); rich: half of these with any number of elements"""
    if big > nmax and draw(i3(1, every)) == every:
        n = draw(i3(nmax + 1, big))
        Z, fr = bulk(draw(i3(0, 2**31)), n, zmax if rich and draw(st.booleans()) else draw(i3(1, max_kinds + 2)), zmax, flo, fhi)
        grow = max(1.0, (n / 20.0) ** (1 / 3))
        return dict(lat=draw(lattices(int(lo * grow), int(hi * grow), kinds)), Z=Z, frac=fr)
    n = draw(i3(nmin, nmax))
    return dict(lat=draw(lattices(lo, hi, kinds)), Z=draw(species(n, max_kinds, zmax)),
                frac=draw(frac_coords(n, flo, fhi)))


def frac_array(c):
    return np.array(c["frac"], dtype=float).reshape(-1, 3) / 1e6


def dedup(c, dmin=0.5):
    """Drop atoms closer than dmin (periodic) to an earlier one (or to an own image)."""
    lat = lat_array(c["lat"]); fr = frac_array(c)
    keep = []
    sh = np.array(list(itertools.product((-2, -1, 0, 1, 2), repeat=3)), float) @ lat
    for i in range(len(fr)):
        ok = True
        for j in keep:
            d = (fr[i] - fr[j]); d = d - np.round(d)
            v = d @ lat + sh
            if (np.einsum("ij,ij->i", v, v) < dmin * dmin).any():
                ok = False
                break
        if ok:
            keep.append(i)
    return dict(lat=c["lat"], Z=[c["Z"][i] for i in keep], frac=[c["frac"][i] for i in keep])


HOLDER = None       # see again.py


def make_structure(c, cls=None, **kw):
    if HOLDER is not None and cls is None and not kw:
        return HOLDER.get(c)
    return fresh_structure(c, cls, **kw)


def fresh_structure(c, cls=None, **kw):
    from matersdk.io.publicLayer.structure import DStructure
    cls = cls or DStructure
    return cls(lattice=lat_array(c["lat"]), species=[Z2S[z] for z in c["Z"]], coords=frac_array(c),
               coords_are_cartesian=False, **kw)


# ---------------------------------------------------------------- atom.config text, written independently
def _ff(draw):
    return draw(st.sampled_from(["%.10E", "%.15f", "%f", "%.8f", "%.16e"]))


@st.composite
def ac_styles(draw):
    return dict(lf=draw(st.sampled_from(["%.10E", "%.15f", "%.8f", "%.9e"])),
                pf=draw(st.sampled_from(["%.15f", "%.8f", "%.10E"])),
                lead=draw(st.sampled_from([" ", "", "   ", "\t"])),
                sep=draw(st.sampled_from(["    ", " ", "\t"])),
                latkey=draw(st.sampled_from(["Lattice vector (Angstrom)", "LATTICE", " Lattice vector", "lattice vector"])),
                poskey=draw(st.sampled_from(["Position (normalized), move_x, move_y, move_z", "POSITION", " Position",
                                             "position"])),
                move=draw(st.sampled_from(["1  1  1", "0 0 1", "0  0  0"])))


def ac_lines(c, sty, stress=None):
    lat = lat_array(c["lat"]); fr = frac_array(c)
    L = [sty["latkey"]]
    for k in range(3):
        s = sty["lead"] + sty["sep"].join(sty["lf"] % x for x in lat[k])
        if stress is not None:
            s += "     stress (eV):  " + "  ".join("%.6E" % x for x in stress[k])
        L.append(s)
    L.append(sty["poskey"])
    for z, f in zip(c["Z"], fr):
        L.append(sty["lead"] + ("%2d" % z) + sty["sep"] + sty["sep"].join(sty["pf"] % x for x in f) + "     " + sty["move"])
    return L


import contextlib


@contextlib.contextmanager
def cpus(turn):
    """a machine with 1, 2 or 3 processors (every fourth case: this one); what is computed must not depend on it"""
    import os
    old = os.cpu_count
    if turn % 4:
        os.cpu_count = lambda: turn % 4
    try:
        yield
    finally:
        os.cpu_count = old
