"""The same check on a history of structures: either one structure object edited in place between the queries, or new objects
which share formula, cutoff and scaling with the previous ones.  Results must follow the present content."""
import copy, random
import numpy as np
import gens
from hypothesis import strategies as st

KINDS = ["jitter", "permute", "species", "cell", "args", "same", "grow", "shrink"]


def histories(base, nmax=4):
    return st.fixed_dictionaries(dict(first=base, steps=st.lists(st.tuples(st.sampled_from(KINDS), st.integers(0, 2 ** 31)), min_size=1, max_size=nmax),
                                      reuse=st.booleans()))


def derive(case, kind, seed):
    r = random.Random(seed)
    k = copy.deepcopy(case)
    c = k["c"]
    n = len(c["Z"])
    if kind == "jitter":
        for i in ([r.randrange(n)] if r.random() < 0.5 else range(n)):
            c["frac"][i] = [x + r.randint(-60000, 60000) for x in c["frac"][i]]
    elif kind == "permute":
        p = list(range(n)); r.shuffle(p)
        c["Z"] = [c["Z"][i] for i in p]; c["frac"] = [c["frac"][i] for i in p]
    elif kind == "species":
        r.shuffle(c["Z"])
    elif kind == "cell":
        f = [r.choice([1.0, 1.0, 1.15, 0.9]) for _ in range(3)]
        c["lat"] = [[int(round(x * f[a])) for x in row] for a, row in enumerate(c["lat"])]
    elif kind == "args":
        if "s" in k:
            r.shuffle(k["s"])
        if "rc" in k:
            k["rc"] = int(k["rc"] * r.choice([0.7, 0.9, 1.2]))
        for x in ("rev", "arr"):
            if x in k:
                k[x] = not k[x]
    elif kind == "grow":
        c["Z"].append(r.choice(c["Z"])); c["frac"].append([r.randint(0, 999999) for _ in range(3)])
    elif kind == "shrink" and n > 1:
        i = r.randrange(n)
        del c["Z"][i], c["frac"][i]
    return k


class Holder:
    """hands out one and the same structure object, edited in place to the wanted content"""
    def __init__(self):
        self.s = None
        self.turn = 0

    def get(self, c):
        from pymatgen.core import Lattice
        lat = gens.lat_array(c["lat"]); fr = gens.frac_array(c); sy = [gens.Z2S[z] for z in c["Z"]]
        if self.s is None:
            self.s = gens.fresh_structure(c)
            return self.s
        s = self.s
        self.turn += 1
        s.lattice = Lattice(lat)
        while len(s) > len(sy):
            s.remove_sites([len(s) - 1])
        while len(s) < len(sy):
            s.append(sy[len(s)], fr[len(s)], coords_are_cartesian=False)
        for i in range(len(sy)):
            if self.turn % 2:
                s.replace(i, sy[i], coords=fr[i])
            else:
                s[i].species = sy[i]
                s[i].frac_coords = fr[i]
        return s


def run(case, fn, setup=None):
    """setup: function giving (..., rc); the smallest cutoff of the history is then used throughout"""
    seq = [copy.deepcopy(case["first"])]
    for kind, seed in case["steps"]:
        seq.append(derive(seq[-1], kind, seed))
    if setup and not any(k == "args" for k, _ in case["steps"]):
        cap = min(setup(copy.deepcopy(k))[-1] for k in seq)
        for k in seq:
            k["cap"] = cap
    gens.HOLDER = Holder() if case["reuse"] else None
    try:
        for k in seq:
            fn(copy.deepcopy(k))
    finally:
        gens.HOLDER = None


def rewritten(base, nmax=3):
    """the same check with different contents under the same file names"""
    return st.lists(base, min_size=2, max_size=nmax)


def rerun(cases, *fns):
    import vp
    for k in cases:
        for fn in fns:
            vp.recycle()
            fn(copy.deepcopy(k))
