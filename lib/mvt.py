"""Generator and renderer of PWmat MOVEMENT texts (independent of /repo)."""
import random
import numpy as np
from gens import *
from hypothesis import strategies as st

f6 = st.integers(-9000000, 9000000)      # scaled 1e-6


@st.composite
def frame(draw, Z, opts, kinds=("ortho", "lower", "general")):
    n = len(Z)
    d = dict(lat=draw(lattices(2500, 15000, kinds)), Z=list(Z), frac=draw(frac_coords(n)))
    d["etot"] = draw(st.integers(-10**9, 10**9)); d["ep"] = draw(st.integers(-10**9, 10**9)); d["ek"] = draw(st.integers(0, 10**7))
    d["t"] = draw(st.integers(0, 10**6))
    if opts["force"]:
        d["force"] = [[draw(f6) for _ in range(3)] for _ in range(n)]
    if opts["virial"]:
        d["virial"] = [[draw(f6) for _ in range(3)] for _ in range(3)]
    if opts["eatom"]:
        d["eatom"] = [[draw(f6), draw(f6), draw(f6)] for _ in range(n)]
    if opts["mag"]:
        d["mag"] = [draw(f6) for _ in range(n)]
    if opts["vel"]:
        d["vel"] = [[draw(f6) for _ in range(3)] for _ in range(n)]
    return d


OPTS = st.fixed_dictionaries(dict(force=st.sampled_from([True, True, True, False]), virial=st.booleans(), eatom=st.booleans(),
                                  mag=st.booleans(), vel=st.booleans(), mdinfo=st.booleans()))


def bulk_frame(rng, Z, o, lat):
    """a frame expanded from a random.Random"""
    n = len(Z)
    f = lambda: rng.randint(-9000000, 9000000)
    d = dict(lat=lat, Z=list(Z), frac=[[rng.randint(-300000, 1300000) for _ in range(3)] for _ in range(n)], etot=rng.randint(-10**9, 10**9),
             ep=rng.randint(-10**9, 10**9), ek=rng.randint(0, 10**7), t=rng.randint(0, 10**6))
    if o["force"]:
        d["force"] = [[f(), f(), f()] for _ in range(n)]
    if o["virial"]:
        d["virial"] = [[f(), f(), f()] for _ in range(3)]
    if o["eatom"]:
        d["eatom"] = [[f(), f(), f()] for _ in range(n)]
    if o["mag"]:
        d["mag"] = [f() for _ in range(n)]
    if o["vel"]:
        d["vel"] = [[f(), f(), f()] for _ in range(n)]
    return d


@st.composite
def coincide(draw, fr):
    """coincidences of real trajectories: a constant cell, repeated frames, a quantity that is zero in some frames or equal in several"""
    kind = draw(st.sampled_from(["", "", "", "cell", "repeat", "zero", "zero", "share"]))
    if not kind or not fr:
        return fr
    n = len(fr)
    pick = lambda: draw(st.integers(0, n - 1))
    if kind == "cell":
        for f in fr:
            f["lat"] = fr[0]["lat"]
    elif kind == "repeat":
        i, j = pick(), pick()
        if len(fr[i]["Z"]) == len(fr[j]["Z"]):
            fr[j] = dict(fr[i])
    else:
        keys = [k for k in ("force", "virial", "eatom", "mag", "etot", "ep", "ek", "frac", "t") if k in fr[0]]
        k = draw(st.sampled_from(keys))
        if kind == "share":
            i = pick()
            for f in fr:
                if f["Z"] == fr[i]["Z"]:
                    f[k] = fr[i][k]
        elif k != "frac":
            z = lambda x: [z(y) for y in x] if isinstance(x, list) else 0
            a, b = sorted((pick(), pick()))
            for f in fr[a:b + 1]:
                f[k] = z(f[k])
    return fr


@st.composite
def movement(draw, fmin=1, fmax=4, nmax=5, same_atoms=True, opts=None, max_kinds=3, zmax=118, nmin=1, big=None, every=8, rich=False):
    """big=(frames, atoms): one case in `every` has up to that many (expanded from a seed)"""
    o = draw(opts if opts is not None else OPTS)
    if big and draw(st.integers(1, every)) == every:
        rng = random.Random(draw(st.integers(0, 2**31)))
        pool = rng.sample(range(1, zmax + 1), zmax if rich and rng.random() < 0.5 else min(zmax, rng.randint(1, max_kinds + 2)))
        if draw(st.booleans()):      # many frames, or many atoms
            nf, na = draw(st.integers(fmin, max(fmin, big[0]))), draw(st.integers(nmin, nmax))
        else:
            nf, na = draw(st.integers(fmin, max(fmin, min(3, fmax)))), draw(st.integers(nmin, big[1]))
        Z = [rng.choice(pool) for _ in range(na)]
        lat = draw(st.one_of(lattices(2500, 15000, ("ortho", "lower", "general")), lattices(20000, 300000, ("ortho", "lower", "general"))))
        fr = []
        for k in range(nf):
            if not same_atoms and k:
                Z = [rng.choice(pool) for _ in range(rng.randint(nmin, max(na, 2)))]
            fr.append(bulk_frame(rng, Z, o, lat))
            lat = [[x + rng.randint(-20, 20) for x in row] for row in lat]
        sty = draw(ac_styles())
        sty["upper"] = draw(st.booleans())
        return dict(frames=draw(coincide(fr)), opts=o, sty=sty, dashes=draw(st.sampled_from([50, 90, 64])), tail=draw(st.booleans()))
    Z = draw(species(draw(st.integers(nmin, nmax)), max_kinds, zmax))
    nf = draw(st.integers(fmin, fmax))
    fr = []
    for k in range(nf):
        if not same_atoms and k:
            Z = draw(species(draw(st.integers(nmin, nmax)), max_kinds, zmax))
        fr.append(draw(frame(Z, o)))
    sty = draw(ac_styles())
    sty["upper"] = draw(st.booleans())
    return dict(frames=draw(coincide(fr)), opts=o, sty=sty, dashes=draw(st.sampled_from([50, 90, 64])), tail=draw(st.booleans()))


@st.composite
def shuffled(draw, mv):
    """the same atoms in another order in some frames"""
    mv = draw(mv)
    if draw(st.sampled_from([0, 0, 1])):
        r = random.Random(draw(st.integers(0, 2**31)))
        for f in mv["frames"]:
            if r.random() < 0.6:
                f["Z"] = r.sample(f["Z"], len(f["Z"]))
    return mv


def e10(x):
    return "%.10E" % x


def frame_text(fr, opts, sty):
    n = len(fr["Z"])
    up = (lambda s: s.upper()) if sty.get("upper") else (lambda s: s)
    case = (lambda t: t, lambda t: t.replace("atoms", "Atoms"), lambda t: t.upper().replace("%S", "%s").replace("%D", "%d"))[(n + fr["t"]) % 3 if sty.get("upper") else 0]
    L = [case(" %d atoms,Iteration (fs) =    %s, Etot,Ep,Ek (eV) =   %s  %s   %s, SCF =     7") %
         (n, e10(fr["t"] / 1e3), e10(fr["etot"] / 1e4), e10(fr["ep"] / 1e4), e10(fr["ek"] / 1e4))]
    if opts["mdinfo"]:
        L.append(" MD_INFO: METHOD(1-VV,2-NH,3-LV,4-LVPR,5-NHRP) TIME(fs) TEMP(K) DESIRED_TEMP(K) AVE_TEMP(K)")
        L.append("          1    0.1000000000E+01    0.2954545E+03    0.3000000E+03   0.2954545E+03")
    st_ = np.array(fr["virial"]) / 1e6 if "virial" in fr else None
    body = ac_lines(fr, sty, st_)
    L += [" " + x if i in (0, 4) else x for i, x in enumerate(body)]
    if "force" in fr:
        L.append(up(" Force (-force, eV/Angstrom)"))
        for z, v in zip(fr["Z"], fr["force"]):
            L.append("%4d    %.15f    %.15f    %.15f" % ((z,) + tuple(x / 1e6 for x in v)))
    if "vel" in fr:
        L.append(" Velocity (bohr/fs)")
        for z, v in zip(fr["Z"], fr["vel"]):
            L.append("%4d    %.15f    %.15f    %.15f" % ((z,) + tuple(x / 1e6 for x in v)))
    if "mag" in fr and not opts.get("mag_last", True):
        L += mag_lines(fr, up)
    if "eatom" in fr:
        L.append(up(" Atomic-Energy, Etot(eV),E_nonloc(eV),Q_atom:dE(eV)=  -0.1281163115E+06"))
        for z, v in zip(fr["Z"], fr["eatom"]):
            L.append("%4d   %s    %s    %s" % ((z,) + tuple(e10(x / 1e6) for x in v)))
    if "mag" in fr and opts.get("mag_last", True):
        L += mag_lines(fr, up)
    return "\n".join(L) + "\n"


def mag_lines(fr, up):
    return [up(" Magnetic")] + ["%4d   %.6f" % (z, m / 1e6) for z, m in zip(fr["Z"], fr["mag"])]


def movement_text(mv):
    out = ""
    for i, f in enumerate(mv["frames"]):
        out += frame_text(f, mv["opts"], mv["sty"]) + " " + "-" * mv["dashes"] + "\n"
    return out


def arrays(fr):
    d = dict(box=lat_array(fr["lat"]).reshape(-1), types=np.array(fr["Z"]), coords=frac_array(fr).reshape(-1), etot=np.array([fr["etot"] / 1e4]),
             fatoms=(np.array(fr["force"]) / 1e6).reshape(-1) if "force" in fr else np.zeros(3 * len(fr["Z"])))
    if "virial" in fr:
        d["virial"] = (np.array(fr["virial"]) / 1e6).reshape(-1)
    if "eatom" in fr:
        d["eatoms"] = np.array([x[0] for x in fr["eatom"]]) / 1e6
    if "mag" in fr:
        d["magmoms"] = np.array(fr["mag"]) / 1e6
    return d


LABELS = ["box", "types", "coords", "etot", "fatoms", "virial", "eatoms", "magmoms"]


def close(a, b, tol=2e-6):
    a = np.asarray(a, float); b = np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=0, atol=tol)


def classic(mv):
    """the header wording of real MOVEMENT files, which Movement looks for"""
    if "vector" not in mv["sty"]["latkey"].lower():
        mv["sty"]["latkey"] = "Lattice vector (Angstrom)"
    return mv
