"""C29: Chebyshev radial bases and switching functions of the MTP code (three implementations) against the closed formulas (sanitized build)."""
import json, re
import numpy as np
from hypothesis import strategies as st
import vp, native, mtpmodel as mm
from vp import sub, need, label, trivial
from gens import i3

QX = 3
RULE = "a case is non-trivial when at least one distance lies inside [inner radius, cutoff); distinct by the hash of its canonical JSON"
ASSUMPTIONS = ["bases of 1 to 14 functions; inner radius at least 0.01 A below the cutoff (0.25 A in single precision)",
               "the mtpr bases are built for distances inside [rmin, rmax] only (they assert it)"]
P = None


def prepare():
    global P
    P = native.Proc(mm.build())


def close(a, b, tol, what, ctx):
    a = np.asarray(a, float); b = np.asarray(b, float)
    need(a.shape == b.shape, what + ": length", a.shape, b.shape, ctx)
    ok = np.abs(a - b) <= tol * (1 + np.abs(b))
    need(ok.all(), what, dict(ctx, got=a.tolist(), want=b.tolist()))


def numbers(txt):
    return [float(x) for x in re.findall(r"-?\d+\.\d+", txt)]


def printed(txt, parts, what):
    g = numbers(txt)
    w = [x for p in parts for x in p]
    need(len(g) == len(w) and all(abs(a - b) <= 2e-6 * (1 + abs(b)) for a, b in zip(g, w)), "printed " + what, txt)


@st.composite
def cases(draw):
    f = draw(st.booleans())
    rc = draw(i3(500, 12000))
    return dict(f32=f, rc=rc, rs=draw(st.one_of(i3(0, rc - (250 if f else 10)), st.sampled_from([0, rc - 250 if f else rc - 10]))), n=draw(i3(1, 14)),
                r=draw(st.lists(st.one_of(i3(0, 1000), st.sampled_from([-1, -2, -3, -4, -5])), min_size=1, max_size=8)))


def dist(c):
    rc, rs = c["rc"] / 1000.0, c["rs"] / 1000.0
    if c["f32"]:
        rc, rs = float(np.float32(rc)), float(np.float32(rs))
    out = []
    for t in c["r"]:
        r = {-1: rs, -2: rc, -3: rs * 0.6, -4: rc * 1.3, -5: 0.0}.get(t, rs + (rc - rs) * t / 1000.0)
        out.append(float(np.float32(r)) if c["f32"] else r)
    return rc, rs, out


@sub("values", cases, quick=500, thorough=20000)
def c_values(c):
    rc, rs, rr = dist(c)
    n = c["n"]
    if not any(rs <= r < rc for r in rr):
        trivial("no distance inside")
    out = P.call("radial_f" if c["f32"] else "radial_d", n, rc, rs, rr)
    tol = 1e-3 * n * n if c["f32"] else 1e-8 * 4 ** max(0, n - 8)
    eps = 1e-5 if c["f32"] else 1e-12
    need(out[0][:4] == [n] * 4, "sizes", out[0])
    close(out[0][4:], [rc, rs, rc, rs], eps, "radii", {})
    for r, g in zip(rr, out[1:]):
        ctx = dict(r=r, rc=rc, rs=rs)
        xi = (2 * r - rc - rs) / (rc - rs); k = 2 / (rc - rs)
        t, d = mm.cheb(n, xi)
        big = 1 + np.abs(t).max() + np.abs(d).max() * (1 + k)
        tl = tol * big if (r < rs or r > rc) else tol * (1 + k)
        s0, ds0 = mm.switch(r, rc, rs, 0)
        s1, ds1 = mm.switch(r, rc, rs, 1)
        ins = 1.0 if rs <= r < rc else 0.0
        close(g[0:2], [xi, k], tol, "scaled distance", ctx)
        close(g[2:4], [s0, ds0], tol * (1 + k), "switching function (0 below the inner radius)", ctx)
        close(g[4:6], [s1, ds1], tol * (1 + k), "switching function (1 below the inner radius)", ctx)
        close(g[6], t * ins, tl, "Chebyshev values", ctx)
        close(g[7], d * ins, tl, "Chebyshev derivatives", ctx)
        close(g[8], d * k * ins, tl * (1 + k), "Chebyshev derivatives by distance", ctx)
        close(g[9], t * s0 * ins, tl, "radial values", ctx)
        close(g[10], (d * k * s0 + t * ds0) * ins, tl * (1 + k), "radial derivatives", ctx)
        close(g[11], t, tl, "Chebyshev values (de)", ctx)
        close(g[12], d * k, tl * (1 + k), "Chebyshev derivatives (de)", ctx)
        close(g[13], t * s1, tl, "radial values (de)", ctx)
        close(g[14], d * k * s1 + t * ds1, tl * (1 + k), "radial derivatives (de)", ctx)
        close(g[15:18], [rc, rs, r], eps, "parameters (de)", ctx)
        need(g[18] == n - 1, "highest order (de)", g[18])
        if rs <= r <= rc:
            close(g[19:21], [s0, ds0], tol * (1 + k), "switching function (mtpr)", ctx)
            close(g[21], t, tl, "Chebyshev values (mtpr)", ctx)
            close(g[22], d, tl, "Chebyshev derivatives (mtpr)", ctx)
            close(g[23], d * k, tl * (1 + k), "Chebyshev derivatives by distance (mtpr)", ctx)
            close(g[24], t * s0, tl, "radial values (mtpr)", ctx)
            close(g[25], d * k * s0 + t * ds0, tl * (1 + k), "radial derivatives (mtpr)", ctx)
            printed(g[26], g[21:24], "RB_Chebyshev")
            printed(g[27], g[24:26], "RQ_Chebyshev")
            label("inside" if r < rc else "at the cutoff")
        else:
            label("below" if r < rs else "beyond")
        printed(g[-4], g[6:9], "ChebyshevPoly")
        printed(g[-3], g[9:11], "MtpQ")
        v = [rc, rs, r, xi]
        printed(g[-2], [v, g[11], g[13]], "RadialBasisChebyshev")
        printed(g[-1], [v, g[12], g[14]], "RadialBasisChebyshev derivatives")
    label("f32" if c["f32"] else "f64")


obj = st.tuples(i3(1, 9), i3(1000, 9000), i3(0, 900), st.one_of(st.just(-1000), i3(0, 1000)))
# [kind, operations (op, a, b, rebuild distance), specifications]
@sub("history", lambda: st.tuples(st.sampled_from(["cheb", "q", "rb", "rq"]), st.lists(st.tuples(i3(0, 8), i3(0, 9), i3(0, 9), i3(0, 9000)), min_size=1, max_size=14), st.lists(obj, min_size=1, max_size=4)),
     quick=600, thorough=20000)
def c_hist(case):
    """objects of one class created, copied, assigned (also to themselves), moved, rebuilt and destroyed in any order keep their own values"""
    kind, ops, specs = case
    toks, model = ["hist_" + kind], []
    mtpr = kind[0] == "r"

    def val(m):
        if m is None:
            return [0, [], []]
        n, rc, rs, r = m
        if r is None:
            return [n] + [np.zeros(n)] * (3 if kind in ("cheb", "rb") else 2)
        xi = (2 * r - rc - rs) / (rc - rs); k = 2 / (rc - rs)
        t, d = mm.cheb(n, xi)
        ins = 1.0 if rs <= r < rc or (mtpr and r == rc) else 0.0
        if kind in ("cheb", "rb"):
            return [n, t * ins, d * k * ins, d * ins]
        s, ds = mm.switch(r, rc, rs, 0)
        return [n, t * s * ins, (d * k * s + t * ds) * ins]

    k = 0
    todo, snaps = [(1, 0, 0, 0), (1, 0, 0, 0)], []
    for op, a, b, r in ops:
        todo.append((op, a, b, r))
        if op in (2, 3, 5, 6, 7) and r % 2:
            # the object is used right afterwards; a copy is the last object
            todo.append((8, a if op != 2 else -1, b, r))
    for op, a, b, r in todo:
        if snaps or len(model) > 1:
            toks.append("9"); snaps.append(list(model))
        if op == 8 and model and a == -1:
            a = len(model) - 1
        a = max(a, 0)
        r = r / 1000.0
        if op == 8 and mtpr and model and model[a % len(model)] is not None:
            m = model[a % len(model)]
            r = m[2] + r / 9.0 * (m[1] - m[2])
        if op == 0:
            toks.append("0"); model.append(None); continue
        if op == 1:
            n, rc, rs, t = specs[k % len(specs)]; k += 1
            rc = rc / 1000.0; rs = rc * rs / 1000.0; t = t / 1000.0
            toks.append("1 %d %r %r %r" % (n, rc, rs, t)); model.append((n, rc, rs, None if t < 0 else rs + t * (rc - rs))); continue
        toks.append("%d %d %d %r" % (op, a, b, r))
        n = len(model)
        if not n:
            continue
        a %= n; b %= n
        if op == 2:
            model.append(model[a]); label("copy of empty" if model[a] is None else "copy")
        elif op == 3:
            label(("assign" if a != b else "self-assign") + (" empty" if model[b] is None else ""))
            model[a] = model[b]
        elif op == 4:
            del model[a]
        elif op == 5:
            model[a], model[b] = model[b], model[a]
        elif op == 7 and a != b:
            model[a] = model[b]; model[b] = None
        elif op == 8 and model[a] is not None:
            m = model[a]
            if not mtpr or m[2] <= r <= m[1]:
                model[a] = (m[0], m[1], m[2], r)
                label("rebuild")
    if not any(m is not None for m in model):
        trivial("only empty objects")
    s, txt = P.raw(" ".join(toks))
    need(s == "ok", "native code %s" % s, txt)
    out = json.loads(txt)
    need(isinstance(out, list), "native code threw", out)
    # every object, after every operation
    snaps.append(model)
    out = [x for x in out if x[:1] != [-1]]
    need(len(out) == len(snaps), "snapshots", len(out), len(snaps))
    for got, ms in zip(out, snaps):
        need(len(got) == len(ms), "objects", len(got), len(ms))
        for g, m in zip(got, ms):
            w = val(m)
            need(g[0] == w[0], "size", g[0], w[0])
            for i in range(1, len(w)):
                close(g[i], w[i], 1e-6 * 4 ** (1 if m and m[3] is not None and not m[2] <= m[3] <= m[1] else 0), "values of an object", dict(kind=kind, column=i))
            if mtpr:
                close(g[-2:], [0, 0] if m is None else [m[1], m[2]], 1e-12, "radii of an object", dict(kind=kind))
    label(kind)
