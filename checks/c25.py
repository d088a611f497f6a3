"""C25: the Python binding of the native neighbour list, in a sanitized child interpreter, against brute force."""
import os, json
import numpy as np
from hypothesis import strategies as st
import vp, native, gens
from vp import sub, need, label, trivial
from gens import i3
import c23
vp.SUBS.clear()

QX = 3
RULE = c23.RULE
ASSUMPTIONS = c23.ASSUMPTIONS
P = None


def prepare():
    global P
    d = native.build_nblist_module()
    P = native.Proc(["/opt/venv/bin/python", os.path.join(vp.VERIF, "cpp", "nblist_child.py"), d],
                    env=dict(LD_PRELOAD=native.libasan(), PYTHONMALLOC="malloc", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1"))


LAY = st.sampled_from(["C", "C", "F", "strided", "neg", "ro"])


@st.composite
def calls(draw, base=None):
    c = draw(base or c23.cases(nmax=draw(st.sampled_from([4, 4, 4, 4, 4, 4, 4, 4, 4, 40]))))
    c["bins"] = []
    c["rcut"] = min(c["rcut"], 6000)
    c.update(kl=draw(LAY), kz=draw(LAY), kx=draw(LAY), dz=draw(st.sampled_from(["int32", "int32", "int64", "int16"])), f32=draw(st.booleans()) and draw(st.booleans()), lb=draw(st.booleans()),
             fl=draw(st.sampled_from(["bool", "bool", "int", "np", "obj"])), spare=draw(st.sampled_from([0, 0, 1, 7, 40])), short=draw(i3(0, 12)) == 7)
    return c


def request(c):
    rcut = c["rcut"] / 1000.0
    lat, sp, cart = c23.spec(c)
    if c["f32"]:
        # values exactly representable in single precision, so that the conversion is exact
        lat = lat.astype(np.float32).astype(float)
        xyz = np.asarray(sp[2]).astype(np.float32).astype(float)
        cart = xyz if c["cart"] else xyz @ lat
    else:
        xyz = np.asarray(sp[2])
    want = c23.oracle(c, lat, cart, rcut)
    mx = max(int((w[2] < rcut + 1e-8).sum()) for w in want)
    sure = max(int((w[2] < rcut - 1e-8).sum()) for w in want)
    short = c["short"] and sure > 0
    umax = max(0, sure - 1 - (c["spare"] % sure)) if short else mx + c["spare"]
    dt = "float32" if c["f32"] else "float64"
    q = dict(op="call", lat=lat.tolist(), Z=c["Z"], xyz=xyz.tolist(), kl=c["kl"], kz=c["kz"], kx=c["kx"], dl=dt, dz=c["dz"], dx=dt, rcut=rcut, pbc=c["pbc"], lb=c["lb"],
             umax=int(umax), sort=bool(c["sort"]), cart=bool(c["cart"]), fl=c["fl"])
    return q, want, rcut, short


def judge(c, q, want, rcut, short, o):
    n, umax = len(c["Z"]), q["umax"]
    if short:
        need("err" in o, "a neighbour limit that is too small was accepted", umax)
        label("limit too small")
        return
    need("ok" in o, "the call failed", o.get("err"))
    r = o["ok"]
    need(o["same"], "the inputs were changed")
    need(r["inum"] == n and r["nghost"] == 0 and r["ilist"] == list(range(n)) and r["types"] == c["Z"], "header of the table", r["inum"], r["ilist"], r["types"])
    need(r["shapes"] == [[n], [n], [n, umax], [n, umax, 3], [n]], "shapes", r["shapes"])
    need(r["dtypes"] == ["int32", "int32", "int32", "float64", "int32"], "dtypes", r["dtypes"])
    need(all(r["own"]), "a returned array does not own its data (it is never freed)", r["own"])
    need(all(r["writable"]), "a returned array is not writable", r["writable"])
    for i in range(n):
        m = r["numneigh"][i]
        f = r["firstneigh"][i]; v = np.array(r["rel"][i], float).reshape(-1, 3)
        need(0 <= m <= umax, "neighbour count", m)
        need(all(x == -1 for x in f[m:]) and not v[m:].any(), "padding", f, v.tolist())
        c23.match(c, i, f[:m], v[:m], want[i], rcut, "table")
        if c["sort"]:
            d = np.linalg.norm(v[:m], axis=1)
            need((np.diff(d) > -1e-9).all(), "not sorted by distance", d.tolist())


@sub("single", calls, quick=300, thorough=12000)
def c_single(c):
    q, want, rcut, short = request(c)
    s, txt = P.raw(json.dumps([q]))
    need(s == "ok", "native code %s" % s, txt)
    r = json.loads(txt)
    judge(c, q, want, rcut, short, r["out"][0])
    need(r["held"][0] == r["out"][0].get("ok"), "a returned table changed afterwards")
    label(c["kl"]); label(c["kx"]); label(c["dz"]); label("flags " + c["fl"])
    if not any(len(w[0]) for w in want):
        trivial("no neighbours")


@sub("huge", lambda: calls(c23.huge()), quick=2, thorough=60)
def c_huge(c):
    c_single(c)


@sub("history", lambda: st.tuples(st.lists(calls(), min_size=2, max_size=4), st.lists(st.tuples(i3(0, 3), i3(0, 5)).map(list), min_size=1, max_size=12)).map(list), quick=150, thorough=6000)
def c_history(case):
    cs, oo = case
    req, exp, model = [], [], []
    pre = [request(c) for c in cs]
    for op, k in oo:
        if op <= 1:
            j = k % len(cs)
            req.append(pre[j][0]); exp.append(j); model.append(len(exp) - 1)
        elif op == 2:
            req.append(dict(op="drop", k=k))
            if model:
                model[k % len(model)] = None
        else:
            req.append(dict(op="scribble", k=k))
            if model and model[k % len(model)] is not None:
                model[k % len(model)] = None
    s, txt = P.raw(json.dumps(req))
    need(s == "ok", "native code %s" % s, txt)
    r = json.loads(txt)
    need(len(r["out"]) == len(exp), "results")
    for o, j in zip(r["out"], exp):
        judge(cs[j], *pre[j], o)
    for h, m in zip(r["held"], model):
        if m is not None:
            need(h == r["out"][m].get("ok"), "a table held by the caller changed during later calls")
    if not exp:
        trivial("no call")

