"""C32: core numeric helpers (vec3Operation, Vec3, arrayUtils, AlignedArray)."""
import os
import numpy as np
from hypothesis import strategies as st
import vp, native
from vp import sub, need, label, trivial

ASSUMPTIONS = ["element values of double/float helpers are finite and below 1e100 / 1e15 so that products do not overflow"]
P = None


def prepare():
    global P
    P = native.Proc(native.build("core.cpp"))


fl = st.one_of(st.integers(-9, 9).map(float), st.floats(-1e3, 1e3), st.floats(-1e100, 1e100), st.sampled_from([0.0, -0.0, 1e-300, 1.0, -1.0]))
fl = fl.map(lambda x: 0.0 if abs(x) < 1e-100 else x)
v3 = st.lists(fl, min_size=3, max_size=3)
ff = st.one_of(st.integers(-9, 9).map(float), st.floats(-1e3, 1e3, width=32)).map(lambda x: 0.0 if abs(x) < 1e-6 else x)
v3f = st.lists(ff, min_size=3, max_size=3)


def close(a, b, scale, tol):
    return bool(np.all(np.abs(np.asarray(a) - np.asarray(b)) <= tol * scale + 1e-290))


def v3check(cmd, case, dt, tol):
    a, b = [np.array(x, dtype=dt) for x in case]
    dot, cr, nm, nrm, a2, b2 = P.call(cmd, *[float(x) for x in a], *[float(x) for x in b])
    a, b = a.astype(np.longdouble), b.astype(np.longdouble)
    sc = float(np.sqrt(a @ a) * np.sqrt(b @ b))
    need(close(dot, float(a @ b), sc, tol), "dot product", case, dot)
    need(close(cr, np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], dtype=float), sc, tol), "cross product", case, cr)
    n = float(np.sqrt(a @ a))
    need(close(nrm, n, n, tol), "norm", case, nrm)
    if n > 0:
        need(close(nm, np.array(a / n, dtype=float), 1, tol), "normalize", case, nm)
    need(np.array_equal(np.array(a2, dtype=dt), np.array(case[0], dtype=dt)) and np.array_equal(np.array(b2, dtype=dt), np.array(case[1], dtype=dt)), "arguments changed", case)
    if not a.any() or not b.any():
        trivial("zero vector")


@sub("vec3Operation", st.tuples(v3, v3).map(list), quick=1500, thorough=60000)
def c_v3(case):
    v3check("v3d", case, np.float64, 1e-14)


@sub("vec3Operation_float", st.tuples(v3f, v3f).map(list), quick=800, thorough=30000)
def c_v3f(case):
    v3check("v3f", case, np.float32, 2e-6)


@sub("outer_power", st.tuples(st.integers(1, 6), st.lists(st.one_of(st.integers(-4, 4).map(float), st.floats(-50, 50)), min_size=3, max_size=3)).map(list), quick=500, thorough=20000)
def c_outer(case):
    nju, v = case
    r, a = P.call("outer", nju, *v)
    t = np.array(v)
    for _ in range(nju - 1):
        t = np.multiply.outer(t, np.array(v))
    t = t.reshape(-1, 3)
    need(np.shape(r) == t.shape, "shape of the outer power", np.shape(r), t.shape)
    need(vp.allclose(r, t, rtol=1e-13, atol=0), "rank-%d outer power" % nju, case, r)
    need(a == v, "vector changed", case)
    if not any(v):
        trivial("zero")
    label("rank%d" % nju)


@sub("Vec3", st.tuples(v3, v3, st.one_of(st.integers(-5, 5).map(float), st.floats(-1e3, 1e3)).map(lambda x: 0.5 if abs(x) < 1e-6 else x), st.booleans()).map(list), quick=1500, thorough=60000)
def c_vec3(case):
    a, b, s, same = case
    if same:
        b = list(a)
    r = P.call("vec3", *a, *b, s)
    A, B = np.array(a), np.array(b)
    sc = np.abs(A) + np.abs(B)
    it = iter(r)
    nx = lambda: next(it)
    eq = lambda got, want, what: need(np.array_equal(np.array(got), want), "Vec3 " + what, case, got, want)
    eq(nx(), np.zeros(3), "default"); eq(nx(), A, "+a"); eq(nx(), A + B, "a+b"); eq(nx(), -A, "-a"); eq(nx(), A - B, "a-b")
    eq(nx(), A * s, "a*s"); eq(nx(), A * s, "s*a")
    q = nx(); need(close(q, A / s, np.abs(A / s), 4e-16), "Vec3 a/s", case, q)
    for want, what in ((A + B, "+="), (A - B, "-="), (A * s, "*="), (A / s, "/=")):
        need(nx() is True, "Vec3 %s does not return its left operand" % what)
        q = nx()
        need(close(q, want, np.abs(want), 4e-16), "Vec3 " + what, case, q)
    eq(nx(), A + A, "c+=c"); eq(nx(), A - A, "c-=c")
    d = nx(); need(close(d, A @ B, float(np.linalg.norm(A / (np.abs(A).max() or 1))) * (np.abs(A).max() or 1) * float(np.sqrt(3)) * np.abs(B).max(), 1e-14), "Vec3 dot", case, d)
    c = nx(); need(close(c, np.cross(A, B), 3 * np.abs(A).max() * np.abs(B).max(), 1e-15), "Vec3 cross", case, c)
    need(nx() is bool(np.array_equal(A, B)), "Vec3 ==", case); need(nx() is (not np.array_equal(A, B)), "Vec3 !=", case)
    need(nx() is True, "Vec3 == of a copy"); need(nx() is False, "Vec3 != of a copy")
    w = A.copy(); w[1] = s
    eq(nx(), w, "element assignment")
    txt = nx()
    need(txt.startswith("[") and txt.endswith("]") and len(txt[1:-1].split(", ")) == 3, "Vec3 printing", txt)
    for t, x in zip(txt[1:-1].split(", "), a):
        need(abs(float(t) - x) <= 1e-5 * abs(x), "Vec3 printing", txt, a)
    eq(nx(), A, "left operand changed"); eq(nx(), B, "right operand changed")


@sub("arrays", st.tuples(st.one_of(st.lists(st.integers(0, 5), min_size=3, max_size=5), st.tuples(st.lists(st.integers(1, 3), min_size=3, max_size=5), st.integers(0, 4), st.integers(6, 70)).map(lambda t: [t[2] if k == t[1] % len(t[0]) else x for k, x in enumerate(t[0])])), st.booleans(), st.sampled_from(["arrd", "arrf"])).map(list), quick=500, thorough=15000)
def c_arr(case):
    shape, init, cmd = case
    txt, bad0, bad1, n = P.call(cmd, len(shape), *shape, init)
    need(bad0 == 0, "elements not zero although initialisation was requested", case)
    need(bad1 == 0, "elements of the array share storage", case)
    need(n == int(np.prod(shape)), "harness", n)
    lines = [l for l in txt.split("\n") if l.strip()]
    need(len(lines) == n, "printed elements", len(lines), n)
    for k, idx in enumerate(np.ndindex(*shape)):
        l, r = lines[k].split("]")
        need([int(x) for x in l.strip()[1:].split(",")] == list(idx) and abs(float(r.split(":")[1]) - k) < 1e-5, "printed element", lines[k], idx)
    if n == 0:
        trivial("empty")


@sub("aligned_array", st.tuples(st.lists(st.tuples(st.integers(0, 7), st.one_of(st.integers(0, 40), st.integers(0, 700)), st.one_of(st.integers(0, 40), st.integers(0, 700))), max_size=25), st.sampled_from(["alignd", "alignf", "aligni"])).map(lambda t: [[list(x) for x in t[0]], t[1]]), quick=600, thorough=30000)
def c_al(case):
    ops, cmd = case
    args = [x for o in ops for x in o]
    got = P.call(cmd, *args)
    v = []
    for op, a, b in ops:
        n = len(v)
        if op == 0:
            v.append([])
        elif op == 1:
            v.append([-1.0] * a)
        elif n == 0:
            continue
        elif op == 2:
            if len(v[a % n]) != b:
                v[a % n] = [-1.0] * b
        elif op == 3:
            v[a % n] = [float(b + k) for k in range(len(v[a % n]))]
        elif op == 4:
            v.append(list(v[a % n])); label("copy")
        elif op == 5:
            v[a % n] = list(v[b % n]); label("assign")
        elif op == 6:
            del v[a % n]
        elif op == 7:
            label("collection")
    need(len(got) == len(v), "number of arrays")
    for g, w in zip(got, v):
        need(g[0] == len(w), "size of the aligned array", g[0], len(w))
        need(g[1] == 0, "aligned array does not start on a 16-byte boundary", ops)
        need(g[2:] == w, "contents of the aligned array", g[2:], w)
    if not any(v):
        trivial("no elements")


@sub("processors", st.just([]), quick=1, thorough=1)
def c_np(case):
    n = P.call("nproc")[0]
    need(n == os.sysconf("SC_NPROCESSORS_ONLN"), "number of processors", n)
