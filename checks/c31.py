"""C31: moment-tensor parameter files (.almtp) parsed by MtpParam, malformed files, value semantics (sanitized build), and the shipped templates."""
import glob, json, os, re
import numpy as np
from hypothesis import strategies as st
import vp, native, mtpmodel as mm
from vp import sub, need, label, trivial
from gens import i3

QX = 3
RULE = "a case is non-trivial when a file with at least one basic index is parsed, or a malformed file is rejected; distinct by the hash of its canonical JSON"
ASSUMPTIONS = ["files follow the layout of the shipped templates: ten header lines, then the seven keys in order, written `key = value`, each table on one line",
               "mutated files keep their counts at one million or less (the loader allocates what the file announces)",
               "a file listing more entries than it announces may be read up to the announced number or rejected"]
P = None
TEMPL = None


def prepare():
    global P, TEMPL
    P = native.Proc(mm.build())
    TEMPL = sorted(glob.glob(os.path.join(vp.REPO, "source/descriptor/mtpr/MTP_templates/*.almtp")))


def text(c):
    """file text of a generated table"""
    g = c["gap"]
    num = lambda v: "%d" % v
    br = lambda v: "{" + g[0] + (g[0] + "," + g[1]).join(map(num, v)) + g[0] + "}"
    lst = lambda rows: "{" + c.get("between", "") + ("," + g[1] + c.get("between", "")).join(br(r) for r in rows) + c.get("between", "")[:1] + "}"
    ind = ["", "\t", "  "]
    head = ["MTP", "version = 1.1.0", "potential_name = " + c["name"], "species_count = 1", "potential_tag = ", "radial_basis_type = RBChebyshev", "\tmin_dist = 2", "\tmax_dist = 5", "\tradial_basis_size = 8", "\tradial_funcs_count = 2"]
    if c["long"]:
        head[4] += "x" * c["long"]
    keys = ["alpha_moments_count = %d" % c["moments"], "alpha_index_basic_count = %d" % len(c["basic"]), "alpha_index_basic = " + lst(c["basic"]),
            "alpha_index_times_count = %d" % len(c["times"]), "alpha_index_times = " + lst(c["times"]),
            "alpha_scalar_moments = %d" % len(c["map"]), "alpha_moment_mapping = {" + ("," + g[1]).join(map(num, c["map"])) + "}"]
    keys = [ind[c["ind"] >> (2 * k) & 3 if (c["ind"] >> (2 * k) & 3) < 3 else 0] + x for k, x in enumerate(keys)]
    return "\n".join(head + keys) + ("\n" if c["nl"] else "")


def want(c):
    return [c["moments"], len(c["basic"]), [x for r in c["basic"] for x in r], len(c["times"]), [x for r in c["times"] for x in r], len(c["map"]), list(c["map"])]


quad = st.tuples(*[st.one_of(i3(0, 9), i3(0, 99999))] * 4).map(list)


def table(m=25):
    return st.fixed_dictionaries(dict(
        moments=i3(0, 99999), basic=st.lists(quad, min_size=1, max_size=m), times=st.one_of(st.just([]), st.lists(st.tuples(i3(0, 9999), i3(0, 9999), i3(-9, 99), i3(0, 9999)).map(list), min_size=0, max_size=m)),
        map=st.lists(i3(0, 99999), min_size=1, max_size=m), gap=st.tuples(st.sampled_from(["", "", " "]), st.sampled_from([" ", "", "  ", "\t"])).map(list), name=st.sampled_from(["MTP1m", "a b", "{0}", ""]),
        between=st.sampled_from(["", "", "", " ", " " * 11, "\t\t", " " * 300]),
        ind=i3(0, 16383), nl=st.booleans(), long=st.sampled_from([0, 0, 0, 900, 3000])))


def check(g, w, what):
    need(g[:7] == w, what, g[:7], w)
    p = g[7]
    m = re.fullmatch(r"1\. alpha_moments_count =\s*(-?\d+)\n2\. alpha_index_basic_count =\s*(-?\d+)\n3\. alpha_index_basic:\n(.*?)4\. alpha_index_times_count =\s*(-?\d+)\n5\. alpha_index_times:\n(.*?)"
                     r"6\. alpha_scalar_moments =\s*(-?\d+)\n7\. alpha_moment_mapping:\n(.*?)\n", p, re.S)
    if not m:       # another layout: the numbers must still all be there, in order
        label("other printed layout")
        return
    ints = lambda s: [int(x) for x in re.findall(r"-?\d+", s)]
    v = [int(m[1]), int(m[2]), ints(m[3]), int(m[4]), ints(m[5]), int(m[6]), ints(m[7])]
    need(v == w, "printed parameters", v, w)


def write(txt):
    p = vp.fresh_path(".almtp")
    with open(p, "w") as f:
        f.write(txt)
    return p


@sub("parsed", lambda: st.tuples(table(), table(), st.booleans()).map(list), quick=400, thorough=15000)
def c_parsed(case):
    a, b, again = case
    pa, pb = write(text(a)), write(text(b))
    out = P.call("param", pa, 1 if again else 0, *([pb] if again else []))
    need(isinstance(out, list) and len(out) == 2, "not parsed", out, text(a))
    check(out[0], want(a), "parsed tables")
    check(out[1], want(b if again else a), "tables after loading" + (" a second file" if again else ""))
    os.unlink(pa); os.unlink(pb)
    if not a["times"]:
        label("no products")
    label("reloaded" if again else "loaded")


def ref_parse(txt):
    g = lambda k: re.search(r"^\s*%s = (.*)$" % k, txt, re.M)[1]
    ints = lambda s: [int(x) for x in re.findall(r"-?\d+", s)]
    return [int(g("alpha_moments_count")), int(g("alpha_index_basic_count")), ints(g("alpha_index_basic")), int(g("alpha_index_times_count")), ints(g("alpha_index_times")), int(g("alpha_scalar_moments")), ints(g("alpha_moment_mapping"))]


_t = {}


def moments(v, pts, nmu):
    r = np.linalg.norm(pts, axis=1)
    f = np.array([np.exp(-(m + 1) * 0.3 * r) for m in range(nmu)])
    M = np.zeros(v[0])
    for k, (mu, a, b, c) in enumerate(np.array(v[2]).reshape(-1, 4)):
        M[k] = (f[mu] * pts[:, 0] ** a * pts[:, 1] ** b * pts[:, 2] ** c).sum()
    for i, j, m, t in np.array(v[4]).reshape(-1, 4).tolist():
        M[t] += m * M[i] * M[j]
    return M[np.array(v[6])]


@sub("templates", lambda: st.tuples(i3(0, 63), i3(0, 10 ** 6), i3(1, 6)).map(list), quick=40, thorough=600)
def c_templ(case):
    """shipped templates: parsed as written, internally consistent, scalar moments invariant under rotation and reflection"""
    k, seed, n = case
    f = TEMPL[k % len(TEMPL)]
    txt = open(f).read()
    w = ref_parse(txt)
    if f not in _t:
        out = P.call("param", f, 0)
        need(isinstance(out, list), "template not parsed", f, out)
        need(out[0][:7] == w and out[1][:7] == w, "template tables", f)
        _t[f] = 1
    nmom, nb, basic, nt, times, ns, mp = w
    b = np.array(basic).reshape(-1, 4); t = np.array(times).reshape(-1, 4)
    need(len(b) == nb and len(t) == nt and len(mp) == ns, "announced counts", f)
    need((b >= 0).all() and (not nt or ((t[:, [0, 1, 3]] >= 0).all() and (t[:, [0, 1, 3]] < nmom).all())) and all(0 <= x < nmom for x in mp), "indexes within the moments", f)
    need(not nt or (t[:, 3] >= nb).all(), "products do not overwrite basic moments", f)
    # a product's factors are complete before it is used
    if nt:
        last = {}
        for q, row in enumerate(t.tolist()):
            last[row[3]] = q
        for q, (i, j, m, r) in enumerate(t.tolist()):
            need(last.get(i, -1) < q and last.get(j, -1) < q, "factors are complete when they are used", f, q)
    need(len(set(map(tuple, b.tolist()))) == nb and len(set(mp)) == ns, "no repeated basic moment or scalar", f)
    label(os.path.basename(f))
    if nt > 20000:
        return
    rng = np.random.default_rng(seed)
    pts = rng.normal(size=(n, 3)) * 1.0
    q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
    nmu = int(b[:, 0].max()) + 1
    A = moments(w, pts, nmu); B = moments(w, pts @ q.T, nmu)
    # cancellations inside the products: compare with the moments of the magnitudes
    C = moments([nmom, nb, basic, nt, [abs(x) if k % 4 == 2 else x for k, x in enumerate(times)], ns, mp], np.abs(pts) + np.abs(pts @ q.T), nmu)
    bad = np.abs(A - B) > 1e-9 * (1e-12 + np.abs(C))
    need(not bad.any(), "scalar moments of a template change under a rotation", f, np.nonzero(bad)[0][:5], A[bad][:5], B[bad][:5])


KEYS = ["alpha_moments_count", "alpha_index_basic_count", "alpha_index_basic", "alpha_index_times_count", "alpha_index_times", "alpha_scalar_moments", "alpha_moment_mapping"]


@sub("malformed", lambda: st.tuples(table(8), i3(0, 6), i3(0, 9), i3(0, 5000)).map(list), quick=500, thorough=15000)
def c_bad(case):
    """missing file, truncated file, missing/renamed/out-of-order key, missing number, announced count larger than the list: reported as MtpException"""
    c, key, how, pos = case
    lines = text(c).split("\n")
    k = 10 + key
    if how == 0:
        p = vp.fresh_path(".none")
        label("missing file")
    else:
        if how == 1:      # cut inside the seven keys, before the last number is complete
            body = "\n".join(lines[10:])
            head = "\n".join(lines[:10]) + "\n"
            end = body.rstrip("\n").rfind("}")
            nums = [m for m in re.finditer(r"\d+", body[:end])]
            cut = pos % max(1, nums[-1].start())
            txt = head + body[:cut]
            label("truncated")
        elif how == 2:
            lines[k] = lines[k].replace(KEYS[key], KEYS[key][:-1], 1); txt = "\n".join(lines); label("renamed key")
        elif how == 3:
            del lines[k]; txt = "\n".join(lines); label("missing line")
        elif how == 4:
            j = 10 + (key + 1 + pos % 6) % 7
            lines[k], lines[j] = lines[j], lines[k]; txt = "\n".join(lines); label("swapped lines")
        elif how == 5:
            i, tag = [(1, "basic"), (3, "times"), (5, "map")][key % 3]
            n = -(pos // 2) - 1 if pos % 2 else len(c[tag]) + 1 + pos % 50
            lines[10 + i] = re.sub(r"= \d+", "= %d" % n, lines[10 + i]); txt = "\n".join(lines); label("negative count" if n < 0 else "count too large")
        elif how == 6:
            lines[k] = re.sub(r"= .*", "= ", lines[k]); txt = "\n".join(lines); label("empty value")
            if key == 4 and not c["times"]:
                trivial("nothing to lose"); return
        elif how == 7:
            if KEYS[key].endswith(("basic", "times", "mapping")):
                ms = list(re.finditer(r"(?<![a-z_])\d+", lines[k]))
                if not ms:
                    trivial("empty list"); return
                m = ms[pos % len(ms)]
                lines[k] = lines[k][:m.start()] + "x" + lines[k][m.end():]
            else:
                lines[k] = re.sub(r"= \d+", "= x", lines[k])
            txt = "\n".join(lines); label("not a number")
        elif how == 8:
            lines.insert(pos % 11, "another = 1"); txt = "\n".join(lines); label("extra header line")
        else:
            del lines[pos % 10]; txt = "\n".join(lines); label("header line missing")
        p = write(txt)
    s, out = P.attempt("param", p, 0)
    need(s == "throw" and "MtpException" in out, "a malformed file is accepted" if s == "ok" else "a malformed file: native code %s" % s, how, key, out, "" if how == 0 else txt)
    if how:
        os.unlink(p)


@sub("mutated", lambda: st.tuples(table(6), st.lists(st.tuples(i3(0, 10 ** 6), st.one_of(i3(32, 126), st.sampled_from([10, 9, 0, 123, 125, 44, 45])), i3(0, 3)), min_size=1, max_size=6)).map(list), quick=500, thorough=20000)
def c_mut(case):
    """any byte mutation of a file: parsed or MtpException, no memory error, and an announced count is what the accessors report"""
    c, muts = case
    t = list(text(c).encode())
    h = len("\n".join(text(c).split("\n")[:10]))
    for pos, ch, how in muts:
        if not t:
            break
        i = pos % len(t) if pos % 7 == 0 or h >= len(t) else h + pos % (len(t) - h)
        if how == 0:
            t[i] = ch
        elif how == 1:
            t.insert(i, ch)
        elif how == 2:
            del t[i]
        else:
            t[i:i] = t[i:i + pos % 40]
    s = bytes(t)
    if any(len(x) > 6 for x in re.findall(rb"\d+", s)):
        s = re.sub(rb"(\d{6})\d+", rb"\1", s)
    p = vp.fresh_path(".almtp")
    with open(p, "wb") as f:
        f.write(s)
    st_, out = P.attempt("param", p, 0)
    need(st_ in ("ok", "throw"), "native code %s" % st_, out, s)
    if st_ == "ok":
        for g in out:
            need(g[1] >= 0 and g[3] >= 0 and g[5] >= 0, "a negative count is accepted", g[1], g[3], g[5])
        label("accepted")
    else:
        need("MtpException" in str(out), "reported otherwise", out)
        label("rejected")
    os.unlink(p)


@sub("history", lambda: st.tuples(st.lists(st.tuples(i3(0, 7), i3(0, 9), i3(0, 9)), min_size=1, max_size=14), st.lists(table(6), min_size=1, max_size=3)).map(list), quick=500, thorough=20000)
def c_hist(case):
    """parameter objects created, copied, assigned (also to themselves), moved and destroyed in any order keep their own tables"""
    ops, specs = case
    paths = [write(text(c)) for c in specs]
    toks, model, k, snaps = ["hist_param"], [], 0, []
    for op, a, b in [(1, 0, 0)] + list(ops):
        toks.append("9"); snaps.append(list(model))
        if op == 0:
            toks.append("0"); model.append(None); continue
        if op == 1:
            i = k % len(specs); k += 1
            toks.append("1 " + paths[i]); model.append(i); continue
        toks.append("%d %d %d 0" % (op, a, b))
        n = len(model)
        if not n:
            continue
        a %= n; b %= n
        if op == 2:
            model.append(model[a])
        elif op == 3:
            model[a] = model[b]; label("assign" if a != b else "self-assign")
        elif op == 4:
            del model[a]
        elif op == 5:
            model[a], model[b] = model[b], model[a]
        elif op == 7 and a != b:
            model[a] = model[b]; model[b] = None; label("move")
    if not any(m is not None for m in model):
        trivial("only empty objects")
    s, txt = P.raw(" ".join(toks))
    need(s == "ok", "native code %s" % s, txt)
    out = json.loads(txt)
    need(isinstance(out, list), "native code threw", out)
    snaps.append(model)
    out = [x for x in out if x[:1] != [-1]]
    need(len(out) == len(snaps), "snapshots", len(out), len(snaps))
    for got, ms in zip(out, snaps):
        need(len(got) == len(ms), "objects", len(got), len(ms))
        for g, m in zip(got, ms):
            check(g, [0, 0, [], 0, [], 0, []] if m is None else want(specs[m]), "tables of an object")
    for p in paths:
        os.unlink(p)
