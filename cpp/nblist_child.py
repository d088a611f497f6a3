"""Child interpreter (runs under the address sanitizer): executes histories of nblist calls sent as JSON lines."""
import sys, os, json, gc
rep = os.fdopen(os.dup(1), "w")
os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
sys.path.insert(0, sys.argv[1])
import numpy as np
import nblist
import leakcount


def layout(a, kind, dt):
    a = np.asarray(a, dtype=dt)
    if kind == "F":
        return np.asfortranarray(a)
    if kind == "strided":
        b = np.full(tuple(2 * s for s in a.shape), -7, dtype=a.dtype)
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return b[tuple(slice(None, None, 2) for _ in a.shape)]
    if kind == "neg":
        b = np.ascontiguousarray(a[tuple(slice(None, None, -1) for _ in a.shape)])
        return b[tuple(slice(None, None, -1) for _ in a.shape)]
    if kind == "ro":
        a = a.copy(); a.flags.writeable = False
        return a
    return np.ascontiguousarray(a)


def pack(r):
    return dict(inum=r[0], ilist=r[1].tolist(), numneigh=r[2].tolist(), firstneigh=r[3].tolist(), rel=r[4].tolist(), types=r[5].tolist(), nghost=r[6],
                shapes=[list(x.shape) for x in r[1:6]], dtypes=[str(x.dtype) for x in r[1:6]], own=[bool(x.flags.owndata) for x in r[1:6]],
                writable=[bool(x.flags.writeable) for x in r[1:6]])


def flag(x, kind):
    """a truth value as Python callers write it"""
    return {"bool": bool, "int": int, "np": np.bool_, "obj": lambda b: [1] if b else None}[kind](x)


def serve(req):
    kept, out = [], []
    for q in req:
        if q["op"] == "call":
            lat = layout(q["lat"], q["kl"], q["dl"]); Z = layout(q["Z"], q["kz"], q["dz"]); xyz = layout(q["xyz"], q["kx"], q["dx"])
            c = [lat.copy(), Z.copy(), xyz.copy()]
            try:
                r = nblist.find_info4mlff(lat, Z, xyz, q["rcut"], [bool(x) for x in q["pbc"]] if q["lb"] else [int(x) for x in q["pbc"]], q["umax"], flag(q["sort"], q["fl"]), flag(q["cart"], q["fl"]))
                kept.append(r)
                out.append(dict(ok=pack(r), same=bool((lat == c[0]).all() and (Z == c[1]).all() and (xyz == c[2]).all())))
            except Exception as e:
                kept.append(None)
                out.append(dict(err="%s: %s" % (type(e).__name__, e)))
            del lat, Z, xyz, c
        elif q["op"] == "drop" and kept:
            kept[q["k"] % len(kept)] = None
            gc.collect()
        elif q["op"] == "scribble" and kept:
            r = kept[q["k"] % len(kept)]
            if r is not None:
                for x in r[1:6]:
                    x[...] = 3
                kept[q["k"] % len(kept)] = None
                del r
    # everything still held must read as it did when it was returned
    held = [None if r is None else pack(r) for r in kept]
    return json.dumps(dict(out=out, held=held))


last = None
for line in sys.stdin:
    req = json.loads(line)
    if req == "leak":
        rep.write(json.dumps(leakcount.growth(lambda: serve(json.loads(last)))) + "\n")
    else:
        last = line
        rep.write(serve(req) + "\n")
    rep.flush()
