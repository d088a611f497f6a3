"""Child interpreter (under the address sanitizer): the package `matersdk.fromcc` of a scratch root (argv[1]); one JSON request and reply per line."""
import sys, os, json
rep = os.fdopen(os.dup(1), "w")
os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
sys.path.insert(0, sys.argv[1])
import numpy as np
import torch
torch.set_num_threads(1)
import matersdk.fromcc as F


def serve(q):
    infos = []
    for s in q["s"]:
        infos.append(F.nblist.find_info4mlff(np.array(s["lat"], np.float64), np.array(s["ty"], np.int32), np.array(s["xyz"], np.float64), q["rcut"],
                                             [True, True, True], q["umax"], q["sort"], q["cart"]))
    ts = [torch.stack([torch.from_numpy(i[k]) for i in infos]) for k in range(1, 6)]
    if q["f32"]:
        ts[3] = ts[3].to(torch.float32)
    ts.append(torch.tensor([q["lims"]] * len(infos), dtype=torch.int32))
    v, d = F.envMatrixOp(*ts, q["rd"], q["rs"])
    return dict(ok=[v.tolist(), d.tolist()], dt=[str(v.dtype), str(d.dtype)])


for line in sys.stdin:
    try:
        r = serve(json.loads(line))
    except Exception as e:
        r = dict(err="%s: %s" % (type(e).__name__, e))
    rep.write(json.dumps(r) + "\n")
    rep.flush()
