"""Child interpreter (runs under the address sanitizer): calls torch operators of the library under test; one JSON request and reply per line.

request: op = "namespace.name", args = list of scalars or tensors {"t": flat list, "s": shape, "d": dtype, "k": layout, "g": requires grad},
w: optional flat weights of output number `o` for a backward pass (loss = sum(w * output)); reply: outputs, gradients of the tensors with g, unchanged inputs?
"""
import sys, os, json
rep = os.fdopen(os.dup(1), "w")
os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
import torch
import leakcount
torch.set_num_threads(1)
torch.ops.load_library(sys.argv[1])
DT = dict(f32=torch.float32, f64=torch.float64, i32=torch.int32, i64=torch.int64)
NAME = {v: k for k, v in DT.items()}


def tensor(a):
    t = torch.tensor(a["t"], dtype=DT[a["d"]]).reshape(a["s"])
    k = a.get("k", "C")
    n = t.dim()
    if k == "T" and n > 1:                     # transposed storage
        t = t.permute(*range(n - 1, -1, -1)).contiguous().permute(*range(n - 1, -1, -1))
    elif k == "strided" and n:
        b = torch.full([2 * s for s in t.shape], -7, dtype=t.dtype)
        ix = tuple(slice(None, None, 2) for _ in t.shape)
        b[ix] = t
        t = b[ix]
    elif k == "offset":
        b = torch.full([t.numel() + 5], -7, dtype=t.dtype)
        b[3:3 + t.numel()] = t.reshape(-1)
        t = b[3:3 + t.numel()].reshape(t.shape)
    elif k == "last" and n:                    # a slice of a wider last axis
        b = torch.full(list(t.shape[:-1]) + [t.shape[-1] + 2], -7, dtype=t.dtype)
        b[..., 1:-1] = t
        t = b[..., 1:-1]
    elif k == "swap" and n > 1:                # first two axes stored exchanged
        t = t.transpose(0, 1).contiguous().transpose(0, 1)
    if a.get("g"):
        t = t.detach().requires_grad_(True)
    return t


def pack(t):
    return None if t is None else dict(t=t.detach().reshape(-1).tolist(), s=list(t.shape), d=NAME.get(t.dtype, str(t.dtype)))


def serve(q):
    ns, nm = q["op"].split(".")
    ts = [tensor(a) if isinstance(a, dict) else a for a in q["args"]]
    before = [t.detach().clone() if isinstance(t, torch.Tensor) else None for t in ts]
    out = getattr(getattr(torch.ops, ns), nm)(*ts)
    outs = list(out) if isinstance(out, (list, tuple)) else [out]
    r = dict(out=[pack(t) if isinstance(t, torch.Tensor) else t for t in outs])
    if "w" in q:
        o = outs[q.get("o", 0)]
        w = torch.tensor(q["w"], dtype=o.dtype).reshape(o.shape)
        if q.get("wk") == "T" and w.dim() > 1:
            w = w.transpose(0, -1).contiguous().transpose(0, -1)
        if q.get("twice"):
            (o * w).sum().backward(retain_graph=True)
            for t in ts:
                if isinstance(t, torch.Tensor) and t.grad is not None:
                    t.grad = None
        o.backward(w) if q.get("direct") else (o * w).sum().backward()
        r["grad"] = [pack(t.grad) if isinstance(t, torch.Tensor) and t.requires_grad else None for t in ts]
    r["same"] = all(b is None or bool(torch.equal(t.detach(), b)) for t, b in zip(ts, before))
    r["again"] = [pack(t) if isinstance(t, torch.Tensor) else t for t in outs] == r["out"]
    return r


last = None
for line in sys.stdin:
    try:
        q = json.loads(line)
        if q == "leak":
            m = leakcount.growth(lambda: serve(json.loads(last)))
        else:
            last = line
            m = dict(ok=serve(q))
    except Exception as e:
        m = dict(err="%s: %s" % (type(e).__name__, str(e)[:500]))
    rep.write(json.dumps(m) + "\n")
    rep.flush()
