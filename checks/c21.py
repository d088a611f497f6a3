"""C21 force-field export."""
import os
import numpy as np
import vp
import again
from vp import sub, need, label, fresh_path
from hypothesis import strategies as st

RULE = "a case counts when the export was read back and every parameter compared; cases with equal numbers of embedding and fitting layers also count"
ASSUMPTIONS = ["checkpoints as PWmat-MLFF writes them (torch file with a state_dict); the descriptor width is a multiple of M1"]


@st.composite
def cases(draw):
    ne, nf = draw(st.integers(1, 4)), draw(st.integers(1, 3))
    es = draw(st.lists(st.integers(1, 6), min_size=1, max_size=5)); fs = draw(st.lists(st.integers(1, 6), min_size=0, max_size=5)) + [1]
    return dict(ne=ne, nf=nf, es=es, fs=fs, m2=draw(st.integers(1, 4)), seed=draw(st.integers(0, 2 ** 31)), res_e=[draw(st.booleans()) for _ in es], res_f=[draw(st.booleans()) for _ in fs],
                dt=draw(st.sampled_from(["float32", "float64"])), extra=draw(st.booleans()), pre=draw(st.booleans()))


@sub("export", cases(), quick=300, thorough=5000)
def export(case):
    import torch
    from matersdk.infer.pwmatmlff.deepmd.extractor import FFExtractor
    r = np.random.RandomState(case["seed"])
    sd = {}

    def net(prefix, n, d0, sizes, res):
        for i in range(n):
            a = d0
            for l, b in enumerate(sizes):
                sd["%s.%d.weights.weight%d" % (prefix, i, l)] = r.randn(a, b).astype(case["dt"])
                sd["%s.%d.bias.bias%d" % (prefix, i, l)] = r.randn(1, b).astype(case["dt"])
                if res[l]:
                    sd["%s.%d.resnet_dt.resnet_dt%d" % (prefix, i, l)] = r.randn(1, b).astype(case["dt"])
                a = b
    m1 = case["es"][-1]
    net("embedding_net", case["ne"], 1, case["es"], case["res_e"])
    net("fitting_net", case["nf"], m1 * case["m2"], case["fs"], case["res_f"])
    p, h = fresh_path("x.pt"), fresh_path("x.h5")
    ck = {"state_dict": {k: torch.tensor(v) for k, v in sd.items()}}
    if case["extra"]:
        ck["epoch"] = 7
    torch.save(ck, p)
    if case["pre"]:
        import h5py
        with h5py.File(h, "w") as f:
            f.create_dataset("stale", data=[1, 2])
    x = FFExtractor(p, case["ne"], len(case["es"]), case["nf"], len(case["fs"]))
    x.save_hdf5_file(h)
    d = FFExtractor.get_hdf5_dict(h)
    need(set(d) == set(sd) | {"M1", "M2", "embedding_sizes", "fitting_sizes"}, "keys", sorted(set(d) ^ (set(sd) | {"M1", "M2", "embedding_sizes", "fitting_sizes"})))
    for k, v in sd.items():
        need(d[k].shape == v.shape and d[k].dtype == v.dtype and np.array_equal(d[k], v), "parameter changed", k)
    need(int(d["M1"]) == m1 and int(d["M2"]) == case["m2"], "descriptor sizes", d["M1"], d["M2"])
    need(list(d["embedding_sizes"]) == case["es"] and list(d["fitting_sizes"]) == case["fs"], "layer sizes", d["embedding_sizes"], d["fitting_sizes"])
    label("more fitting layers" if len(case["fs"]) > len(case["es"]) else "more embedding layers" if len(case["es"]) > len(case["fs"]) else "equal layers")


@st.composite
def large(draw):
    k = draw(cases())
    es = draw(st.lists(st.integers(1, 40), min_size=6, max_size=14)); fs = draw(st.lists(st.integers(1, 40), min_size=5, max_size=14)) + [1]
    return dict(k, ne=draw(st.integers(5, 25)), nf=draw(st.integers(4, 12)), es=es, fs=fs, res_e=[draw(st.booleans()) for _ in es], res_f=[draw(st.booleans()) for _ in fs])


@sub("large", large(), quick=12, thorough=300)
def large_export(case):
    export(case)


@sub("rewritten", again.rewritten(cases()), quick=50, thorough=1000)
def rewritten(cases):
    again.rerun(cases, export)
