"""C03 MOVEMENT trajectories."""
import numpy as np
import vp
from vp import sub, need, label, fresh_path
from gens import *
import mvt
from c02 import eq
vp.SUBS.clear()
from hypothesis import strategies as st

RULE = "a case counts when a generated trajectory was parsed and every frame compared with the generating numbers"
ASSUMPTIONS = ["all frames of a trajectory carry the same optional blocks (PWmat writes them uniformly)",
               "bulk extraction is compared for a constant number of atoms"]


@sub("trajectory", mvt.shuffled(mvt.movement(1, 5, nmax=5, big=(30, 60), rich=True)), quick=400, thorough=10000)
def trajectory(mv):
    from matersdk.io.pwmat.utils.mvextractor import MVExtractor
    p = fresh_path("MOVEMENT")
    open(p, "w").write(mvt.movement_text(mv))
    x = MVExtractor(movement_path=p)
    F = mv["frames"]
    need(x.get_num_frames() == len(F), "number of frames", x.get_num_frames(), len(F))
    W = [mvt.arrays(f) for f in F]
    keys = [k for k in mvt.LABELS if k in W[0]]
    need(list(x.get_info_labels()) == keys, "labels", x.get_info_labels(), keys)
    need(list(x.get_chunksizes()) == [mvt.frame_text(f, mv["opts"], mv["sty"]).count("\n") + 1 for f in F], "chunk sizes")
    bulk = x.get_frames_info()
    need(len(bulk) == len(keys), "number of bulk fields", len(bulk), len(keys))
    for k, arr in zip(keys, bulk):
        arr = np.asarray(arr)
        need(arr.ndim == 2 and arr.shape[0] == len(F), "bulk %s shape" % k, arr.shape)
        for i in range(len(F)):
            eq(k, arr[i], W[i][k], "bulk frame %d" % i)
    order = list(range(len(F)))[::-1] + list(range(len(F)))
    for i in order:
        info = x.get_frame_info(i)
        need(len(info) == len(keys), "number of frame fields", len(info), len(keys))
        for k, v in zip(keys, info):
            eq(k, v, W[i][k], "frame %d" % i)
    if len(F) > 1:
        label("several frames")
    for k in ("virial", "eatoms", "magmoms"):
        if k in keys:
            label(k)


@sub("varying_atoms", mvt.movement(2, 5, nmax=6, same_atoms=False, big=(20, 30), rich=True), quick=200, thorough=4000)
def varying_atoms(mv):
    """frames of different length: per-frame access."""
    from matersdk.io.pwmat.utils.mvextractor import MVExtractor
    p = fresh_path("MOVEMENT")
    open(p, "w").write(mvt.movement_text(mv))
    x = MVExtractor(movement_path=p)
    F = mv["frames"]
    need(x.get_num_frames() == len(F), "number of frames")
    keys = list(x.get_info_labels())
    for i in range(len(F)):
        w = mvt.arrays(F[i])
        for k, v in zip(keys, x.get_frame_info(i)):
            eq(k, v, w[k], "frame %d" % i)


@sub("reread", st.tuples(mvt.movement(1, 3, nmax=4, big=(12, 12)), mvt.movement(1, 3, nmax=4)), quick=100, thorough=2000)
def reread(case):
    """the same path rewritten with another trajectory."""
    p = fresh_path("MOVEMENT")
    from matersdk.io.pwmat.utils.mvextractor import MVExtractor
    for mv in case:
        open(p, "w").write(mvt.movement_text(mv))
        x = MVExtractor(movement_path=p)
        need(x.get_num_frames() == len(mv["frames"]), "number of frames")
        keys = [k for k in mvt.LABELS if k in mvt.arrays(mv["frames"][0])]
        need(list(x.get_info_labels()) == keys, "labels")
        for i, f in enumerate(mv["frames"]):
            w = mvt.arrays(f)
            for k, v in zip(keys, x.get_frame_info(i)):
                eq(k, v, w[k], "frame %d" % i)


@sub("long", mvt.movement(60, 60, nmax=2, big=(260, 2), every=1), quick=6, thorough=120)
def long(mv):
    trajectory(mv)


@sub("huge", mvt.movement(1, 2, nmax=1000, nmin=1000, big=(2, 1500), every=1, rich=True), quick=3, thorough=60)
def huge(mv):
    """a thousand atoms and more in each frame"""
    trajectory(mv)


@sub("medium", mvt.movement(2, 3, nmax=100, nmin=100, big=(3, 250), every=1, same_atoms=False, rich=True), quick=8, thorough=100)
def medium(mv):
    varying_atoms(mv)


@sub("varying_long", mvt.movement(25, 60, nmax=6, same_atoms=False, big=(120, 6), every=1), quick=6, thorough=100)
def varying_long(mv):
    """many frames of different lengths"""
    varying_atoms(mv)
