"""C04 data-set export (InfoSet / InfoSets)."""
import os, itertools
import numpy as np
import vp
from vp import sub, need, label, fresh_path, fresh_dir
from gens import *
import again
import mvt
from c02 import eq
vp.SUBS.clear()
from hypothesis import strategies as st

RULE = "a case counts when a data set was exported and every array of every part compared with the generated trajectory"
ASSUMPTIONS = ["export into an empty directory; trajectories merged by formula have the same optional blocks or the blocks common to all are kept",
               "the species list file names one element per line and the type arrays index into it"]
FILES = {"box": ["box"], "coords": ["coord"], "etot": ["etot"], "fatoms": ["fatom"], "virial": ["virial"], "eatoms": ["eatom"],
         "magmoms": ["magmom", "magmoms"]}


def load_part(d):
    out = {}
    for k, names in FILES.items():
        for n in names:
            f = os.path.join(d, n + ".npy")
            if os.path.exists(f):
                out[k] = np.load(f)
    out["types"] = np.load(os.path.join(d, "types.npy"))
    return out


def load_set(d):
    """type_map and the parts in order"""
    tm = open(os.path.join(d, "type_map.raw")).read().split()
    parts = sorted(x for x in os.listdir(d) if x.startswith("part."))
    need(parts == ["part.%03d" % i for i in range(len(parts))], "part directories are numbered consecutively", parts)
    return tm, [load_part(os.path.join(d, x)) for x in parts]


def check_set(d, frames_W, keys, part_size, what):
    """frames_W: list of per-frame dicts in expected order."""
    tm, parts = load_set(d)
    n = len(frames_W)
    ps = part_size or n
    sizes = [min(ps, n - s) for s in range(0, n, ps)]
    need([len(p["box"]) for p in parts] == sizes, what + " part sizes", [len(p["box"]) for p in parts], sizes)
    i = 0
    for p in parts:
        need(set(p) == set(keys) | {"types"}, what + " quantities written", sorted(p), sorted(keys))
        m = len(p["box"])
        for k in p:
            need(p[k].ndim == 2 and p[k].shape[0] == m, what + " shape of " + k, p[k].shape)
        for j in range(m):
            w = frames_W[i]
            for k in keys:
                if k != "types":
                    eq(k, p[k][j], w[k], what + " frame %d" % i)
            t = p["types"][j]
            need([tm[int(x)] for x in t] == [Z2S[z] for z in w["types"]], what + " species of frame %d" % i, t, tm, w["types"])
            i += 1
    return tm


ONE = st.fixed_dictionaries(dict(mv=mvt.shuffled(mvt.movement(1, 9, nmax=3, big=(40, 40), rich=True)), part=st.one_of(st.none(), st.integers(1, 13))))


@sub("single", ONE, quick=300, thorough=6000)
def single(case):
    from matersdk.data.infoset import InfoSet
    mv = case["mv"]
    p = fresh_path("MOVEMENT")
    open(p, "w").write(mvt.movement_text(mv))
    s = InfoSet.from_file(file_path=p, file_format="pwmat/movement")
    W = [mvt.arrays(f) for f in mv["frames"]]
    need(s.num_frames == len(W), "num_frames")
    if any(f["Z"] != mv["frames"][0]["Z"] for f in mv["frames"]):
        label("atoms in another order")
    Z = mv["frames"][0]["Z"]
    cnt = {Z2S[z]: Z.count(z) for z in sorted(set(Z))}
    need({k: int(v) for k, v in s.formula_dict.items()} == cnt, "formula counts", s.formula_dict, cnt)
    need(s.formula == "".join("%s%d" % kv for kv in cnt.items()), "formula", s.formula)
    keys = [k for k in mvt.LABELS if k in W[0]]
    need((s.virial_mark, s.eatom_mark, s.magmom_mark) == tuple(k in keys for k in ("virial", "eatoms", "magmoms")), "marks")
    for k, arr in (("box", s.box), ("coords", s.coord), ("etot", s.etot), ("fatoms", s.fatom), ("virial", s.virial), ("eatoms", s.eatom),
                   ("magmoms", s.magmom)):
        if k in keys:
            for i in range(len(W)):
                eq(k, arr[i], W[i][k], "set frame %d" % i)
        else:
            need(arr is False, "absent %s is not reported as absent" % k)
    d = fresh_dir()
    if case["part"]:
        s.to_dir(d, part_size=case["part"])
        label("exact multiple" if len(W) % case["part"] == 0 else "remainder")
    else:
        s.to_dir(d)
    need(os.listdir(d) == [s.formula], "export directory name", os.listdir(d))
    check_set(os.path.join(d, s.formula), W, keys, case["part"], "export")


MOPT = st.fixed_dictionaries(dict(force=st.just(True), virial=st.booleans(), eatom=st.booleans(), mag=st.booleans(), vel=st.just(False), mdinfo=st.just(False)))
# compositions that read alike (H1, H10, H11, ...)
ALIKE = st.lists(st.sampled_from([1, 1, 1, 10, 11]).flatmap(lambda n: mvt.movement(1, 2, nmax=n, nmin=n, max_kinds=1, zmax=1, opts=MOPT)), min_size=3, max_size=4)
MANY = st.fixed_dictionaries(dict(
    mvs=st.sampled_from([(3, 4), (2, 2), (2, 1), None]).flatmap(lambda t: ALIKE if t is None else st.lists(mvt.shuffled(mvt.movement(1, 4, nmax=t[0], max_kinds=2, zmax=t[1], opts=MOPT)), min_size=1, max_size=4)),
    name=st.sampled_from(["MOVEMENT", "MOVEMENT", "movement", "Movement"]),
    depth=st.lists(st.integers(0, 2), min_size=4, max_size=4),
    part=st.one_of(st.none(), st.integers(1, 6))))


@sub("many", MANY, quick=250, thorough=5000)
def many(case):
    from matersdk.data.infosets import InfoSets
    root = fresh_dir()
    mvs = case["mvs"]
    for i, mv in enumerate(mvs):
        d = os.path.join(root, *["s%d" % i] + ["x"] * case["depth"][i])
        os.makedirs(d)
        open(os.path.join(d, case["name"] if i % 2 else "MOVEMENT"), "w").write(mvt.movement_text(mv))
        open(os.path.join(d, "MOVEMENT.bak"), "w").write("not a trajectory")
    S = InfoSets.from_dir(dir_path=root, file_name=case["name"], file_format="pwmat/movement")
    if case["name"] != "MOVEMENT":
        label("other letter case")
    total = sum(len(mv["frames"]) for mv in mvs)
    need(S.get_num_frames() == total, "total number of frames", S.get_num_frames(), total)
    # group by composition
    groups = {}
    for mv in mvs:
        Z = mv["frames"][0]["Z"]
        groups.setdefault(tuple(sorted(Z)), []).append(mv)
    need(len(S.infoset_lst) == len(groups), "one set per composition", len(S.infoset_lst), len(groups))
    out = fresh_dir()
    if case["part"]:
        S.to_dir(out, part_size=case["part"])
    else:
        S.to_dir(out)
    need(sorted(os.listdir(out)) == sorted(s.formula for s in S.infoset_lst), "exported sets", os.listdir(out))
    if len(groups) < len(mvs):
        label("merged")
    tms = set()
    for comp, g in groups.items():
        cnt = {Z2S[z]: comp.count(z) for z in set(comp)}
        sel = [s for s in S.infoset_lst if {k: int(v) for k, v in s.formula_dict.items() if v} == cnt]
        need(len(sel) == 1, "a set reports the composition of its atoms", cnt, [s.formula_dict for s in S.infoset_lst])
        s = sel[0]
        need(s.num_frames == sum(len(m["frames"]) for m in g), "frames of the merged set")
        common = [k for k in mvt.LABELS if all(k in mvt.arrays(m["frames"][0]) for m in g)]
        # the merge order of files is the directory walk order: accept any order of whole trajectories
        last = None
        d = os.path.join(out, s.formula)
        for perm in itertools.permutations(g):
            W = [mvt.arrays(f) for m in perm for f in m["frames"]]
            try:
                tm = check_set(d, W, common, case["part"] or total, "merged export")
                break
            except vp.Violation as e:
                last = e
        else:
            raise last
        tms.add(tuple(tm))
    need(len(tms) == 1, "all sets share one species list", tms)


@sub("rewritten", again.rewritten(ONE), quick=40, thorough=1000)
def rewritten(cases):
    again.rerun(cases, single)


@sub("long", st.fixed_dictionaries(dict(mv=mvt.movement(60, 60, nmax=2, big=(260, 2), every=1), part=st.one_of(st.none(), st.integers(1, 120)))), quick=8, thorough=150)
def long(case):
    single(case)
