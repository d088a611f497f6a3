"""C20 StructCollection."""
import os
import numpy as np
import vp
from vp import sub, need, label, fresh_path, fresh_dir
from gens import *
import again
import mvt, c06, c22
vp.SUBS.clear()
from hypothesis import strategies as st

RULE = "a case counts when the collection has at least two frames and an export or a selection was compared"
ASSUMPTIONS = ["all frames of a collection have the same atoms (as the class documents); force block present"]
OPTS = st.fixed_dictionaries(dict(force=st.just(True), virial=st.booleans(), eatom=st.booleans(), mag=st.just(False), vel=st.booleans(), mdinfo=st.booleans()))


def load(mv):
    from matersdk.io.pwmat.output.movement import Movement
    from matersdk.data.struct_collection import StructCollection
    p = fresh_path("MOVEMENT"); open(p, "w").write(mvt.movement_text(mvt.classic(mv)))
    return StructCollection.from_trajectory_s(Movement(p))


def same(sc, F, what):
    """the collection holds exactly the frames F in order"""
    need(len(sc) == len(F) and sc.num_structures == len(F) and len(sc.structures_lst) == len(F), what + ": length", len(sc), len(F))
    for k, f in enumerate(F):
        c22.same_structure(sc.structures_lst[k], f, "%s frame %d" % (what, k))
    for arr, key in ((sc.total_energys_array, "etot"), (sc.potential_energys_array, "ep"), (sc.kinetic_energys_array, "ek")):
        need(np.shape(arr) == (len(F),) and vp.allclose(arr, [f[key] / 1e4 for f in F], rtol=2e-10, atol=1e-9), what + ": " + key)
    if "virial" in F[0]:
        need(vp.allclose(sc.virial_tensors_array, np.array([f["virial"] for f in F]) / 1e6, rtol=1e-10, atol=1e-9) and np.shape(sc.virial_tensors_array) == (len(F), 3, 3), what + ": virials")
    else:
        need(not np.any(sc.virial_tensors_array), what + ": virials where there are none")
    Z = F[0]["Z"]
    need(sc.num_atoms == len(Z), what + ": number of atoms")
    need(list(sc.atomic_numbers_lst) == list(dict.fromkeys(Z)), what + ": species", sc.atomic_numbers_lst)
    need(sc.an2na == {z: Z.count(z) for z in Z}, what + ": atoms per species", sc.an2na)


def check_export(d, F, size):
    Z = F[0]["Z"]; kinds = list(dict.fromkeys(Z))
    need(open(os.path.join(d, "type_map.raw")).read().split() == [Z2S[z] for z in kinds], "type map", open(os.path.join(d, "type_map.raw")).read())
    need([int(x) for x in open(os.path.join(d, "type.raw")).read().split()] == [kinds.index(z) for z in Z], "types")
    n = len(F); nset = (n + size - 1) // size
    need(sorted(os.listdir(d)) == sorted(["type_map.raw", "type.raw"] + ["set.%03d" % i for i in range(nset)]), "files", sorted(os.listdir(d)))
    for i in range(nset):
        G = F[i * size:(i + 1) * size]
        s = os.path.join(d, "set.%03d" % i)
        L = lambda x: np.load(os.path.join(s, x + ".npy"))
        g = len(G)
        ref = dict(cell=np.array([lat_array(f["lat"]).reshape(-1) for f in G]), atom_coord=np.array([(frac_array(f) @ lat_array(f["lat"])).reshape(-1) for f in G]),
                   tot_energy=np.array([[f["etot"] / 1e4] for f in G]), atom_force=np.array([(np.array(f["force"]) / 1e6).reshape(-1) for f in G]))
        for k, r in ref.items():
            a = L(k)
            need(a.shape == r.shape and vp.allclose(a, r, rtol=1e-8, atol=1e-9), "set %d: %s" % (i, k), a, r)
        exp = set(ref)
        if "virial" in F[0] and np.any([f["virial"] for f in F]):
            need(vp.allclose(L("virial"), np.array([f["virial"] for f in G]).reshape(g, 9) / 1e6, rtol=1e-10, atol=1e-9), "virial of set", i); exp.add("virial")
        if "eatom" in F[0] and np.any([[x[0] for x in f["eatom"]] for f in F]):
            need(vp.allclose(L("atom_energy"), np.array([[x[0] for x in f["eatom"]] for f in G]) / 1e6, atol=1e-9), "atomic energies of set", i); exp.add("atom_energy")
        need(sorted(os.listdir(s)) == sorted(x + ".npy" for x in exp), "files of set", sorted(os.listdir(s)), sorted(exp))


IDX = st.integers(0, 99)
OP = st.one_of(st.tuples(st.just("slice"), st.integers(-7, 7), st.integers(-7, 7), st.sampled_from([1, 1, 2, -1, 3])),
               st.tuples(st.just("indices"), st.lists(IDX, min_size=1, max_size=8)), st.tuples(st.just("int"), st.integers(-9, 9)),
               st.tuples(st.just("to"), st.integers(1, 5)), st.tuples(st.just("repr")))


@sub("history", st.fixed_dictionaries(dict(mv=mvt.movement(1, 7, 4, opts=OPTS, big=(25, 25), rich=True), ops=st.lists(OP, min_size=1, max_size=6))), quick=300, thorough=5000)
def history(case):
    """a sequence of selections and exports against a plain list of frames"""
    from matersdk.data.struct_collection import StructCollection
    F = case["mv"]["frames"]
    sc = load(case["mv"])
    same(sc, F, "loaded")
    root = [(sc, F)]
    d = fresh_dir() + "/out"
    for op in case["ops"]:
        n = len(F)
        if op[0] == "slice":
            s = slice(op[1], op[2], op[3])
            if not F[s]:
                continue
            sc, F = sc[s], F[s]
        elif op[0] == "indices":
            ix = [i % n - n * (i % 3 == 2) for i in op[1]]         # some counted from the end
            sc, F = StructCollection.from_indices(sc, ix), [F[i] for i in ix]
            if len(set(ix)) < len(ix):
                label("repeated index")
        elif op[0] == "int":
            k = op[1]
            if not -n <= k < n:
                try:
                    sc[k]
                except IndexError:
                    continue
                need(False, "index out of range accepted", k, n)
            sc, F = sc[k], [F[k]]
            label("integer index")
        elif op[0] == "to":
            sc.to(d, op[1])                   # overwrites the previous export
            check_export(d, F, op[1])
            label("exported")
            if n % op[1]:
                label("incomplete last set")
        else:
            str(sc)
        same(sc, F, op[0])
        root.append((sc, F))
    for a, b in root:
        same(a, b, "earlier collection")
    try:
        StructCollection.from_indices(sc, [len(F)])
    except IndexError:
        pass
    else:
        need(False, "index beyond the end accepted")
    if len(case["mv"]["frames"]) < 2:
        vp.trivial("single frame")


ALL = st.fixed_dictionaries(dict(force=st.just(True), virial=st.just(True), eatom=st.just(True), mag=st.just(False), vel=st.booleans(), mdinfo=st.booleans()))


@sub("zero_frames", st.fixed_dictionaries(dict(mv=mvt.movement(2, 6, 3, opts=ALL, big=(12, 3)), zero=st.lists(st.integers(0, 7), min_size=12, max_size=12), size=st.integers(1, 3))), quick=150, thorough=2000)
def zero_frames(case):
    """quantities which vanish in some frames only: every set of the export still has every quantity"""
    F = case["mv"]["frames"]
    for f, m in zip(F, case["zero"]):
        for bit, k in ((1, "virial"), (2, "eatom"), (4, "force")):
            if m & bit:
                f[k] = [[0] * len(r) for r in f[k]]
    sc = load(case["mv"])
    same(sc, F, "loaded")
    d = fresh_dir() + "/out"
    sc.to(d, case["size"])
    check_export(d, F, case["size"])
    for bit, k in ((1, "virial"), (2, "eatom")):
        z = [not np.any(f[k]) for f in F]
        if any(z) and not all(z):
            label("%s zero in some frames" % k)


@sub("save_all", st.fixed_dictionaries(dict(mv=mvt.movement(1, 11, 3, opts=OPTS, big=(14, 6)), pre=st.booleans())), quick=90, thorough=300)
def save_all(case):
    from matersdk.io.publicLayer.neigh import StructureNeighborsDescriptor
    from matersdk.io.publicLayer.structure import DStructure
    F = case["mv"]["frames"]; sc = load(case["mv"])
    d = fresh_dir() + "/img"
    if case["pre"]:
        os.makedirs(os.path.join(d, "0" * len(str(len(F))))); open(os.path.join(d, "0" * len(str(len(F))), "old"), "w").write("x")
    w = len(str(len(F)))
    if case["pre"] and len(F) < 7:
        # what an earlier export of a collection with every quantity leaves behind in each folder
        for i in range(len(F)):
            p = os.path.join(d, "%0*d" % (w, i)); os.makedirs(p, exist_ok=True)
            for x in ("virial", "atomic_energy", "atomic_force", "box", "coord", "energy", "atomic_number", "nbrs_atomic_numbers", "nbrs_distances", "nbrs_coords"):
                np.save(os.path.join(p, x + ".npy"), np.full((3, 3), 77.0))
        label("written over an earlier export")
    with cpus(len(F) + case["pre"]):
        sc.save_all_info(d, *([] if len(F) % 2 else [[3, 3, 3]]))
    need(sorted(os.listdir(d)) == sorted("%0*d" % (w, i) for i in range(len(F))), "folders", sorted(os.listdir(d)))
    for i, f in enumerate(F):
        p = os.path.join(d, "%0*d" % (w, i)); L = lambda x: np.load(os.path.join(p, x + ".npy"))
        lat = lat_array(f["lat"])
        need(not os.path.exists(os.path.join(p, "old")), "old file kept")
        need(vp.allclose(L("box"), lat, atol=1e-9) and vp.allclose(L("coord"), frac_array(f) @ lat, atol=1e-9), "box or coordinates of image", i)
        need(vp.allclose(L("energy"), [f["etot"] / 1e4, f["ep"] / 1e4, f["ek"] / 1e4], rtol=1e-9, atol=1e-9), "energies of image", i)
        need(vp.allclose(L("atomic_force"), np.array(f["force"]) / 1e6, atol=1e-9), "forces of image", i)
        if "eatom" in f:
            need(vp.allclose(L("atomic_energy"), np.array(f["eatom"])[:, 0] / 1e6, atol=1e-9), "atomic energies of image", i)
        if "virial" in f:
            need(vp.allclose(L("virial"), np.array(f["virial"]) / 1e6, rtol=1e-10, atol=1e-9), "virial of image", i)
        elif os.path.exists(os.path.join(p, "virial.npy")):
            need(not np.any(L("virial")), "virial of an image without one", i, L("virial"))
        if "eatom" not in f and os.path.exists(os.path.join(p, "atomic_energy.npy")):
            need(not np.any(L("atomic_energy")), "atomic energies of an image without them", i)
        need(list(L("atomic_number")) == list(dict.fromkeys(f["Z"])), "species of image", i)
        s = DStructure.from_file(os.path.join(p, "atom.config"), "pwmat")
        need([x.Z for x in s.species] == f["Z"] and vp.allclose(s.lattice.matrix, lat, atol=1e-9) and vp.allclose(s.frac_coords, frac_array(f), atol=1e-9), "atom.config of image", i)
        nb = StructureNeighborsDescriptor.create("v1", structure=sc.structures_lst[i], scaling_matrix=[3, 3, 3])
        need(np.array_equal(L("nbrs_atomic_numbers"), nb.key_nbr_atomic_numbers) and np.array_equal(L("nbrs_distances"), nb.key_nbr_distances)
             and np.array_equal(L("nbrs_coords"), nb.key_nbr_coords), "neighbour tables of image", i)
    if len(F) < 2:
        vp.trivial("single frame")
    if len(F) >= 10:
        label("two-digit folders")


@sub("max_neighbours", st.fixed_dictionaries(dict(mv=mvt.movement(1, 3, 4, big=(24, 4)), rc=st.integers(1500, 6000))), quick=150, thorough=1500)
def max_neighbours(case):
    F = case["mv"]["frames"]
    rc = case["rc"] / 1000.0; T = []
    for f in F:
        c, s, sh, v, d, r = c06.setup(dict(c=dict(lat=f["lat"], Z=f["Z"], frac=f["frac"]), s=[3, 3, 3], rc=case["rc"]))
        if len(c["Z"]) != len(f["Z"]):
            vp.trivial("overlapping atoms"); return
        rc = min(rc, r); T.append(d)
    for _ in range(20):
        if any((np.abs(d - rc) < 2e-5).any() for d in T):
            rc -= 7e-5
    if rc < 0.5 or any((np.abs(d - rc) < 2e-5).any() for d in T):
        vp.trivial("cutoff not covered"); return
    sc = load(case["mv"])
    N = [((d < rc) & (d > 1e-6)).sum(2) for d in T]        # [i, j] images of j around i
    with cpus(case["rc"]):
        got = sc.get_max_num_nbrs_real(rcut=rc)
    need(got == max(int(x.sum(1).max()) for x in N), "largest number of neighbours", got)
    Z = np.array(F[0]["Z"]); kinds = sorted(set(F[0]["Z"]))
    with cpus(case["rc"] // 4):
        got = sc.get_max_num_nbrs_real_element(rcut=rc, nbr_elements=[Z2S[z] for z in kinds], scaling_matrix=[3, 3, 3])
    want = {Z2S[z]: max(int(x[:, Z == z].sum(1).max()) for x in N) for z in kinds}
    need({k: int(v) for k, v in got.items()} == want, "largest number per species", got, want)
    if not max(want.values()):
        vp.trivial("no neighbours")


@sub("max_neighbours_peak", st.fixed_dictionaries(dict(mv=st.one_of(mvt.movement(2, 8, 1), mvt.movement(20, 20, 1, big=(40, 1), every=1)), rc=st.integers(3000, 5000), a=st.integers(2600, 3200), b=st.integers(4600, 6000), p=st.integers(0, 2 ** 31))), quick=40, thorough=400)
def max_neighbours_peak(case):
    """one frame, anywhere, is denser than the others"""
    F = case["mv"]["frames"]
    for k, f in enumerate(F):
        x = case["a"] if k == case["p"] % len(F) else case["b"] + k
        F[k] = dict(f, lat=[[x, 0, 0], [0, x, 0], [0, 0, x]])
    max_neighbours(case)


@sub("rewritten", again.rewritten(st.fixed_dictionaries(dict(mv=mvt.movement(1, 4, 3, opts=OPTS), ops=st.lists(OP, min_size=1, max_size=3)))), quick=40, thorough=600)
def rewritten(cases):
    again.rerun(cases, history)
