"""C17 generated input files: gen.vext, DOS.input, slurm scripts."""
import os
import numpy as np
import vp
from vp import sub, need, label, fresh_path
from hypothesis import strategies as st

RULE = "every case writes a file and parses it back; all count"
ASSUMPTIONS = ["job settings are given (not None); the shell command comes from a subclass's attach_command, as the base class intends",
               "the smearing energy is written with five decimals"]
num = st.one_of(st.floats(-1e3, 1e3, allow_nan=False), st.integers(-100, 100), st.sampled_from([0.5, 1e-7, -1e-12, 0.0]))


@sub("vext", st.fixed_dictionaries(dict(c=st.lists(num, min_size=3, max_size=3), t=st.sampled_from([1, 2, 3]), add=st.booleans(), a=st.lists(num, min_size=6, max_size=6),
                                        twice=st.booleans(), kind=st.integers(0, 2))), quick=400, thorough=6000)
def vext(case):
    from matersdk.io.pwmat.input.gen_vext import GenVext
    n = {1: 3, 2: 6, 3: 2}[case["t"]]
    p = fresh_path("gen.vext")
    if case["twice"]:
        open(p, "w").write("OLD = 1\n" * 20)
    GenVext(case["c"], case["t"], (bool, np.bool_, int)[case["kind"]](case["add"]), *case["a"][:n]).to(p)
    L = open(p).read().splitlines()
    kv = [tuple(x.strip() for x in l.split("=", 1)) for l in L if l.strip()]
    need(len(kv) == 4 and len(dict(kv)) == 4, "directives", L)
    kv = dict(kv)
    need(set(kv) == {"VR_CENTER", "VR_TYPE", "VR_DETAIL", "ADD_VR"}, "keys", sorted(kv))
    need([float(x) for x in kv["VR_CENTER"].split()] == [float(x) for x in case["c"]], "centre", kv)
    need(kv["VR_TYPE"] == str(case["t"]), "type", kv)
    need([float(x) for x in kv["VR_DETAIL"].split()] == [float(x) for x in case["a"][:n]], "parameters", kv)
    need(kv["ADD_VR"] == ("T" if case["add"] else "F"), "ADD_VR", kv)
    label("type %d" % case["t"])


@sub("vext_bad", st.integers(-5, 20).filter(lambda x: x not in (1, 2, 3)), quick=30, thorough=200)
def vext_bad(t):
    from matersdk.io.pwmat.input.gen_vext import GenVext
    try:
        GenVext([0.5] * 3, t, True, 1.0, 2.0, 3.0)
    except Exception:
        return
    need(False, "unknown field type accepted", t)


@sub("dosinput", st.fixed_dictionaries(dict(a=st.sampled_from([0, 1]), m=st.sampled_from([0, 1]), s=st.integers(0, 1000000), n=st.integers(1, 10 ** 7),
                                            g=st.lists(st.integers(1, 60), min_size=3, max_size=3), default=st.booleans())), quick=400, thorough=6000)
def dosinput(case):
    from matersdk.io.pwmat.input.dos_input import DosInput
    p = fresh_path("DOS.input")
    if case["default"]:
        o = DosInput(mark_atoms=case["a"], mark_method=case["m"])
        s, n, g = 0.04, 4000, [6, 6, 6]
        label("defaults")
    else:
        s, n, g = case["s"] / 1e5, case["n"], case["g"]
        o = DosInput(case["a"], case["m"], s, n, g)
    o.to(p)
    L = [l.split("#")[0].split() for l in open(p).read().splitlines()]
    need(len(L) == 5, "number of lines", L)
    need(L[0] == [str(case["a"])], "atoms flag", L)
    need(L[1] == [str(case["m"])], "method flag", L)
    need(len(L[2]) == 2 and abs(float(L[2][0]) - s) < 5e-6 and int(L[2][1]) == n, "smearing and grid size", L)
    need([int(x) for x in L[3]] == list(g), "interpolation grid", L)
    need(L[4] == ["0"], "TDDFT flag", L)


word = st.text("abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-", min_size=1, max_size=12)


@sub("job", st.fixed_dictionaries(dict(part=word, name=word, n=st.tuples(*[st.integers(1, 10 ** 4)] * 3, *[st.one_of(st.integers(0, 2), st.integers(1, 10 ** 4))] * 2).map(list),
                                       cmd=st.sampled_from(["mpirun -np 4 PWmat", "srun python x.py\nwait", "echo done"]), sub=st.booleans(), absolute=st.booleans())), quick=300, thorough=4000)
def job(case):
    from matersdk.hpc.slurm.job import Job
    cls = Job
    if case["sub"]:
        class cls(Job):
            def attach_command(self):
                return case["cmd"]
    n = case["n"]
    o = cls(partition=case["part"], name=case["name"], num_nodes=n[0], num_tasks_per_node=n[1], threads_per_core=n[2], num_gpus=n[3], num_gpus_per_task=n[4])
    p = fresh_path("job.sh")
    if case["absolute"]:
        o.to(p)
    else:
        old = os.getcwd(); os.chdir(os.path.dirname(p))
        try:
            o.to(os.path.basename(p))
        finally:
            os.chdir(old)
    t = open(p).read(); L = t.splitlines()
    need(L[0] == "#!/bin/bash", "first line", L[:1])
    sb = [l for l in L if "#SBATCH" in l]
    need(all(l.count("#SBATCH") == 1 and l.startswith("#SBATCH --") for l in sb), "one directive per line", sb)
    kv = dict(l[len("#SBATCH --"):].split("=", 1) for l in sb)
    need(kv == {"partition": case["part"], "job-name": case["name"], "nodes": str(n[0]), "ntasks-per-node": str(n[1]), "threads-per-core": str(n[2]),
                "gres": "gpu:%d" % n[3], "gpus-per-task": str(n[4])}, "directives", kv)
    last = max(i for i, l in enumerate(L) if "#SBATCH" in l)
    if case["sub"]:
        need("\n".join(L[last + 1:]).strip() == case["cmd"], "command", L[last + 1:])
        label("command")
