#!/usr/bin/env python3
"""Development aid: verify seeded bugs.  plant.py [--nocheck] [--build] ID...
For each: demo passes on /repo, patch applies, stable tests pass, demo fails, and the property's quick check reports it."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
opts = [a for a in sys.argv[1:] if a.startswith("--")]
stable = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, cwd="/repo", timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def tests():
    sh("bash /opt/vp/test.sh /tmp/plant_tests.json")
    return json.load(open("/tmp/plant_tests.json"))


assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo not clean"
for i in args or sorted(os.listdir(V + "/seeded")):
    d = V + "/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    native = "source/" in open(d + "/patch.diff").read() and "--build" in opts
    t0 = time.time()
    r = []
    a = sh("bash %s/demo.sh" % d)
    r.append("demo-clean=%d" % a.returncode)
    if a.returncode:
        print(a.stdout[-1500:])
    try:
        b = sh("git apply %s/patch.diff" % d)
        if b.returncode:
            print(i, "patch does not apply", b.stdout); continue
        if native:
            r.append("build=%d" % sh("bash /opt/vp/build.sh").returncode)
        t = tests()
        names = stable.get("stable", stable.get("tests", stable)) if isinstance(stable, dict) else stable
        passed = set(t.get("passed", []))
        miss = [n for n in names if n not in passed] if not isinstance(names, dict) else []
        r.append("tests=%d/missing%d" % (len(passed), len(miss)))
        a = sh("bash %s/demo.sh" % d)
        r.append("demo-bug=%d" % a.returncode)
        if "--nocheck" not in opts:
            t1 = time.time()
            c = sh("bash run.sh %s quick" % meta["property"], cwd=V)
            ok = c.returncode == 1 and ("VIOLATION property=%s" % meta["property"]) in c.stdout
            r.append("check=%s(rc %d, %.0fs)" % ("CAUGHT" if ok else "MISSED", c.returncode, time.time() - t1))
    finally:
        sh("git -C /repo checkout -- .")
        if native:
            sh("bash /opt/vp/build.sh")
    print(i, meta["property"], *r, flush=True)
