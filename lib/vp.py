"""Property-based testing runner used by every check in /verif/checks.

A check module declares sub-checks with @sub(...).  Every sub-check is a
generator (a hypothesis strategy producing a JSON-able *case*) plus a function
that builds the real inputs from the case, drives the code in /repo, and raises
on any disagreement with its oracle.  Hypothesis searches and shrinks; the
minimal failing case is stored as a replay file which this runner can re-execute
without hypothesis (run.sh Cxx --replay FILE).
"""
import numpy as np
import os, sys, json, time, zlib, signal, hashlib, traceback, tempfile, shutil, importlib, contextlib, io

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
HYPO = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if HYPO not in sys.path:
    sys.path.append(HYPO)          # at the END: numpy & co. keep coming from the project's venv
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.path.insert(0, os.path.join(VERIF, "checks"))
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

FAST = bool(os.environ.get("VP_FAST"))      # development: stop at the first failure, no shrinking
EVID = os.environ.get("VP_EVID", os.path.join(VERIF, "evidence"))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


CASE_LIMIT = 150.0      # seconds; cases take well under one, so this only meets code that never returns


class Violation(Exception):
    pass


def _too_long(*a):
    raise Violation("no result within %d s" % CASE_LIMIT)


class HarnessError(Exception):
    """The check itself could not be run (compiler missing, ...)."""


class _Stop(BaseException):
    pass


def allclose(a, b, rtol=1e-9, atol=1e-12):
    """numpy's, with bounds of double precision unless stated"""
    return np.allclose(a, b, rtol=rtol, atol=atol)


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg if not args else (msg + ": " + "; ".join(map(str, args))))


SUBS = []
FINDINGS = []       # (id, text, function) : demonstrations of recorded known findings
_ctx = {}


def sub(name, strategy, quick=200, thorough=4000, group=None, shrink_s=40, shards=None):
    """shards: number of processes (with different seeds) the examples are split over; default by the number of sub-checks"""
    def deco(fn):
        SUBS.append(dict(name=name, strategy=strategy, quick=quick, thorough=thorough,
                         fn=fn, shrink_s=shrink_s, shards=shards))
        return fn
    return deco


def label(tag, nontrivial=None):
    """Called from a case body: classify the case."""
    c = _ctx.get("cur")
    if c is not None:
        c["labels"].add(tag)


def trivial(reason="trivial"):
    """Called from a case body: the case does not count as non-trivial."""
    c = _ctx.get("cur")
    if c is not None:
        c["trivial"] = True
        c["labels"].add("trivial:" + reason)


def scratch():
    """A scratch directory private to this process, removed at exit of the run."""
    d = _ctx.get("scratch")
    if d is None or not os.path.isdir(d) or _ctx.get("scratch_pid") != os.getpid():
        d = tempfile.mkdtemp(prefix="vp_")
        _ctx["scratch"] = d
        _ctx["scratch_pid"] = os.getpid()
    return d


_counter = [0]


def fresh_path(suffix=""):
    _counter[0] += 1
    return os.path.join(scratch(), "f%06d%s" % (_counter[0], suffix))


def recycle():
    """empty the scratch directory and hand out the same names again"""
    d = scratch()
    for x in os.listdir(d):
        x = os.path.join(d, x)
        shutil.rmtree(x) if os.path.isdir(x) and not os.path.islink(x) else os.remove(x)
    _counter[0] = 0


def fresh_dir():
    p = fresh_path(".d")
    os.makedirs(p)
    return p


@contextlib.contextmanager
def quiet():
    """Silence python-level prints / warnings of the code under test."""
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            yield


def _canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"), default=str)


def run_sub(s, tier, deadline, outfile, shard=0, nshards=1):
    """Run one sub-check (or one shard of it) in this (forked) process; write a JSON result."""
    import hypothesis
    from hypothesis import given, settings, seed, HealthCheck, Phase
    n = -(-s[tier] // nshards)
    st = s["strategy"]() if callable(s["strategy"]) else s["strategy"]
    R = dict(name=s["name"], evaluations=0, skipped=0, nontrivial=0, labels={}, samples=[],
             failure=None, requested=n)
    seen = set()
    best = {}
    t_fail = [None]

    def body(case):
        now = time.time()
        if t_fail[0] is None and now > deadline:
            R["skipped"] += 1
            return
        if t_fail[0] is not None and now - t_fail[0] > s["shrink_s"]:
            raise _Stop()
        cur = dict(labels=set(), trivial=False)
        _ctx["cur"] = cur
        try:
            signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT)
            try:
                with quiet():
                    s["fn"](case)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except HarnessError:
            raise
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, _Stop)):
                raise
            if type(e).__module__.startswith("hypothesis"):
                raise
            if t_fail[0] is None:
                t_fail[0] = time.time()
            best["case"] = case
            best["error"] = "%s: %s" % (type(e).__name__, str(e)[:2000])
            best["tb"] = traceback.format_exc()[-3000:]
            raise
        if t_fail[0] is None:
            R["evaluations"] += 1
            for l in cur["labels"]:
                R["labels"][l] = R["labels"].get(l, 0) + 1
            c = _canon(case)
            h = hashlib.sha1(c.encode()).digest()[:10]
            if not cur["trivial"] and h not in seen:
                seen.add(h)
                R["nontrivial"] += 1
                if len(R["samples"]) < 3 and len(c) < 3000 and R["nontrivial"] in (1, 5, 25, 26, 27):
                    R["samples"].append(case)

    signal.signal(signal.SIGALRM, _too_long)
    f = given(st)(body)
    f = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                 report_multiple_bugs=False, print_blob=False,
                 suppress_health_check=list(HealthCheck),
                 phases=(Phase.generate, Phase.target) + (() if FAST else (Phase.shrink,)))(f)
    f = seed((SEED * 1000003 + zlib.crc32(s["name"].encode()) + 7919 * shard) & 0xffffffff)(f)
    try:
        with quiet():
            f()
    except HarnessError as e:
        R["harness_error"] = str(e)
    except BaseException as e:
        if not best:
            R["harness_error"] = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:])
    if best:
        R["failure"] = best
    R["hashes"] = [h.hex() for h in seen]
    tmp = outfile + ".tmp"
    with open(tmp, "w") as fo:
        json.dump(R, fo, default=str)
    os.replace(tmp, outfile)


def _kill(pid, group_only=False):
    for f in (os.killpg,) if group_only else (os.killpg, os.kill):
        try:
            f(pid, 9)
        except OSError:
            pass


def _replay_dir(prop):
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    return d


def run_check(prop, tier):
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    os.environ["VP_TIER"] = tier
    root = tempfile.mkdtemp(prefix="vprun_")
    old_tmp = tempfile.tempdir
    tempfile.tempdir = root
    rc = 2
    try:
        mod = importlib.import_module(prop.lower())
        prep = getattr(mod, "prepare", None)
        if prep:
            prep()
        budget = getattr(mod, "BUDGET", {"quick": 240, "thorough": 3000})[tier]
        rc = _run(prop, tier, mod, budget, t0, root)
    except HarnessError as e:
        print("HARNESS-ERROR property=%s %s" % (prop, e))
        rc = getattr(e, "rc", 2)
    finally:
        tempfile.tempdir = old_tmp
        shutil.rmtree(root, ignore_errors=True)
    return rc


def _run(prop, tier, mod, budget, t0, root):
    deadline = time.time() + budget
    known = []
    for fid, text, fn in FINDINGS:
        # a recorded finding: show that it is still there (it never fails the check)
        try:
            with quiet():
                present = fn()
        except Exception as e:
            present = True
        known.append((fid, text, bool(present)))
        if present:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
    only = os.environ.get("VP_ONLY")
    allsubs = [s for s in SUBS if not only or s["name"] in only.split(",")]
    jobs = int(os.environ.get("VP_JOBS", "8"))
    maxsh = getattr(mod, "SHARDS", 8)
    if tier == "quick":
        for s in allsubs:
            s["quick"] = int(s["quick"] * getattr(mod, "QX", 4))
    subs, shard = [], []
    for k in range(maxsh):                       # shard 0 of every sub-check first
        for s in allsubs:
            n = s["shards"] or max(1, min(maxsh, -(-8 // len(allsubs))))
            n = max(1, min(n, s[tier] // 20))
            if k < n:
                subs.append(s); shard.append((k, n))
    pending = list(enumerate(subs))
    running = {}
    results = [None] * len(subs)
    failed = set()
    hard = budget + 150
    while pending or running:
        while pending and len(running) < jobs:
            i, s = pending.pop(0)
            if s["name"] in failed:
                continue
            out = os.path.join(root, "res%d.json" % i)
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.setpgid(0, 0)
                    _ctx.clear()
                    d = os.path.join(root, "w%d" % i)
                    os.makedirs(d, exist_ok=True)
                    tempfile.tempdir = d
                    os.chdir(d)
                    # C-level output of the code under test must not mix with ours
                    fd = os.open(os.path.join(root, "out%d.txt" % i), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                    os.dup2(fd, 1); os.dup2(fd, 2)
                    with open(os.path.join(root, "cur%d.json" % i), "w") as f:
                        f.write("")
                    _ctx["curfile"] = os.path.join(root, "cur%d.json" % i)
                    run_sub(s, tier, deadline, out, *shard[i])
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    os._exit(code)
            running[pid] = (i, s, out, time.time())
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            time.sleep(0.02)
            for p, (i, s, out, ts) in list(running.items()):
                if time.time() - t0 > hard:
                    _kill(p)
            continue
        if pid not in running:
            continue
        i, s, out, ts = running.pop(pid)
        _kill(pid, True)           # helper processes of that worker
        if os.path.exists(out):
            results[i] = json.load(open(out))
            if results[i].get("failure"):
                failed.add(s["name"])
                for p, x in running.items():
                    if x[1] is s:
                        _kill(p)                 # the other shards of this sub-check
            if FAST and results[i].get("failure"):
                pending.clear()
                for p in running:
                    _kill(p)
        else:
            msg = ""
            try:
                msg = open(os.path.join(root, "out%d.txt" % i), errors="replace").read()[-3000:]
            except OSError:
                pass
            case = None
            try:
                case = json.loads(open(os.path.join(root, "cur%d.json" % i)).read())
            except Exception:
                pass
            sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
            if FAST and any(r and r.get("failure") for r in results) or s["name"] in failed:
                results[i] = dict(name=s["name"], evaluations=0, skipped=0, nontrivial=0, labels={}, samples=[], failure=None)
            elif sig and sig != 9 and case is not None:
                results[i] = dict(name=s["name"], evaluations=0, skipped=0, nontrivial=0, labels={}, samples=[],
                                  failure=dict(case=case, error="process died with signal %d" % sig, tb=msg))
                failed.add(s["name"])
            else:
                results[i] = dict(name=s["name"], evaluations=0, skipped=0, nontrivial=0, labels={}, samples=[],
                                  failure=None, harness_error="worker ended with status %d\n%s" % (status, msg))
    viol = 0
    herr = []
    merged = {}
    for s, r in zip(subs, results):
        if not r:
            continue
        m = merged.get(s["name"])
        if m is None:
            merged[s["name"]] = (s, r)
            continue
        a, b = m[1], r
        a["evaluations"] += b["evaluations"]; a["skipped"] += b["skipped"]
        a["hashes"] = a.get("hashes", []) + b.get("hashes", [])
        for l, k in b["labels"].items():
            a["labels"][l] = a["labels"].get(l, 0) + k
        a["samples"] += b["samples"]
        for k in ("failure", "harness_error"):
            if not a.get(k) and b.get(k):
                a[k] = b[k]
    for s, r in merged.values():
        r["nontrivial"] = len(set(r.get("hashes", [])))
    subs, results = [m[0] for m in merged.values()], [m[1] for m in merged.values()]
    for s, r in zip(subs, results):
        if r.get("harness_error"):
            herr.append("%s: %s" % (s["name"], r["harness_error"]))
        if r.get("failure"):
            viol += 1
            p = os.path.join(_replay_dir(prop), "%s-%s.json" % (prop, s["name"]))
            with open(p, "w") as f:
                json.dump(dict(property=prop, sub=s["name"], case=r["failure"]["case"],
                               error=r["failure"]["error"], tb=r["failure"].get("tb", "")), f, indent=1, default=str)
            print("  [%s] %s" % (s["name"], r["failure"]["error"][:600]))
            print("VIOLATION property=%s replay=%s" % (prop, p))
    ev = dict(property=prop, tier=tier, seed=SEED, level="exploration",
              coverage=dict(evaluations=sum(r["evaluations"] for r in results),
                            distinct_nontrivial=sum(r["nontrivial"] for r in results),
                            rule=getattr(mod, "RULE", "a case counts as non-trivial when the code under test ran to the end on it and the "
                                         "oracle compared a non-empty result; distinct by the hash of its canonical JSON"),
                            samples=[dict(sub=r["name"], case=c) for r in results for c in r["samples"][:2]][:12],
                            per_sub={r["name"]: dict(evaluations=r["evaluations"], nontrivial=r["nontrivial"],
                                                     skipped_after_budget=r["skipped"], labels=r["labels"]) for r in results}),
              assumptions=getattr(mod, "ASSUMPTIONS", []),
              wall_s=round(time.time() - t0, 2), violations=viol)
    if known:
        ev["coverage"]["known_findings"] = [dict(id=k[0], text=k[1], present=k[2]) for k in known]
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    tot = ev["coverage"]
    print("%s %s: %d evaluations, %d distinct non-trivial, %d violations, %.1f s" %
          (prop, tier, tot["evaluations"], tot["distinct_nontrivial"], viol, time.time() - t0))
    if os.environ.get("VP_VERBOSE"):
        for r in results:
            print("   ", r["name"], r["evaluations"], r["nontrivial"], "skipped", r["skipped"], r["labels"])
    if viol:
        return 1
    if herr:
        for h in herr:
            print("HARNESS-ERROR", h)
        return 2
    return 0


def checkpoint(case):
    """Record the case being run (for code that may take the whole process down)."""
    f = _ctx.get("curfile")
    if f:
        with open(f, "w") as fo:
            fo.write(json.dumps(case, default=str))


def replay(path):
    d = json.load(open(path))
    prop = d["property"]
    mod = importlib.import_module(prop.lower())
    prep = getattr(mod, "prepare", None)
    if prep:
        prep()
    for s in SUBS:
        if s["name"] == d["sub"]:
            try:
                with quiet():
                    s["fn"](d["case"])
            except Exception as e:
                traceback.print_exc()
                print("VIOLATION property=%s replay=%s" % (prop, path))
                return 1
            finally:
                if "scratch" in _ctx:
                    shutil.rmtree(_ctx["scratch"], ignore_errors=True)
            print("replay passes")
            return 0
    print("unknown sub", d["sub"])
    return 2


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    sys.exit(run_check(a.prop, a.tier))
