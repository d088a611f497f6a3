#!/usr/bin/env python3
"""Development aid: mechanical mutants of C++ sources, run against the native checks.
usage: cmutate.py OUT.json JOBS PERFILE FILE:C23,C24 [FILE:C27 ...]     (works on clones of /repo; prints the survivors)"""
import json, os, random, re, shutil, subprocess, sys, tempfile, threading, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, jobs, per, specs = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
rnd = random.Random(int(os.environ.get("MUT_SEED", "1")))
SUBS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r"\+= ", "= "), (r"-= ", "+= "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "),
        (r"<(?=[a-z])", "<="), (r"(?<=[\[ (=])0(?=[\]; ),])", "1"), (r"(?<=[\[ (=])1(?=[\]; ),])", "0"), (r"(?<=[\[ (=])1(?=[\]; ),])", "2"), (r"(?<=[\[ (=])2(?=[\]; ),])", "1"), (r"(?<=[\[ (=])3(?=[\]; ),])", "2"),
        (r"&&", "||"), (r"\|\|", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\[ii\]", "[jj]"), (r"\[jj\]", "[ii]"), (r"\[jj\]", "[kk]"), (r"\brhs\.", "this->"), (r"-1\b", "0"), (r"std::floor", "std::ceil"), (r"std::ceil", "std::floor")]


def mutants(src):
    R = []
    pos = 0
    incomment = False
    for ln, l in enumerate(src.split("\n"), 1):
        s = l.strip()
        if "/*" in s:
            incomment = True
        skip = incomment or s.startswith(("//", "#", "*", "template", "printf", "assert", "using", "@")) or not s
        if "*/" in s:
            incomment = False
        if not skip:
            code = l.split("//")[0]
            for a, b in SUBS:
                for m in re.finditer(a, code):
                    R.append((pos + m.start(), pos + m.end(), b, ln, l.strip()))
            if re.match(r"\s+(this->|[a-z_\[\]>.()-]+\s*(=|\+=)|[a-z_]+\[.*\]\s*=|free\(|std::memcpy|continue;|break;|[a-z_>.-]+\(.*\);$)", code) and code.rstrip().endswith(";"):
                R.append((pos + len(code) - len(code.lstrip()), pos + len(code.rstrip()), ";", ln, l.strip()))
            m = re.match(r"(\s*(?:\} else )?if )\((.*)\)( \{)?\s*$", code)
            if m:
                R.append((pos + m.start(2), pos + m.end(2), "false", ln, l.strip()))
                R.append((pos + m.start(2), pos + m.end(2), "true", ln, l.strip()))
        pos += len(l) + 1
    return R


work = []
for sp in specs:
    f, cs = sp.split(":")
    src = open("/repo/" + f).read()
    R = mutants(src)
    for m in (R if per <= 0 or per >= len(R) else rnd.sample(R, per)):
        work.append((f, cs.split(","), src[:m[0]] + m[2] + src[m[1]:], m))
print(len(work), "mutants", flush=True)
if os.environ.get("MUT_COUNT"):
    sys.exit()
root = tempfile.mkdtemp(prefix="cmutw")
pool = []
for k in range(jobs):
    d = "%s/%d" % (root, k)
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    pool.append(d)
lock = threading.Lock()
n = dict(done=0, nobuild=0, killed=0)
surv = []


def run(w):
    f, cs, s, m = w
    with lock:
        d = pool.pop()
    p = d + "/" + f
    orig = open(p).read()
    res = None
    try:
        open(p, "w").write(s)
        for c in cs:
            e = dict(os.environ, VP_REPO=d, VP_FAST="1", VP_EVID=d + "/ev", VP_JOBS="3")
            e.pop("VP_BUILD_CACHE", None)
            try:
                r = subprocess.run(["bash", V + "/run.sh", c, "quick"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=700)
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    res = "killed"; break
                if r.returncode != 0:
                    res = "nobuild" if re.search(r"error:|build failed|compil", r.stdout) else "HARNESS " + r.stdout[-300:]
                    break
            except subprocess.TimeoutExpired:
                res = "TIMEOUT"
    finally:
        open(p, "w").write(orig)
        with lock:
            pool.append(d)
    with lock:
        n["done"] += 1
        if res in ("killed", "nobuild"):
            n[res] += 1
        else:
            surv.append(dict(file=f, line=m[3], old=m[4], new=m[2], res=res))
            print("SURVIVED %s:%d [%s] @%r -> %r %s" % (f, m[3], m[4][:110], m[4] and open("/repo/" + f).read()[m[0]:m[1]][:40], m[2], (res or "")[:200]), flush=True)
            json.dump(surv, open(out, "w"), indent=1)
        if n["done"] % 20 == 0:
            print("...", n, flush=True)


with cf.ThreadPoolExecutor(jobs) as ex:
    list(ex.map(run, work))
shutil.rmtree(root, ignore_errors=True)
print("done", n, "survived", len(surv))
