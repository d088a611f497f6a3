#!/usr/bin/env python3
"""Development aid: mechanical mutants of python sources, run against the property checks.
usage: mutate.py OUT.json JOBS FILE:C01,C02 [FILE:C03 ...]     (works on copies of /repo/matersdk; prints the survivors)"""
import ast, random, json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf, threading
V = os.environ.get("MUT_V") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, jobs, specs = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "*", ast.Pow: "*"}


def mutants(src):
    t = ast.parse(src)
    lines = src.encode().split(b"\n")
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l) + 1)
    B = src.encode()
    seg = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    txt = lambda n: B[slice(*seg(n))].decode()
    R = []

    def add(n, new, what):
        a, b = seg(n)
        R.append((a, b, new, n.lineno, what))

    def walk(n):
        if isinstance(n, (ast.FunctionDef,)) and n.name in ("__repr__", "__str__"):
            return
        if isinstance(n, ast.FunctionDef):
            for d in n.body:
                walk(d)
            for d in n.args.defaults:
                walk(d)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise, ast.Assert)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") == "print":
            return
        if isinstance(n, ast.AnnAssign) and n.value:
            walk(n.value); return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(n, "%s %s %s" % (txt(n.left), CMP[type(n.ops[0])], txt(n.comparators[0])), "cmp")
            if isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                add(n, "%s %s %s" % (txt(n.left), {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}[CMP[type(n.ops[0])]] if False else ">" if isinstance(n.ops[0], (ast.Lt, ast.LtE)) else "<", txt(n.comparators[0])), "cmp-neg")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) or isinstance(n, ast.BinOp) and type(n.op) in BIN and isinstance(n.left, ast.Constant) and not isinstance(n.left.value, str):
            add(n, "(%s) %s (%s)" % (txt(n.left), BIN[type(n.op)], txt(n.right)), "binop")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, op.join("(%s)" % txt(v) for v in n.values), "bool")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(n, "(%s)" % txt(n.operand), "unary")
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                add(n, str(not n.value), "flip")
            elif isinstance(n.value, int):
                add(n, "(%d)" % (n.value + 1), "const+1")
                if n.value:
                    add(n, "(%d)" % (n.value - 1), "const-1")
            elif isinstance(n.value, float):
                add(n, repr(n.value * 1.5 + (0.1 if n.value == 0 else 0)), "float")
            return
        elif isinstance(n, ast.AugAssign):
            add(n, "pass", "del")
        elif isinstance(n, ast.Expr):
            add(n, "pass", "del")
        elif isinstance(n, ast.If):
            add(n.test, "True", "if-true"); add(n.test, "False", "if-false")
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            a, b = n.args[:2]
            R.append((seg(a)[0], seg(b)[1], "%s, %s" % (txt(b), txt(a)), n.lineno, "swap"))
        elif isinstance(n, (ast.Break, ast.Continue)):
            add(n, "pass", "del")
        elif isinstance(n, ast.JoinedStr):
            return
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.arguments) or isinstance(n, ast.Assign) and False:
                continue
            walk(c)
    walk(t)
    for a, b, new, ln, what in R:
        s = (B[:a] + new.encode() + B[b:]).decode()
        try:
            ast.parse(s)
        except SyntaxError:
            continue
        yield s, ln, what, B[a:b].decode(), new


work = []
for sp in specs:
    f, cs = sp.split(":")
    src = open("/repo/" + f).read()
    ms = list(mutants(src))
    if os.environ.get("MUT_MAX") and len(ms) > int(os.environ["MUT_MAX"]):
        ms = random.Random(int(os.environ.get("MUT_SEED", "1"))).sample(ms, int(os.environ["MUT_MAX"]))
    work += [(f, cs.split(","), m) for m in ms]
print(len(work), "mutants", flush=True)
if os.environ.get("MUT_COUNT"):
    sys.exit()
root = tempfile.mkdtemp(prefix="mutw")
pool = []
for k in range(jobs):
    d = "%s/%d" % (root, k)
    os.makedirs(d)
    shutil.copytree("/repo/matersdk", d + "/matersdk", ignore=shutil.ignore_patterns("__pycache__"))
    pool.append(d)
lock = threading.Lock()
done = [0]
surv = []


def run(w):
    f, cs, (s, ln, what, old, new) = w
    with lock:
        d = pool.pop()
    p = d + "/" + f
    orig = open(p).read()
    res = None
    try:
        open(p, "w").write(s)
        for c in cs:
            e = dict(os.environ, VP_REPO=d, VP_FAST="1", VP_EVID=d + "/ev", VP_JOBS="2")
            try:
                r = subprocess.run(["bash", V + "/run.sh", c, "quick"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=500)
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    res = c; break
                if r.returncode != 0:
                    res = "HARNESS " + r.stdout[-300:]; 
            except subprocess.TimeoutExpired:
                res = "TIMEOUT"
    finally:
        open(p, "w").write(orig)
        with lock:
            pool.append(d)
    with lock:
        done[0] += 1
        if res is None or res.startswith(("HARNESS", "TIMEOUT")):
            surv.append(dict(file=f, line=ln, what=what, old=old, new=new, res=res))
            print("SURVIVED %s:%d %s  [%s] -> [%s] %s" % (f, ln, what, old[:90].replace("\n", " "), new[:90].replace("\n", " "), (res or "")[:200]), flush=True)
            json.dump(surv, open(out, "w"), indent=1)
        if done[0] % 50 == 0:
            print("...", done[0], flush=True)


with cf.ThreadPoolExecutor(jobs) as ex:
    list(ex.map(run, work))
shutil.rmtree(root, ignore_errors=True)
print("done", len(work), "survived", len(surv))
