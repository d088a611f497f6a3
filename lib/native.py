"""Building and driving native code of /repo from generated cases.

Everything is compiled from /repo's current sources into a scratch directory in the check's prepare() (i.e. on every run).
build(): a sanitized executable speaking the line protocol of cpp/vp_harness.h.  Proc: one such process, restarted after a crash;
a crash (sanitizer report, failed assertion, signal) or a hang while serving a generated case is a violation.
"""
import os, subprocess, hashlib, json, tempfile, select, signal, shutil, sysconfig
import vp

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
BASE = ["-std=c++17", "-g1", "-O1", "-w", "-fopenmp", "-ftrivial-auto-var-init=pattern"]


def _run(cmd, cwd=None, what=""):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise vp.HarnessError("building %s failed:\n%s\n%s" % (what, " ".join(cmd), r.stdout[-3000:]))
    return r.stdout


def _cached(key, build):
    """Development only (VP_BUILD_CACHE=<dir>): reuse products keyed by the content of every input."""
    c = os.environ.get("VP_BUILD_CACHE")
    if not c:
        return build()
    p = os.path.join(c, key)
    if not os.path.exists(p):
        os.makedirs(c, exist_ok=True)
        q = build()
        shutil.copy(q, p + ".tmp%d" % os.getpid())
        os.rename(p + ".tmp%d" % os.getpid(), p)
    return p


def _hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(repr(p).encode())
    for root in (os.path.join(vp.REPO, "source"), os.path.join(vp.VERIF, "cpp")):
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("build", "gen", "ext", "tests", "test"))
            for f in sorted(fs):
                if f.endswith((".h", ".cc", ".cpp", ".i", ".py")):
                    h.update(f.encode())
                    h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()[:24]


def build(src, extra_sources=(), sanitize=True, flags=(), includes=()):
    """Compile /verif/cpp/<src> (+ /repo sources) to an executable; returns its path."""
    name = os.path.splitext(src)[0]
    inc = ["-I" + os.path.join(vp.VERIF, "cpp"), "-I" + os.path.join(vp.REPO, "source")] + ["-I" + os.path.join(vp.REPO, i) for i in includes]
    srcs = [os.path.join(vp.VERIF, "cpp", src)] + [os.path.join(vp.REPO, s) for s in extra_sources]
    # the default product names are unique per call
    fl = BASE + (SAN if sanitize else []) + list(flags)

    def go():
        d = vp.scratch()
        out = os.path.join(d, name + ".exe")
        _run(["g++"] + fl + inc + srcs + ["-o", out], what=src)
        return out
    return _cached(name + "-" + _hash(src, fl, extra_sources) + ".exe", go)


class Proc:
    """A harness process (one per worker process)."""

    def __init__(self, exe, timeout=120, env=None):
        self.exe, self.timeout, self.p, self.pid = ([exe] if isinstance(exe, str) else list(exe)), timeout, None, None
        self.env = env or {}

    def start(self):
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:detect_stack_use_after_return=1:"
                               "max_malloc_fill_size=1000000000:malloc_fill_byte=251:alloc_dealloc_mismatch=1:hard_rss_limit_mb=6000")
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=77"
        env["OMP_NUM_THREADS"] = "2"
        env.update(self.env)
        self.errpath = vp.fresh_path(".stderr")
        self.err = open(self.errpath, "w+b")
        self.p = subprocess.Popen(self.exe, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env, start_new_session=False)
        self.pid = os.getpid()

    def stop(self):
        if self.p is not None and self.pid == os.getpid():
            try:
                self.p.kill()
            except Exception:
                pass
            self.p.wait()
            for f in (self.p.stdin, self.p.stdout, self.err):
                try:
                    f.close()
                except Exception:
                    pass
        self.p = None

    @staticmethod
    def flat(args, acc):
        for a in args:
            if isinstance(a, bool):
                acc.append("1" if a else "0")
            elif isinstance(a, (int,)):
                acc.append(str(a))
            elif isinstance(a, float):
                acc.append(float.__repr__(a))
            elif isinstance(a, str):
                acc.append(a)
            elif hasattr(a, "tolist") and getattr(a, "ndim", 1) == 0:
                Proc.flat([a.item()], acc)
            elif hasattr(a, "ravel"):
                v = a.ravel().tolist()
                acc.append(str(len(v)))
                Proc.flat(v, acc)
            else:
                acc.append(str(len(a)))
                Proc.flat(list(a), acc)
        return acc

    def raw(self, line):
        if self.p is None or self.pid != os.getpid() or self.p.poll() is not None:
            self.p = None
            self.start()
        data = (line + "\n").encode()
        try:
            self.p.stdin.write(data)
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        buf = b""
        import time
        end = time.time() + self.timeout
        fd = self.p.stdout.fileno()
        while not buf.endswith(b"\n"):
            r, _, _ = select.select([fd], [], [], max(0.0, end - time.time()))
            if not r:
                self.stop()
                return "hang", "no answer within %d s" % self.timeout
            c = os.read(fd, 1 << 20)
            if not c:
                rc = self.p.wait()
                self.err.flush()
                e = open(self.errpath, "rb").read().decode("utf8", "replace")
                self.stop()
                return "crash", "exit status %s; %s" % (rc, self.digest(e))
            buf += c
        return "ok", buf.decode()

    @staticmethod
    def digest(e):
        keep = [l.strip() for l in e.splitlines() if any(k in l for k in ("ERROR:", "runtime error", "Assertion", "what()", "SUMMARY", " is located ", "READ of", "WRITE of", "#0", "#1 ", "#2 ", "#3 "))]
        return " | ".join(keep[:12])[:1500] or e[-500:]

    def call(self, cmd, *args):
        """Reply (a list) or a Violation on crash/hang/exception."""
        line = " ".join([cmd] + self.flat(args, []))
        st, txt = self.raw(line)
        if st != "ok":
            raise vp.Violation("native code %s in %s: %s" % ("crashed" if st == "crash" else "hung", cmd, txt))
        v = json.loads(txt)
        if isinstance(v, dict):
            if v["err"].startswith("VPH"):
                raise vp.HarnessError(v["err"] + " " + line[:200])
            raise vp.Violation("native code threw in %s: %s" % (cmd, v["err"]))
        return v

    def attempt(self, cmd, *args):
        """('ok', list) / ('throw', msg) / ('crash', digest) / ('hang', msg)."""
        line = " ".join([cmd] + self.flat(args, []))
        st, txt = self.raw(line)
        if st != "ok":
            return st, txt
        v = json.loads(txt)
        if isinstance(v, dict):
            return "throw", v["err"]
        return "ok", v


def libasan():
    return subprocess.check_output(["g++", "-print-file-name=libasan.so"], text=True).strip()


def build_nblist_module():
    """swig + g++ of the nblist binding from /repo's sources, sanitized; returns the directory holding nblist.py and _nblist*.so"""
    import numpy
    bind = os.path.join(vp.REPO, "source", "nblist", "bind")
    d = os.path.join(vp.scratch(), "nbmod")
    os.makedirs(d, exist_ok=True)
    so = os.path.join(d, "_nblist" + sysconfig.get_config_var("EXT_SUFFIX"))
    wrap = os.path.join(d, "nblist_wrap.cxx")
    _run(["swig", "-c++", "-python", "-o", wrap, "-outdir", d, os.path.join(bind, "nblist.i")], what="nblist.i")

    def go():
        out = so + ".b"
        _run(["g++"] + [f for f in BASE if f != "-fopenmp"] + SAN + ["-shared", "-fPIC", "-I" + sysconfig.get_paths()["include"], "-I" + numpy.get_include(), "-I" + bind,
              "-I" + os.path.join(vp.REPO, "source", "nblist", "include"), os.path.join(bind, "nblist_bind.cc"), wrap, "-o", out], what="nblist binding")
        return out
    shutil.copy(_cached("nbmod-" + _hash("nbmod") + ".so", go), so)
    return d


def build_torch(src, sources):
    """sanitized shared library from /verif/cpp/<src> and /repo sources (compiled separately, in parallel), to be loaded into a torch child"""
    py = "/opt/venv/bin/python"
    T, abi = subprocess.check_output([py, "-c", "import torch; print(torch.__path__[0]); print(int(torch._C._GLIBCXX_USE_CXX11_ABI))"], text=True).split()[-2:]
    fl = ["-std=c++20", "-g1", "-O1", "-w", "-fopenmp", "-ftrivial-auto-var-init=pattern", "-fPIC", "-D_GLIBCXX_USE_CXX11_ABI=" + abi] + SAN
    inc = ["-I" + os.path.join(vp.VERIF, "cpp"), "-I" + os.path.join(vp.REPO, "source"), "-isystem", T + "/include", "-isystem", T + "/include/torch/csrc/api/include", "-I" + sysconfig.get_paths()["include"]]
    srcs = ([os.path.join(vp.VERIF, "cpp", src)] if src else []) + [os.path.join(vp.REPO, s) for s in sources]
    src = src or os.path.basename(sources[-1])

    def go():
        d = vp.scratch()
        objs, ps = [], []
        for k, s in enumerate(srcs):
            o = os.path.join(d, "%s.%d.o" % (os.path.basename(src), k))
            objs.append(o)
            ps.append((s, subprocess.Popen(["g++"] + fl + inc + ["-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for s, p in ps:
            out, _ = p.communicate()
            if p.returncode:
                raise vp.HarnessError("building %s failed:\n%s" % (s, out[-3000:]))
        so = os.path.join(d, os.path.splitext(src)[0] + ".so")
        _run(["g++", "-shared"] + SAN + ["-fopenmp"] + objs + ["-L" + T + "/lib", "-ltorch", "-ltorch_cpu", "-lc10", "-Wl,-rpath," + T + "/lib", "-o", so], what=so)
        return so
    return _cached(os.path.splitext(src)[0] + "-" + _hash(src, sources) + ".so", go)


class Torch(Proc):
    """A python child with torch and a library from build_torch(); requests and replies are JSON lines."""

    def __init__(self, so, timeout=180, child="torch_child.py"):
        py = "/opt/venv/bin/python"
        Proc.__init__(self, [py, os.path.join(vp.VERIF, "cpp", child), so], timeout=timeout, env={"LD_PRELOAD": libasan() + " " + subprocess.check_output(["g++", "-print-file-name=libstdc++.so.6"], text=True).strip(), "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1"})

    def start(self):
        Proc.start(self)

    def ask(self, **req):
        """('ok', reply) / ('throw', text) ; crash or hang is a violation"""
        st, txt = self.raw(json.dumps(req))
        if st != "ok":
            raise vp.Violation("native code %s: %s" % ("crashed" if st == "crash" else "hung", txt))
        v = json.loads(txt)
        return ("throw", v["err"]) if "err" in v else ("ok", v["ok"])

    def get(self, **req):
        s, v = self.ask(**req)
        if s != "ok":
            raise vp.Violation("operator raised: %s" % v)
        return v
