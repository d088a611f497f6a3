"""C35: native objects and calls give back the memory they take.

The generators (and operation histories) of the other native checks are run again; after every request that was answered without an
exception the harness reports how many heap bytes (address sanitizer's count) the request left allocated.
"""
import importlib, json, threading
import vp, native

QX = 1
RULE = "a case is non-trivial when at least one request was measured; distinct by the hash of its canonical JSON"
ASSUMPTIONS = ["calls that end in an exception are not measured",
               "what a first call allocates once (stdio buffers, thread pools, caches) may stay: a request counts as leaking when repeating it leaves memory behind every time"]
BUDGET = {"quick": 420, "thorough": 3000}
LINE = ["c23", "c24", "c27", "c28", "c29", "c31", "c32"]       # line protocol: one measurement per request
LOOP = ["c25", "c30", "c26"]                                   # interpreters: the request is repeated and the growth per call measured
MODS, SUBS = {}, []


class Leak(vp.Violation):
    pass


BAD = ("double-free", "bad-free", "alloc-dealloc-mismatch", "attempting free")


class Measured:
    """mixin of native.Proc: measures every answered request"""
    measured = 0

    def raw(self, line):
        s, txt = super().raw(line)
        if s == "crash" and any(b in txt for b in BAD):
            raise Leak("memory was given back twice or by the wrong way: %s; request %s" % (txt, line[:300]))
        if s == "ok" and not txt.startswith("{\"err\""):
            n = self.left(line)
            Measured.measured += 1
            if n:
                raise Leak("a call left %s bytes of heap behind: %s" % (n, line[:600]))
        return s, txt


class LineProc(Measured, native.Proc):
    def left(self, line):
        ask = lambda l: native.Proc.raw(self, l)
        n = json.loads(ask("leak")[1])[0]
        for _ in range(2):
            if n <= 0:
                return 0
            if ask(line)[0] != "ok":
                return 0
            n = json.loads(ask("leak")[1])[0]
        return max(n, 0)


class LoopProc(Measured, native.Proc):
    def left(self, line):
        s, t = native.Proc.raw(self, '"leak"')
        return json.loads(t) if s == "ok" and not t.startswith("{") else 0


class LoopTorch(LoopProc, native.Torch):
    pass


def prepare():
    memo, lock = {}, threading.Lock()
    b0 = native.build

    def build(src, **k):
        with lock:
            l = memo.setdefault(src, [threading.Lock(), None])
        with l[0]:
            if l[1] is None:
                l[1] = b0(src, **k)
        return l[1]
    native.build = build
    vp.scratch()
    err = []

    def one(m):
        try:
            m.prepare()
        except BaseException as e:
            err.append(e)
    ts = [threading.Thread(target=one, args=(m,)) for m in MODS.values()]
    [t.start() for t in ts]
    [t.join() for t in ts]
    native.build = b0
    if err:
        raise err[0]
    for n, m in MODS.items():
        for a in ("P", "N_"):
            p = getattr(m, a, None)
            if isinstance(p, native.Proc):
                p.__class__ = LoopTorch if isinstance(p, native.Torch) else LoopProc if n in LOOP else LineProc
    if getattr(MODS["c26"], "N_", None) is not None:
        MODS["c26"].N_.__class__ = LineProc


def wrap(fn):
    def body(case):
        Measured.measured = 0
        try:
            fn(case)
        except Leak:
            raise
        except vp.HarnessError:
            raise
        except Exception as e:
            if type(e).__module__.startswith("hypothesis"):
                raise
            # a wrong value is another check's business
        if not Measured.measured:
            vp.trivial("nothing measured")
    return body


for _n in LINE + LOOP:
    vp.SUBS.clear()
    MODS[_n] = importlib.import_module(_n)
    for _s in vp.SUBS:
        _q, _t = (_s["quick"], _s["thorough"]) if _n in LINE else (max(20, _s["quick"] // 8), max(40, _s["thorough"] // 20))
        SUBS.append(dict(_s, name=_n[1:] + "." + _s["name"], fn=wrap(_s["fn"]), quick=_q, thorough=_t))
vp.SUBS[:] = SUBS
