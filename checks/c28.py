"""C28: level bookkeeping of the moment tensor potential against an independent enumeration (sanitized build)."""
import json, re
import numpy as np
from hypothesis import strategies as st
import vp, native, mtpmodel as mm
from vp import sub, need, label, trivial
from gens import i3

QX = 3
RULE = "a case is non-trivial when at least one combination of pairs (mu, nu) is examined; distinct by the hash of its canonical JSON"
ASSUMPTIONS = ["levels from 0 to 20 (24 in the thorough run); the number of combinations grows exponentially with the level"]
P = None


def prepare():
    global P
    P = native.Proc(mm.build())


def unflat(v, w=3):
    return [tuple(v[k:k + w]) for k in range(0, len(v), w)]


def combs(v):
    """flat (mu nu level) lists -> list of lists of pairs; checks the levels of the pairs"""
    out = []
    for f in v:
        t = unflat(f)
        for m, n, l in t:
            need(l == mm.level((m, n)), "level of a pair", m, n, l)
        out.append([(m, n) for m, n, l in t])
    return out


def canon(c):
    return tuple(sorted(c))


@sub("pairs", lambda: st.lists(st.tuples(i3(0, 400), i3(0, 400)).map(list), min_size=1, max_size=20), quick=150, thorough=4000)
def c_pairs(c):
    r, z = P.call("level", c)  if False else P.call("level", len(c), *[x for p in c for x in p])
    for (m, n), g in zip(c, r):
        need(g == [2 + 4 * m + n] * 6 + [m, n], "level and copies of a pair", (m, n), g)
    need(z == 0, "level of the empty pair", z)


TOP = {"quick": 17, "thorough": 24}


def check_build(g, L):
    need(g[0] == L, "max_level", g[0], L)
    v = combs(g[1])
    want = [c for l in range(L + 1) for c in mm.multisets(l) if mm.contracts(c)]
    got = [canon(c) for c in v]
    need(len(set(got)) == len(got), "a basis function is listed twice", [c for c in got if got.count(c) > 1][:2])
    need(set(got) == set(want), "basis functions", dict(missing=sorted(set(want) - set(got))[:3], extra=sorted(set(got) - set(want))[:3]))
    lv = [sum(map(mm.level, c)) for c in v]
    need(lv == sorted(lv), "the basis is not ordered by level", lv)
    for c in v:
        nus = [n for _, n in c]
        need(nus == sorted(nus, reverse=True), "tensors of a basis function are not ordered by descending rank", c)
    need(g[2] == len(v), "size", g[2], len(v))
    mus = {m for c in v for m, _ in c}
    need(g[4] == len(mus), "number of radial functions in use", g[4], len(mus))
    if L >= 2:
        need(g[3] == (L - 2) // 4 + 1, "number of radial functions", g[3])
        need(mus == set(range(g[3])), "radial functions in use", sorted(mus), g[3])
    need(g[5] == g[1], "indexing disagrees with the list")
    txt = g[6]
    blocks = re.findall(r"Comb#\s*(\d+):\n\t(.*)\n", txt)
    need([int(b[0]) for b in blocks] == list(range(len(v))), "printed numbering")
    need([[tuple(map(int, p)) for p in re.findall(r"\[\s*(\d+),\s*(\d+)\]", b[1])] for b in blocks] == v, "printed combinations")
    need(re.search(r"Max_Level =\s*%d\s*$" % L, txt), "printed level", txt[-40:])


@sub("basis", lambda: i3(0, TOP[vp.os.environ.get("VP_TIER", "quick")]), quick=60, thorough=60)
def c_basis(L):
    if L < 2:
        trivial("empty basis")
    check_build(P.call("combs", L)[0], L)
    label("level %d" % L)


@sub("top", lambda: st.sampled_from([18, 19, 20]), quick=1, thorough=8)
def c_top(L):
    check_build(P.call("combs", L)[0], L)
    label("level %d" % L)


@sub("schemes", lambda: i3(0, 22), quick=60, thorough=80)
def c_schemes(L):
    v = combs(P.call("schemes", L)[0])
    got = [canon(c) for c in v]
    need(set(got) == set(mm.multisets(L)), "combinations of a level", L, dict(missing=sorted(set(mm.multisets(L)) - set(got))[:3], extra=sorted(set(got) - set(mm.multisets(L)))[:3]))
    for c in v:
        nus = [n for _, n in c]
        need(nus == sorted(nus, reverse=True), "tensors are not ordered by descending rank", c)
    if L % 2 == 1 and L < 3:
        trivial("no combination")
    label("level %d" % L)


pair = st.tuples(i3(0, 6), i3(0, 8)).map(list)
comblist = st.lists(st.lists(pair, max_size=6), max_size=12)


def desc(c):
    return sorted((tuple(p) for p in c), key=lambda p: -p[1])


@sub("contract", lambda: comblist, quick=300, thorough=10000)
def c_contract(c):
    c = [desc(x) for x in c]
    if not any(c):
        trivial("no combination")
    v = [canon(x) for x in combs(P.call("contracted", len(c), *[[k for p in x for k in p] for x in c])[0])]
    want = []
    for x in c:
        x = canon(x)
        if mm.contracts(x) and x not in want:
            want.append(x)
    need(v == want, "contractible combinations", v, want)
    label("some" if want else "none")


@sub("history", lambda: st.lists(st.tuples(i3(0, 8), i3(0, 12), i3(0, 9)), min_size=1, max_size=12), quick=150, thorough=4000)
def c_hist(ops):
    toks, model, snaps = ["hist_combs"], [], []
    for op, a, b in ops:
        toks.append("9"); snaps.append(list(model))
        if op == 0:
            toks.append("0"); model.append(0); continue
        if op == 1:
            toks.append("1 %d" % a); model.append(a); continue
        toks.append("%d %d %d 0" % (op, a, b))
        n = len(model)
        if not n:
            continue
        a %= n; b %= n
        if op == 2:
            model.append(model[a])
        elif op == 3:
            model[a] = model[b]; label("assign" if a != b else "self-assign")
        elif op == 4:
            del model[a]
        elif op == 5:
            model[a], model[b] = model[b], model[a]
        elif op == 7 and a != b:
            model[a] = model[b]; model[b] = 0
    if not any(model):
        trivial("only empty objects")
    s, txt = P.raw(" ".join(toks))
    need(s == "ok", "native code %s" % s, txt)
    r = json.loads(txt)
    need(isinstance(r, list), "native code threw", r)
    snaps.append(model)
    r = [x for x in r if x[:1] != [-1]]
    need(len(r) == len(snaps), "snapshots", len(r), len(snaps))
    for got, ms in zip(r, snaps):
        need(len(got) == len(ms), "objects", len(got), len(ms))
        for g, L in zip(got, ms):
            check_build(g, L)


# ---------------------------------------------------------------- level.h
@sub("combinations", lambda: st.tuples(comblist, st.booleans()), quick=300, thorough=8000)
def c_legacy(c):
    v, tiny = [[tuple(p) for p in x] for x in c[0]], c[1]
    if not any(v):
        trivial("no combination")
    r = P.call("legacy", tiny, len(v), *[[k for p in x for k in p] for x in v])
    got = [unflat(x, 2) for x in r[0]]

    def dedup(v):
        seen, o = set(), []
        for x in v:
            if canon(x) not in seen:
                seen.add(canon(x)); o.append(x)
        return o

    def con(v):
        return [x for x in v if mm.pairwise([n for _, n in x])]
    if not tiny:
        need(got == v, "combinations are not those given", got, v)
    else:
        same(got, con(dedup(v)), "combinations without duplicates that contract pairwise")
    need(r[1] == len(got), "number of combinations", r[1])
    lines = [l for l in r[2].split("\n") if l.startswith("[mju, nju]")]
    need([[tuple(map(int, p)) for p in re.findall(r"\[\s*(\d+),\s*(\d+)\]", l)] for l in lines] == got, "printed combinations")
    need([int(re.search(r"level =\s*(\d+)", l).group(1)) for l in lines] == [sum(map(mm.level, x)) for x in got], "printed levels")
    same([unflat(x, 2) for x in r[3]], dedup(got), "remove_duplicates")
    need([unflat(x, 2) for x in r[4]] == con(got), "remove_cannot_contract")
    lv = [sum(map(mm.level, x)) for x in got]
    need(sorted(r[5]) == list(range(len(got))) and [lv[k] for k in r[5]] == sorted(lv), "order by level", r[5], lv)
    same([unflat(x, 2) for x in r[6]], con(dedup([got[k] for k in r[5]])), "arranged combinations")


def same(got, want, what):
    """the same combinations in the same order, whichever representative (order of the pairs) is kept"""
    need([canon(x) for x in got] == [canon(x) for x in want], what, got, want)


@sub("enumeration", lambda: st.tuples(i3(0, 11), i3(0, 5)), quick=70, thorough=72)
def c_enum(c):
    L, m = c
    r = P.call("legacy_level", L, m)
    need(r[0] == (L + 1) // 2, "largest number of moments", r[0], L)
    if L < 2:
        trivial("no combination")
    got = [tuple(unflat(x, 2)) for x in r[1]]
    from itertools import permutations

    def ordered(sets):
        return {p for s in sets for p in permutations(s)}
    want = ordered(s for l in range(1, L + 1) for s in mm.multisets(l))
    need(len(set(got)) == len(got) and set(got) == want, "ordered combinations up to a level", L, dict(missing=sorted(want - set(got))[:3], extra=sorted(set(got) - want)[:3]))
    one = [tuple(unflat(x, 2)) for x in r[2]]
    w1 = {w for w in want if len(w) == m} if m else {()}
    need(len(set(one)) == len(one) and set(one) == w1, "ordered combinations with a number of moments", L, m)
    t = [canon(unflat(x, 2)) for x in r[3]]
    wt = {s for l in range(1, L + 1) for s in mm.multisets(l) if mm.pairwise([n for _, n in s])}
    need(len(set(t)) == len(t) and set(t) == wt, "combinations that contract pairwise", L)
