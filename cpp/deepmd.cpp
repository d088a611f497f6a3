#include "nblist.cpp"
#include <cassert>
#include "descriptor/deepmd/include/se.h"
#include "descriptor/deepmd/include/se4pw.h"
#include "descriptor/deepmd/include/envMatrix.h"
using namespace matersdk::deepPotSE;
template <class C> static void p3(vph::Out& out, C*** v, int n, int m) { out.open(); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) for (int k = 0; k < 4; k++) out.put((double)v[i][j][k]); out.close(); }
template <class C> static void p4(vph::Out& out, C**** v, int n, int m) { out.open(); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) for (int k = 0; k < 4; k++) for (int l = 0; l < 3; l++) out.put((double)v[i][j][k][l]); out.close(); }
template <class C> static void f3(C*** v, int n, int m) { for (int i = 0; i < n; i++) { for (int j = 0; j < m; j++) free(v[i][j]); free(v[i]); } free(v); }
template <class C> static void f4(C**** v, int n, int m) { for (int i = 0; i < n; i++) { for (int j = 0; j < m; j++) { for (int k = 0; k < 4; k++) free(v[i][j][k]); free(v[i][j]); } free(v[i]); } free(v); }
template <class C> static void sw(vph::In& in, vph::Out& out) { C rc = in.d(), rs = in.d(); std::vector<double> r = in.dv(); SwitchFunc<C> f(rc, rs); const SwitchFunc<C> g(f);
    for (double x : r) { out.open(); out.put(g.get_result((C)x)); out.put(g.get_deriv2r((C)x)); out.put(smooth_func<C>((C)x, rc, rs)); out.put(recip<C>((C)x)); out.close(); } out.put(vph::captured([&] { f.show(); })); }
CMD(switch_d) { sw<double>(in, out); }
CMD(switch_f) { sw<float>(in, out); }
namespace matersdk { namespace deepPotSE {   // found by argument-dependent lookup in history()
static void dump(vph::Out& out, const PairTildeR<T>& p, bool full = true) {
    int n = p.get_num_center_atoms(), m = p.get_num_neigh_atoms();
    out.open(); out.put(n); out.put(m); 
    T*** v = p.generate(); p3(out, v, n, m); f3(v, n, m);
    T**** d = p.deriv(); p4(out, d, n, m); f4(d, n, m);
    out.put(n ? p.get_max_num_neigh_atoms() : 0);
    out.put(vph::captured([&] { p.show(); })); 
    if (full) { out.put(vph::captured([&] { p.show_in_value(); })); out.put(vph::captured([&] { p.show_in_deriv(); })); }
    out.close();
}
static void dump(vph::Out& out, const TildeR<T>& p, bool full = true) {
    int n = p.get_num_center_atoms(), m = p.get_num_neigh_atoms();
    out.open(); out.put(n); out.put(m);
    T*** v = p.generate(); p3(out, v, n, m); f3(v, n, m);
    T**** d = p.deriv(); p4(out, d, n, m); f4(d, n, m);
    out.put(vph::captured([&] { p.show(); }));
    if (full) { out.put(vph::captured([&] { p.show_in_value(); })); out.put(vph::captured([&] { p.show_in_deriv(); })); }
    out.close();
}
} }
// spec, nl args, from-structure?, centre, neigh, limit (-1: own maximum), rs
static PairTildeR<T>* mkpair(vph::In& in) {
    Spec s = rspec(in); NL a = rnl(in); int fs = in.i(), c = in.i(), z = in.i(), lim = in.i(); T rs = in.d();
    std::unique_ptr<Structure<T>> st(mk<T>(s));
    if (fs) { std::unique_ptr<bool[]> p(new bool[3]); for (int k = 0; k < 3; k++) p[k] = a.pbc[k];
        return lim < 0 ? new PairTildeR<T>(*st, (T)a.rcut, p.get(), (bool)a.sort, c, z, rs) : new PairTildeR<T>(*st, (T)a.rcut, p.get(), (bool)a.sort, c, z, lim, rs); }
    std::unique_ptr<NeighborList<T>> l(mknl(*st, a));
    return lim < 0 ? new PairTildeR<T>(*l, c, z, rs) : new PairTildeR<T>(*l, c, z, lim, rs);
}
struct Ints { int* p; Ints(const std::vector<int>& v) { p = (int*)malloc(sizeof(int) * v.size()); for (size_t k = 0; k < v.size(); k++) p[k] = v[k]; } ~Ints() { free(p); } };
static TildeR<T>* mktilde(vph::In& in) {
    Spec s = rspec(in); NL a = rnl(in); int fs = in.i(); Ints *c, *z, *l; std::vector<int> cv = in.iv(), zv = in.iv(), lv = in.iv(); T rs = in.d();
    std::unique_ptr<Structure<T>> st(mk<T>(s));
    Ints C(cv), Z(zv), L(lv);
    if (fs) { std::unique_ptr<bool[]> p(new bool[3]); for (int k = 0; k < 3; k++) p[k] = a.pbc[k];
        return lv.empty() ? new TildeR<T>(*st, (T)a.rcut, p.get(), (bool)a.sort, (int)cv.size(), C.p, (int)zv.size(), Z.p, rs)
                          : new TildeR<T>(*st, (T)a.rcut, p.get(), (bool)a.sort, (int)cv.size(), C.p, (int)zv.size(), Z.p, L.p, rs); }
    std::unique_ptr<NeighborList<T>> nl(mknl(*st, a));
    return lv.empty() ? new TildeR<T>(*nl, (int)cv.size(), C.p, (int)zv.size(), Z.p, rs) : new TildeR<T>(*nl, (int)cv.size(), C.p, (int)zv.size(), Z.p, L.p, rs);
}
CMD(pair) { std::unique_ptr<PairTildeR<T>> p(mkpair(in)); dump(out, *p); }
CMD(tilde) { std::unique_ptr<TildeR<T>> p(mktilde(in)); dump(out, *p); }
CMD(hist_pair) { history<PairTildeR<T>>(in, out, [](vph::In& i) { return mkpair(i); }); }
CMD(hist_tilde) { history<TildeR<T>>(in, out, [](vph::In& i) { return mktilde(i); }); }
// explicit lists (lammps form): ilist, numneigh, flat firstneigh (ragged), x, types
template <class C> struct Lst { std::vector<int> il, nn, fl, ty; std::vector<double> x; int **fn; C** xx; int *ilp, *nnp, *typ; int n, N;
    Lst(vph::In& in) { il = in.iv(); nn = in.iv(); fl = in.iv(); x = in.dv(); ty = in.iv(); n = il.size(); N = ty.size();
        fn = (int**)malloc(sizeof(int*) * n); int o = 0; for (int k = 0; k < n; k++) { fn[k] = (int*)malloc(sizeof(int) * nn[k]); for (int l = 0; l < nn[k]; l++) fn[k][l] = fl[o++]; }
        xx = (C**)malloc(sizeof(C*) * N); for (int k = 0; k < N; k++) { xx[k] = (C*)malloc(sizeof(C) * 3); for (int l = 0; l < 3; l++) xx[k][l] = x[3 * k + l]; }
        ilp = (int*)malloc(4 * n); nnp = (int*)malloc(4 * n); typ = (int*)malloc(4 * N); for (int k = 0; k < n; k++) { ilp[k] = il[k]; nnp[k] = nn[k]; } for (int k = 0; k < N; k++) typ[k] = ty[k]; }
    ~Lst() { for (int k = 0; k < n; k++) free(fn[k]); for (int k = 0; k < N; k++) free(xx[k]); free(fn); free(xx); free(ilp); free(nnp); free(typ); } };
template <class C> static void lmp_pair(vph::In& in, vph::Out& out) {
    Lst<C> l(in); int c = in.i(), z = in.i(), m = in.i(); C rc = in.d(), rs = in.d(); int n = 0; for (int k : l.il) n += l.ty[k] == c;
    C*** v = PairTildeR<C>::generate(l.n, l.ilp, l.nnp, l.fn, l.xx, l.typ, c, z, m, rc, rs); p3(out, v, n, m); f3(v, n, m);
    C**** d = PairTildeR<C>::deriv(l.n, l.ilp, l.nnp, l.fn, l.xx, l.typ, c, z, m, rc, rs); p4(out, d, n, m); f4(d, n, m); }
CMD(lmp_pair_d) { lmp_pair<double>(in, out); }
CMD(lmp_pair_f) { lmp_pair<float>(in, out); }
template <class C> static void lmp_tilde(vph::In& in, vph::Out& out) {
    Lst<C> l(in); std::vector<int> c = in.iv(), z = in.iv(), m = in.iv(); C rc = in.d(), rs = in.d(); int n = 0, mm = 0; for (int k : l.il) for (int q : c) n += l.ty[k] == q; for (int q : m) mm += q;
    Ints CC(c), ZZ(z), MM(m);
    C*** v = TildeR<C>::generate(l.n, l.ilp, l.nnp, l.fn, l.xx, l.typ, (int)c.size(), CC.p, (int)z.size(), ZZ.p, MM.p, rc, rs); p3(out, v, n, mm); 
    for (int i = 0; i < n; i++) for (int j = 0; j < mm; j++) for (int k = 0; k < 4; k++) v[i][j][k] = -77;
    TildeR<C>::generate(v, l.n, l.ilp, l.nnp, l.fn, l.xx, l.typ, (int)c.size(), CC.p, (int)z.size(), ZZ.p, MM.p, rc, rs); p3(out, v, n, mm); f3(v, n, mm);
    C**** d = TildeR<C>::deriv(l.n, l.ilp, l.nnp, l.fn, l.xx, l.typ, (int)c.size(), CC.p, (int)z.size(), ZZ.p, MM.p, rc, rs); p4(out, d, n, mm);
    for (int i = 0; i < n; i++) for (int j = 0; j < mm; j++) for (int k = 0; k < 4; k++) for (int q = 0; q < 3; q++) d[i][j][k][q] = -77;
    TildeR<C>::deriv(d, l.n, l.ilp, l.nnp, l.fn, l.xx, l.typ, (int)c.size(), CC.p, (int)z.size(), ZZ.p, MM.p, rc, rs); p4(out, d, n, mm); f4(d, n, mm); }
CMD(lmp_tilde_d) { lmp_tilde<double>(in, out); }
CMD(lmp_tilde_f) { lmp_tilde<float>(in, out); }
// flat tables: ilist numneigh firstneigh(inum x tot) x|relcoords types limits rc rs
template <class C> struct Buf { C* p; Buf(size_t n) { p = (C*)malloc(sizeof(C) * n); for (size_t k = 0; k < n; k++) p[k] = (C)-77; } Buf(const std::vector<double>& v) { p = (C*)malloc(sizeof(C) * v.size()); for (size_t k = 0; k < v.size(); k++) p[k] = v[k]; } ~Buf() { free(p); } };
template <class C> static void se4pw(vph::In& in, vph::Out& out) {
    std::vector<int> il = in.iv(), nn = in.iv(), fn = in.iv(); std::vector<double> x = in.dv(); std::vector<int> ty = in.iv(), lim = in.iv(); C rc = in.d(), rs = in.d();
    int n = il.size(), tot = 0; for (int q : lim) tot += q; Ints IL(il), NN(nn), FN(fn), TY(ty), LM(lim); Buf<C> X(x), v((size_t)n * tot * 4), d((size_t)n * tot * 12), r((size_t)n * tot * 3);
    Se4pw<C>::generate(v.p, d.p, r.p, n, IL.p, NN.p, FN.p, X.p, TY.p, (int)lim.size(), LM.p, rc, rs);
    out.arr(v.p, n * tot * 4); out.arr(d.p, n * tot * 12); out.arr(r.p, n * tot * 3);
    int* pi = (int*)malloc(sizeof(int) * n * tot); Se4pw<C>::get_prim_indices_from_matersdk(pi, n, IL.p, NN.p, FN.p, TY.p, (int)lim.size(), LM.p); out.arr(pi, n * tot); free(pi); }
CMD(se4pw_d) { se4pw<double>(in, out); }
CMD(se4pw_f) { se4pw<float>(in, out); }
template <class C> static void env(vph::In& in, vph::Out& out) {
    std::vector<int> il = in.iv(), nn = in.iv(), fn = in.iv(); std::vector<double> x = in.dv(); std::vector<int> ty = in.iv(), lim = in.iv(); C rc = in.d(), rs = in.d();
    int n = il.size(), tot = 0; for (int q : lim) tot += q; Ints IL(il), NN(nn), FN(fn), TY(ty), LM(lim); Buf<C> X(x), v((size_t)n * tot * 4), d((size_t)n * tot * 12);
    EnvMatrix<C>::find_value_deriv(v.p, d.p, n, IL.p, NN.p, FN.p, X.p, TY.p, (int)lim.size(), LM.p, rc, rs);
    out.arr(v.p, n * tot * 4); out.arr(d.p, n * tot * 12); }
CMD(env_d) { env<double>(in, out); }
CMD(env_f) { env<float>(in, out); }
