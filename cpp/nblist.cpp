#include "vp_harness.h"
#include <memory>
#include "nblist/include/neighborList.h"
using namespace matersdk;
typedef double T;
struct Spec { int n; std::vector<double> lat, xyz; std::vector<int> Z; int cart, form; };
static Spec rspec(vph::In& in) { Spec s; s.lat = in.dv(); s.Z = in.iv(); s.xyz = in.dv(); s.cart = in.i(); s.form = in.i(); s.n = s.Z.size(); return s; }
// the constructor arguments live in exact-size heap blocks which are overwritten and freed afterwards
template <class C> static Structure<C>* mk(const Spec& s) {
    Structure<C>* r;
    if (s.form == 0) {
        C** b = (C**)malloc(3 * sizeof(C*)); for (int k = 0; k < 3; k++) { b[k] = (C*)malloc(3 * sizeof(C)); for (int l = 0; l < 3; l++) b[k][l] = s.lat[3 * k + l]; }
        C** x = (C**)malloc(s.n * sizeof(C*)); for (int k = 0; k < s.n; k++) { x[k] = (C*)malloc(3 * sizeof(C)); for (int l = 0; l < 3; l++) x[k][l] = s.xyz[3 * k + l]; }
        int* z = (int*)malloc(s.n * sizeof(int)); for (int k = 0; k < s.n; k++) z[k] = s.Z[k];
        r = new Structure<C>(s.n, b, z, x, (bool)s.cart);
        for (int k = 0; k < 3; k++) { b[k][0] = -1; free(b[k]); } for (int k = 0; k < s.n; k++) { x[k][0] = -1; free(x[k]); z[k] = -1; } free(b); free(x); free(z);
    } else {
        C (*b)[3] = (C(*)[3])malloc(9 * sizeof(C)); for (int k = 0; k < 9; k++) b[k / 3][k % 3] = s.lat[k];
        C (*x)[3] = (C(*)[3])malloc(3 * s.n * sizeof(C)); for (int k = 0; k < 3 * s.n; k++) x[k / 3][k % 3] = s.xyz[k];
        int* z = (int*)malloc(s.n * sizeof(int)); for (int k = 0; k < s.n; k++) z[k] = s.Z[k];
        r = new Structure<C>(s.n, b, z, x, (bool)s.cart);
        free(b); free(x); free(z);
    }
    return r;
}
template <class C> static void dump(vph::Out& out, const Structure<C>& s) {
    out.open();
    int n = s.get_num_atoms(); out.put(n);
    if (n) {
        out.put2((const C**)s.get_basis_vectors(), 3, 3); out.arr(s.get_pseudo_origin(), 3);
        out.arr(s.get_atomic_numbers(), n); out.put2((const C**)s.get_cart_coords(), n, 3);
        C* p = s.get_projected_lengths(); out.arr(p, 3); free(p);
        p = s.get_interplanar_distances(); out.arr(p, 3); free(p);
        C** v = s.get_vertexes(); out.put2(v, 8, 3); for (int k = 0; k < 8; k++) free(v[k]); free(v);
        v = s.get_limit_xyz(); out.put2(v, 3, 2); for (int k = 0; k < 3; k++) free(v[k]); free(v);
        out.put(vph::captured([&] { s.show(); }));
    } else {
        out.put((bool)(s.get_basis_vectors() == nullptr && s.get_atomic_numbers() == nullptr && s.get_cart_coords() == nullptr && s.get_pseudo_origin() == nullptr
                && s.get_projected_lengths() == nullptr && s.get_interplanar_distances() == nullptr && s.get_vertexes() == nullptr && s.get_limit_xyz() == nullptr));
        vph::captured([&] { s.show(); });
    }
    out.close();
}
static void dump(vph::Out& out, const Supercell<T>& s) {
    out.open();
    int n = s.get_prim_num_atoms(); out.put(n); out.put(s.get_num_atoms());
    out.arr(s.get_scaling_matrix(), 3); out.arr(s.get_prim_cell_idx_xyz(), 3); out.put(s.get_prim_cell_idx());
    if (s.get_num_atoms()) out.arr(s.get_owned_atom_idxs(), n); else out.put((bool)(s.get_owned_atom_idxs() == nullptr));
    dump(out, s.get_structure());
    out.put(vph::captured([&] { s.show(); }));
    out.close();
}
static void dump(vph::Out& out, const BinLinkedList<T>& b) {
    out.open();
    dump(out, b.get_supercell()); out.arr(b.get_bin_size_xyz(), 3); out.arr(b.get_num_bin_xyz(), 3); out.arr(b.get_min_limit_xyz(), 3);
    int n = b.get_supercell().get_prim_num_atoms();
    out.open(); for (int k = 0; k < n; k++) out.put(b.get_neigh_atoms(k)); out.close();
    out.open(); for (int k = 0; k < n; k++) out.put(b.get_bin_idx(k)); out.close();
    if (n) { out.put(b.get_num_neigh_bins()); out.open(); for (int k = 0; k < n; k++) { int* q = b.get_neigh_bins(k); out.arr(q, b.get_num_neigh_bins()); free(q); } out.close(); } 
    out.put(vph::captured([&] { b.show(); }));
    out.close();
}
static void dump(vph::Out& out, NeighborList<T>& l) {
    out.open();
    int n = l.get_num_center_atoms(); out.put(n); out.put((double)l.get_rcut());
    out.open(); for (int k = 0; k < n; k++) out.put(l.get_neighbor_lists()[k]); out.close();
    out.put(l.get_max_num_neigh_atoms());
    const auto& sc = l.get_binLinkedList().get_supercell();
    out.put(sc.get_num_atoms()); if (n) out.put2((const T**)sc.get_structure().get_cart_coords(), sc.get_num_atoms(), 3); else out.put(0);
    if (n) out.arr(sc.get_structure().get_atomic_numbers(), sc.get_num_atoms()); else out.put(0);
    if (n) out.arr(sc.get_owned_atom_idxs(), n); else out.put(0);
    out.close();
}
struct NL { double rcut; int bins; std::vector<double> bs; std::vector<int> pbc; int sort; };
static NL rnl(vph::In& in) { NL a; a.rcut = in.d(); a.bs = in.dv(); a.bins = a.bs.size(); a.pbc = in.iv(); a.sort = in.i(); return a; }
static NeighborList<T>* mknl(const Structure<T>& s, const NL& a) {
    bool* p = (bool*)malloc(3 * sizeof(bool)); for (int k = 0; k < 3; k++) p[k] = a.pbc[k];
    NeighborList<T>* r;
    if (a.bins) { T* b = (T*)malloc(3 * sizeof(T)); for (int k = 0; k < 3; k++) b[k] = a.bs[k]; r = new NeighborList<T>(s, a.rcut, b, p, (bool)a.sort); free(b); }
    else r = new NeighborList<T>(s, a.rcut, p, (bool)a.sort);
    free(p); return r;
}
static BinLinkedList<T>* mkbl(const Structure<T>& s, const NL& a) {
    bool* p = (bool*)malloc(3 * sizeof(bool)); for (int k = 0; k < 3; k++) p[k] = a.pbc[k];
    BinLinkedList<T>* r;
    if (a.bins) { T* b = (T*)malloc(3 * sizeof(T)); for (int k = 0; k < 3; k++) b[k] = a.bs[k]; r = new BinLinkedList<T>(s, a.rcut, b, p); free(b); }
    else r = new BinLinkedList<T>(s, a.rcut, p);
    free(p); return r;
}
// full neighbour list of one structure
CMD(nl) {
    Spec s = rspec(in); NL a = rnl(in); int umax = in.i(); std::vector<int> kinds = in.iv();
    std::unique_ptr<Structure<T>> st(mk<T>(s));
    std::unique_ptr<NeighborList<T>> l(mknl(*st, a));
    dump(out, *l);
    out.open(); for (int c : kinds) for (int m : kinds) out.put(l->get_max_num_neigh_atoms_ssss(c, m)); out.close();
    if (umax < l->get_max_num_neigh_atoms()) umax = l->get_max_num_neigh_atoms();
    int n = l->get_num_center_atoms(); int inum = -5, nghost = -5;
    int *il = (int*)malloc(4 * n), *nn = (int*)malloc(4 * n), *fn = (int*)malloc(4 * n * umax), *ty = (int*)malloc(4 * n); T* rc = (T*)malloc(sizeof(T) * n * umax * 3);
    l->find_info4mlff(inum, il, nn, fn, rc, ty, nghost, umax);
    out.put(umax); out.put(inum); out.arr(il, n); out.arr(nn, n); out.arr(fn, n * umax); out.arr(rc, n * umax * 3); out.arr(ty, n); out.put(nghost);
    free(il); free(nn); free(fn); free(ty); free(rc);
    out.put(vph::captured([&] { l->show_in_index(); })); out.put(vph::captured([&] { l->show_in_prim_index(); }));
    out.put(vph::captured([&] { l->show_in_an(); })); out.put(vph::captured([&] { l->show_in_distances(); }));
    dump(out, *st);
}
// histories: pool of objects of one class, operations (op a b ...)
template <class O, class New> static void history(vph::In& in, vph::Out& out, New nw) {
    std::vector<std::unique_ptr<O>> v;
    while (in.more()) {
        int op = in.i();
        if (op == 0) { v.emplace_back(new O()); continue; }
        if (op == 1) { v.emplace_back(nw(in)); continue; }
        int a = in.i(), b = in.i(); size_t n = v.size();
        if (n == 0) continue;
        a %= n; b %= n;
        if (op == 2) v.emplace_back(new O(*v[a]));
        else if (op == 3) { O& r = (*v[a] = *v[b]); if (&r != v[a].get()) throw std::runtime_error("assignment does not return its left operand"); }
        else if (op == 4) v.erase(v.begin() + a);
        else if (op == 5) { O t(*v[a]); *v[a] = *v[b]; *v[b] = t; }
        else if (op == 6) { std::vector<O> w; for (auto& x : v) w.push_back(*x); w.push_back(*v[a]); v.clear(); for (auto& x : w) v.emplace_back(new O(x)); }
        else if (op == 7) { O t = std::move(*v[a]); O u(t); *v[a] = std::move(u); }
    }
    for (auto& x : v) dump(out, *x);
}
CMD(hist_structure) {
    std::vector<std::unique_ptr<Structure<T>>> v;
    while (in.more()) {
        int op = in.i();
        if (op == 0) { v.emplace_back(new Structure<T>()); continue; }
        if (op == 1) { Spec s = rspec(in); v.emplace_back(mk<T>(s)); continue; }
        int a = in.i(), b = in.i(); size_t n = v.size();
        int sc[3] = {1, 1, 1}; if (op == 8) { for (int k = 0; k < 3; k++) sc[k] = in.i(); }
        if (n == 0) continue;
        int b0 = b; a %= n; b %= n;
        if (op == 2) v.emplace_back(new Structure<T>(*v[a]));
        else if (op == 3) { Structure<T>& r = (*v[a] = *v[b]); if (&r != v[a].get()) throw std::runtime_error("assignment does not return its left operand"); }
        else if (op == 4) v.erase(v.begin() + a);
        else if (op == 5) { Structure<T> t(*v[a]); *v[a] = *v[b]; *v[b] = t; }
        else if (op == 6) { std::vector<Structure<T>> w; for (auto& x : v) w.push_back(*x); w.push_back(*v[a]); v.clear(); for (auto& x : w) v.emplace_back(new Structure<T>(x)); }
        else if (op == 7) { Structure<T> t = std::move(*v[a]); Structure<T> u(t); *v[a] = std::move(u); }
        else if (op == 8) v[a]->make_supercell(sc);
        else if (op == 9) { Structure<T> unused(b0 % 7); v.emplace_back(new Structure<T>(b0 % 5)); *v.back() = *v[a]; }       // room for atoms, then assigned
    }
    for (auto& x : v) dump(out, *x);
}
CMD(hist_supercell) { history<Supercell<T>>(in, out, [](vph::In& i) { Spec s = rspec(i); int* sc = (int*)malloc(12); for (int k = 0; k < 3; k++) sc[k] = i.i();
    std::unique_ptr<Structure<T>> st(mk<T>(s)); auto* r = new Supercell<T>(*st, sc); free(sc); return r; }); }
CMD(hist_bins) { history<BinLinkedList<T>>(in, out, [](vph::In& i) { Spec s = rspec(i); NL a = rnl(i); std::unique_ptr<Structure<T>> st(mk<T>(s)); return mkbl(*st, a); }); }
CMD(hist_nl) { history<NeighborList<T>>(in, out, [](vph::In& i) { Spec s = rspec(i); NL a = rnl(i); std::unique_ptr<Structure<T>> st(mk<T>(s)); return mknl(*st, a); }); }
CMD(structure_f) { Spec s = rspec(in); std::unique_ptr<Structure<float>> st(mk<float>(s)); int sc[3] = {in.i(), in.i(), in.i()}; Structure<float> c(*st); c.make_supercell(sc); dump(out, *st); dump(out, c); }
static std::string bsi(const BasicStructureInfo<T>& b) { return vph::captured([&] { b.show(); }); }
CMD(basic_info) {
    Spec s = rspec(in), s2 = rspec(in); std::unique_ptr<Structure<T>> st(mk<T>(s)), st2(mk<T>(s2));
    BasicStructureInfo<T> a(*st), b, c(a); out.put(bsi(a)); out.put(bsi(b)); out.put(bsi(c));
    BasicStructureInfo<T>& r = (b = a); out.put((bool)(&r == &b)); out.put(bsi(b)); a = BasicStructureInfo<T>(); out.put(bsi(a)); c = c; out.put(bsi(c));
    // a summary assigned over one of another structure
    BasicStructureInfo<T> d(*st2); out.put(bsi(d)); c = d; out.put(bsi(c)); d = b; out.put(bsi(d)); out.put(bsi(c));
}
VPH_MAIN
