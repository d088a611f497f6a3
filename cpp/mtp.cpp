// Moment-tensor-potential code without torch: level bookkeeping, radial bases, .almtp parameters.
#include "vp_harness.h"
#include <memory>
#include <utility>
#include "descriptor/mtp/include/mtpLevel.h"
#include "descriptor/mtp/include/level.h"
#include "descriptor/mtp/include/mtpMRadial.h"
#include "descriptor/mtp/include/mtpMRadial_de.h"
#include "descriptor/mtpr/include/basis.h"
#include "descriptor/mtpr/include/mtpParam.h"
using namespace matersdk;
using mtp::MtpMCoeffPair; using mtp::MtpMCoeffPairCombs;
typedef std::vector<MtpMCoeffPair> Comb;
typedef std::vector<std::pair<int, int>> LComb;
static void pc(vph::Out& out, const std::vector<Comb>& v) { out.open(); for (auto& c : v) { out.open(); for (auto& p : c) { out.put(p.coeff_pair().first); out.put(p.coeff_pair().second); out.put(p.level()); } out.close(); } out.close(); }
static void pl(vph::Out& out, const std::vector<LComb>& v) { out.open(); for (auto& c : v) { out.open(); for (auto& p : c) { out.put(p.first); out.put(p.second); } out.close(); } out.close(); }
static std::vector<LComb> rl(vph::In& in) { int n = in.i(); std::vector<LComb> v(n); for (auto& c : v) { std::vector<int> f = in.iv(); for (size_t k = 0; k + 1 < f.size(); k += 2) c.push_back({f[k], f[k + 1]}); } return v; }
static std::vector<Comb> rc(vph::In& in) { std::vector<Comb> o; for (auto& c : rl(in)) { Comb d; for (auto& p : c) { if (o.size() & 1) d.push_back(MtpMCoeffPair(p.first, p.second)); else d.push_back(MtpMCoeffPair(p)); } o.push_back(d); } return o; }
CMD(level) { int n = in.i(); out.open(); for (int k = 0; k < n; k++) { int m = in.i(), u = in.i(); out.open(); out.put(MtpMCoeffPair(m, u).level()); out.put(MtpMCoeffPair(std::pair<int, int>(m, u)).level());
    out.put(mtp::Combinations::get_level(m, u)); MtpMCoeffPair a(m, u), b(a), c, d; d = c = a; a = a; out.put(a.level()); out.put(b.level()); out.put(c.level()); out.put(d.coeff_pair().first); out.put(d.coeff_pair().second); out.close(); } out.close(); out.put(MtpMCoeffPair().level()); }
namespace matersdk { namespace mtp {
static void dump(vph::Out& out, MtpMCoeffPairCombs& c) { out.open(); out.put(c.max_level()); pc(out, c.coeff_pair_combs()); out.put(c.size()); out.put(c.nmus()); out.put(c.nmus_check());
    std::vector<Comb> v; for (int k = 0; k < c.size(); k++) v.push_back(c[k]); pc(out, v); out.put(vph::captured([&] { c.show(); })); out.close(); }
} }
CMD(combs) { MtpMCoeffPairCombs c(in.i()); mtp::dump(out, c); }
CMD(schemes) { int l = in.i(); pc(out, MtpMCoeffPairCombs::get_all_schemes4lev(l, 0, 0)); }
CMD(contracted) { pc(out, MtpMCoeffPairCombs::get_contracted_combs(rc(in))); }
CMD(legacy) { int tiny = in.i(); mtp::Combinations c(rl(in), tiny); pl(out, c.get_combinations()); out.put(c.get_num_combinations()); out.put(vph::captured([&] { c.show(); }));
    mtp::Combinations d(c); d.remove_duplicates(); pl(out, d.get_combinations()); mtp::Combinations e(c); e.remove_cannot_contract(); pl(out, e.get_combinations());
    int n = c.get_num_combinations(); std::vector<int> idx(n); for (int k = 0; k < n; k++) idx[k] = k; std::stable_sort(idx.begin(), idx.end(), mtp::CombinationsSortBasis(c)); out.put(idx);
    pl(out, mtp::CombinationsArrangement(c, idx.data()).arrange().get_combinations()); }
CMD(legacy_level) { int l = in.i(), m = in.i(); mtp::MTPLevel a(l); out.put(a.get_max_num_M()); std::vector<std::pair<int, int>> none; a.calc_redundant_combinations(l, none); pl(out, a.get_redundant_combinaions());
    mtp::MTPLevel b(l); none.clear(); b.calc_redundant_combination(m, l, 0, none); pl(out, b.get_redundant_combinaions());
    mtp::Combinations c(a.get_redundant_combinaions()); pl(out, c.get_combinations()); }
// histories: 0 default, 1 <construct>, 2 a copy, 3 a b assign, 4 a destroy, 5 a b swap, 6 a move-construct into a temporary and back, 7 a b move-assign (b left empty), 8 a <rebuild>, 9 every object as it is now.
// What an object that was moved from holds is its own affair (an entry that starts with -1), but it can still be read.
template <class O, class M, class B, class D> static void hist(vph::In& in, vph::Out& out, M make, B rebuild, D dump) {
    std::vector<std::unique_ptr<O>> v;
    auto moved = [&](O& o) { out.open(); out.put(-1); dump(o); out.close(); };
    while (in.more()) {
        int op = in.i(); size_t n = v.size();
        if (op == 0) { v.emplace_back(new O()); continue; }
        if (op == 1) { v.emplace_back(make(in)); continue; }
        if (op == 9) { out.open(); for (auto& o : v) dump(*o); out.close(); continue; }
        size_t a = in.i(), b = in.i(); double r = in.d(); if (!n) continue; a %= n; b %= n;
        if (op == 2) v.emplace_back(new O(*v[a]));
        else if (op == 3) { O& q = (*v[a] = *v[b]); if (&q != v[a].get()) throw std::runtime_error("copy assignment does not return its target"); }
        else if (op == 4) v.erase(v.begin() + a);
        else if (op == 5) { if (a != b) { O t(std::move(*v[a])); *v[a] = std::move(*v[b]); *v[b] = std::move(t); } }
        else if (op == 6) { O t(std::move(*v[a])); moved(*v[a]); O& q = (*v[a] = std::move(t)); moved(t); if (&q != v[a].get()) throw std::runtime_error("move assignment does not return its target"); }
        else if (op == 7) { if (a != b) { *v[a] = std::move(*v[b]); moved(*v[b]); *v[b] = O(); } }
        else if (op == 8) rebuild(*v[a], r);
    }
    out.open(); for (auto& o : v) dump(*o); out.close();
}
CMD(hist_combs) { hist<MtpMCoeffPairCombs>(in, out, [](vph::In& i) { return new MtpMCoeffPairCombs(i.i()); }, [](MtpMCoeffPairCombs& c, double) { c._build(); }, [&](MtpMCoeffPairCombs& c) { mtp::dump(out, c); }); }
// ---- radial functions
template <class C> static void radial(vph::In& in, vph::Out& out) {
    int size = in.i(); C rc = in.d(), rs = in.d(); std::vector<double> rr = in.dv();
    mtp::ChebyshevPoly<C> ch(size, rc, rs); mtp::MtpQ<C> q(size, rc, rs); mtp::MtpSwitchFunc1<C> s1(rc, rs), t1(s1), u1; mtp::MtpSwitchFunc2<C> s2(rc, rs), t2(s2), u2; mtp::SwitchFunc<C> sd(rc, rs); u1 = t1; u2 = t2;
    mtpr::RB_Chebyshev<C> rb(size, rc, rs); mtpr::RQ_Chebyshev<C> rq(size, rc, rs); mtpr::SwitchFunction<C> sf(rc, rs);
    out.open(); out.put(ch.size()); out.put(q.size()); out.put(rb.size()); out.put(rq.size()); out.put(rb.rmax()); out.put(rb.rmin()); out.put(rq.rmax()); out.put(rq.rmin()); out.close();
    for (double x : rr) { C r = x; bool in_ = r >= rs && r <= rc; ch.build(r); q.build(r); out.open();
        out.put(u1.get_result(r)); out.put(u1.get_deriv2r()); out.put(u2.get_result(r)); out.put(u2.get_deriv2r(r)); out.put(sd.get_result(r)); out.put(sd.get_deriv2rji(r));
        out.arr(ch.get_result(), size); out.arr(ch.get_deriv2xi(), size); out.arr(ch.get_deriv2r(), size); out.arr(q.get_result(), size); out.arr(q.get_deriv2r(), size);
        mtp::RadialBasisChebyshev<C> de(rc, rs, size - 1, r); out.arr(de.get_chebyshev_vals(), size); out.arr(de.get_chebyshev_ders(), size); out.arr(de.get_rb_vals(), size); out.arr(de.get_rb_ders(), size);
        out.put(de.get_rcut()); out.put(de.get_rcut_smooth()); out.put(de.get_rji()); out.put(de.get_hmju());
        if (in_) { rb.build(r); rq.build(r); out.put(sf.val(r)); out.put(sf.der2r(r)); out.arr(rb.vals(), size); out.arr(rb.ders2uu(), size); out.arr(rb.ders2r(), size); out.arr(rq.vals(), size); out.arr(rq.ders2r(), size);
            out.put(vph::captured([&] { rb.show(); })); out.put(vph::captured([&] { rq.show(); })); }
        out.put(vph::captured([&] { ch.show(); })); out.put(vph::captured([&] { q.show(); })); out.put(vph::captured([&] { de.show_in_value(); })); out.put(vph::captured([&] { de.show_in_deriv(); }));
        out.close(); }
}
CMD(radial_d) { radial<double>(in, out); }
CMD(radial_f) { radial<float>(in, out); }
template <class O> static O* mkr(vph::In& i) { int n = i.i(); double rc = i.d(), rs = i.d(), r = i.d(); O* o = new O(n, rc, rs); if (r >= 0) o->build(rs + r * (rc - rs)); return o; }
template <class O> static void hist_mtp(vph::In& in, vph::Out& out, std::function<void(O&)> extra) {
    hist<O>(in, out, mkr<O>, [](O& o, double r) { if (o.size()) o.build(r); }, [&](O& o) { out.open(); out.put(o.size()); out.arr(o.get_result(), o.size()); out.arr(o.get_deriv2r(), o.size()); extra(o); out.close(); }); }
CMD(hist_cheb) { hist_mtp<mtp::ChebyshevPoly<double>>(in, out, [&](mtp::ChebyshevPoly<double>& o) { out.arr(o.get_deriv2xi(), o.size()); }); }
CMD(hist_q) { hist_mtp<mtp::MtpQ<double>>(in, out, [&](mtp::MtpQ<double>& o) {}); }
template <class O> static void hist_mtpr(vph::In& in, vph::Out& out, std::function<void(O&)> extra) {
    hist<O>(in, out, mkr<O>, [](O& o, double r) { if (o.size() && r >= o.rmin() && r <= o.rmax()) o.build(r); },
            [&](O& o) { out.open(); out.put(o.size()); out.arr(o.vals(), o.size()); out.arr(o.ders2r(), o.size()); extra(o); out.put(o.rmax()); out.put(o.rmin()); out.close(); }); }
CMD(hist_rb) { hist_mtpr<mtpr::RB_Chebyshev<double>>(in, out, [&](mtpr::RB_Chebyshev<double>& o) { out.arr(o.ders2uu(), o.size()); }); }
CMD(hist_rq) { hist_mtpr<mtpr::RQ_Chebyshev<double>>(in, out, [&](mtpr::RQ_Chebyshev<double>& o) {}); }
// ---- .almtp parameters
static void dp(vph::Out& out, const mtpr::MtpParam& p) { out.open(); out.put(p.alpha_moments_count()); out.put(p.alpha_index_basic_count()); out.arr((const int*)p.alpha_index_basic(), 4 * p.alpha_index_basic_count()); out.put(p.alpha_index_times_count());
    out.arr((const int*)p.alpha_index_times(), 4 * p.alpha_index_times_count()); out.put(p.alpha_scalar_moments()); out.arr(p.alpha_moment_mapping(), p.alpha_scalar_moments()); out.put(vph::captured([&] { p.show(); })); out.close(); }
template <class F> static void guarded(F f) { try { f(); } catch (const mtpr::MtpException& e) { throw std::runtime_error(std::string("MtpException: ") + e.what()); } }
CMD(param) { std::string f = in.s(); int again = in.i(); guarded([&] { mtpr::MtpParam p(f); dp(out, p); mtpr::MtpParam q; q._load(f); if (again) q._load(in.s()); dp(out, q); }); }
CMD(hist_param) { guarded([&] { hist<mtpr::MtpParam>(in, out, [](vph::In& i) { return new mtpr::MtpParam(i.s()); }, [](mtpr::MtpParam&, double) {}, [&](mtpr::MtpParam& p) { dp(out, p); }); }); }
VPH_MAIN
