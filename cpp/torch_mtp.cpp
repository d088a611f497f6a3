// Operators of the moment tensor code, registered for the torch child.
#include <torch/torch.h>
#include <torch/library.h>
#include "descriptor/mtp/include/mtpMRadialOp.h"
#include "descriptor/mtp/include/mtpMAngularOp.h"
#include "descriptor/mtp/include/mtpMModule.h"
#include "descriptor/mtp/include/mtpBModule.h"
using namespace matersdk::mtp;
typedef std::vector<at::Tensor> TV;
template <class M> static int64_t setp(M& m, const at::Tensor& flat, bool copy_) {
    int64_t o = 0;
    if (flat.scalar_type() == at::kDouble) m->to(torch::kFloat64);
    for (auto& p : m->parameters()) { int64_t n = p.numel(); if (copy_) { TORCH_CHECK(o + n <= flat.numel(), "VPH parameters: more than ", flat.numel()); p.set_data(flat.detach().slice(0, o, o + n).clone().reshape(p.sizes())); } o += n; }
    return o;
}
template <class M> static at::Tensor grads(M& m, const at::Tensor& flat) {
    TV g; for (auto& p : m->parameters()) g.push_back((p.grad().defined() ? p.grad() : at::zeros_like(p)).reshape(-1));
    return at::cat(g);
}
// out, number of parameters, parameter gradient, coordinate gradient of sum(w * out)
template <class M, class F> static TV run(M m, const at::Tensor& flat, const at::Tensor& rcs, const at::Tensor& w, F f) {
    int64_t n = setp(m, flat, true);
    at::Tensor r = rcs.detach().requires_grad_(true), out = f(m, r), save = out.detach().clone();
    at::Tensor pg = at::zeros_like(flat), rg = at::zeros_like(rcs);
    if (w.numel() == out.numel() && out.requires_grad()) { (out * w.reshape(out.sizes())).sum().backward(); pg = grads(m, flat); if (r.grad().defined()) rg = r.grad(); }
    at::Tensor out2 = f(m, r);                                     // a second evaluation gives the same
    return {save, torch::tensor(n), pg, rg, out2.detach()};
}
TORCH_LIBRARY(vpm, l) {
    l.def("q", [](int64_t n, at::Tensor rc, at::Tensor r) { return MtpQOp(n, rc, r); });
    l.def("angular", [](at::Tensor r, int64_t nu) { return MtpMAngularOp(r, (int)nu); });
    l.def("outer0", [](at::Tensor r) { return OuterNu0Op(r); });
    l.def("combs", [](int64_t level) { MtpMCoeffPairCombs c((int)level); std::vector<std::vector<int64_t>> o; for (int k = 0; k < c.size(); k++) { std::vector<int64_t> f; for (auto& p : c.coeff_pair_combs()[k]) { f.push_back(p.coeff_pair().first); f.push_back(p.coeff_pair().second); } o.push_back(f); }
        TV t; for (auto& f : o) t.push_back(torch::tensor(f, torch::kInt64)); t.push_back(torch::tensor((int64_t)c.nmus())); return t; });
    l.def("moment", [](int64_t nmus, int64_t ntypes, int64_t size, at::Tensor rc, at::Tensor flat, int64_t mu, int64_t nu, int64_t i, at::Tensor fn, at::Tensor ty, at::Tensor rcs, at::Tensor w) {
        return run(MtpMModule(nmus, ntypes, size, rc), flat, rcs, w, [&](MtpMModule& m, at::Tensor& r) { return m->forward(mu, nu, i, fn, ty, r); }); });
    l.def("basis", [](int64_t level, int64_t ntypes, int64_t size, at::Tensor rc, at::Tensor flat, at::Tensor il, at::Tensor fn, at::Tensor rcs, at::Tensor ty, at::Tensor w) {
        return run(MtpBModule(level, ntypes, size, rc), flat, rcs, w, [&](MtpBModule& m, at::Tensor& r) { return m->forward(il, fn, r, ty); }); });
    l.def("initial", [](int64_t level, int64_t ntypes, int64_t size, at::Tensor rc) { MtpBModule m(level, ntypes, size, rc); TV o; for (auto& p : m->parameters()) o.push_back(p.detach().clone().reshape(-1)); for (auto& p : m->parameters()) TORCH_CHECK(p.requires_grad(), "a coefficient is not trainable"); return at::cat(o); });
}
