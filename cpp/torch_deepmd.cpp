// Se4pw operator registered for the torch child (EnvMatrixOp comes with the repository's own binding).
#include <torch/torch.h>
#include <torch/library.h>
#include "descriptor/deepmd/include/se4pw_op.h"
using matersdk::deepPotSE::Se4pwOp;
TORCH_LIBRARY(vpd, l) {
    l.def("se4pw", [](int64_t b, int64_t n, at::Tensor il, at::Tensor nn, at::Tensor fn, at::Tensor x, at::Tensor ty, int64_t nt, at::Tensor lim, double rc, double rs) {
        return Se4pwOp::forward((int)b, (int)n, il, nn, fn, x, ty, (int)nt, lim, rc, rs); });
    l.def("prim", [](int64_t b, int64_t n, at::Tensor il, at::Tensor nn, at::Tensor fn, at::Tensor ty, int64_t nt, at::Tensor lim) {
        return Se4pwOp::get_prim_indices_from_matersdk((int)b, (int)n, il, nn, fn, ty, (int)nt, lim); });
}
