@tu
#include "Operation/OpTransformCpu.h"
namespace tinytorch::op {
template Tensor triangleOpCpuImpl<float, true>(const Tensor& self, int64_t diagonal);
template Tensor triangleOpCpuImpl<float, false>(const Tensor& self, int64_t diagonal);
}
@opt call=tinytorch::op::fillOffset/4=>! fill_offset(w, $m0, $r1, $2, $3)
@opt call=tinytorch::op::view/2=>= tensor_reshape_view(w, $r0, $r1)
@prelude base float nd tensor
@raw
/// element k of tril/triu
pub open spec fn tri_spec(t: Tensor, w: World, lower: bool, diag: int, k: int) -> F {
    let n = t.shape.len() as int; let rows = t.shape[n - 2] as int; let cols = t.shape[n - 1] as int;
    let j = k % cols; let i = (k / cols) % rows;
    if (lower && j <= i + diag) || (!lower && j >= i + diag) { t.at(w, k) } else { sf_int(0) }
}
pub proof fn lemma_tri_index(b: int, i: int, j: int, rows: int, cols: int, k: int)
    requires 0 <= i < rows, 0 <= j < cols, 0 <= b, k == b * (rows * cols) + i * cols + j
    ensures k % cols == j, (k / cols) % rows == i
{
    assert(k == (b * rows + i) * cols + j) by (nonlinear_arith) requires k == b * (rows * cols) + i * cols + j;
    lemma_mod_unique(k, cols, b * rows + i, j);
    lemma_mod_unique(b * rows + i, rows, b, i);
}
/// the last two extents and the rest
pub proof fn lemma_tri_shape(s: Seq<i64>)
    requires s.len() >= 2
    ensures sp(s, 0) == pr(s, 0, s.len() - 2) * (s[s.len() - 2] * s[s.len() - 1]), pr(s, s.len() - 2, s.len() as int) == s[s.len() - 2] * s[s.len() - 1]
{
    let n = s.len() as int;
    lemma_pr_sp(s, 0, n - 2);
    assert(sp(s, n) == 1); assert(sp(s, n - 1) == s[n - 1] * sp(s, n)); assert(sp(s, n - 2) == s[n - 2] * sp(s, n - 1));
    lemma_pr_sp(s, n - 2, n);
}
@fn triu = tinytorch::op::triangleOpCpuImpl<float,0>
@req
self_.wf(*old(w)), self_.shape.len() >= 2, -MAXN() <= diagonal <= MAXN(),
@ens
res.wf(*final(w)), res.shape@ == self_.shape@, fresh(*old(w), res.blk), frame1(*old(w), *final(w), res.blk),
forall|k: int| 0 <= k < res.numel ==> #[trigger] res.at(*final(w), k) == tri_spec(*self_, *old(w), false, diagonal as int, k),
@at entry
lemma_geo(*self_);
@loop 0
batch == pr(self_.shape@, 0, i as int), 0 <= batch, 0 <= i,
@at loop0.begin
lemma_pr_last(self_.shape@, 0, i as int);
@at loop0.after
lemma_tri_shape(self_.shape@);
@loop 1
frame1(*old(w), *w, ret.blk), w.f@[ret.blk].len() == ret.numel,
forall|k: int| 0 <= k < b * matrixSize ==> ret.at(*w, k) == #[trigger] tri_spec(*self_, *old(w), false, diagonal as int, k),
@at loop1.before
assert(0 * matrixSize == 0) by (nonlinear_arith);
@at loop1.begin
lemma_row(b as int, batch as int, matrixSize as int);
@loop 2
frame1(*old(w), *w, ret.blk), w.f@[ret.blk].len() == ret.numel,
forall|k: int| 0 <= k < b * matrixSize + i * cols ==> ret.at(*w, k) == #[trigger] tri_spec(*self_, *old(w), false, diagonal as int, k),
@at loop2.begin
lemma_row(i as int, rows as int, cols as int);
@loop 3
frame1(*old(w), *w, ret.blk), w.f@[ret.blk].len() == ret.numel,
forall|k: int| 0 <= k < b * matrixSize + i * cols + j ==> ret.at(*w, k) == #[trigger] tri_spec(*self_, *old(w), false, diagonal as int, k),
@at loop3.begin
lemma_tri_index(b as int, i as int, j as int, rows as int, cols as int, b * matrixSize + i * cols + j);
@like tril = tinytorch::op::triangleOpCpuImpl<float,-1> from triu /, false,/, true,/
