@tu
#include "Operation/OpTransform.cpp"
namespace tinytorch::op {
template std::vector<Tensor> splitOpImplDetail<float>(const Tensor& self, IntArrayView sectionSizes, int64_t dim);
template std::vector<Tensor> splitOpImpl<float>(const Tensor& self, int64_t splitSize, int64_t dim);
template std::vector<Tensor> splitSectionsOpImpl<float>(const Tensor& self, IntArrayView sections, int64_t dim);
template std::vector<Tensor> chunkOpImpl<float>(const Tensor& self, int64_t chunks, int64_t dim);
template Tensor concatOpImpl<float>(ArrayView<Tensor> tensors, int64_t dim);
template Tensor stackOpImpl<float>(ArrayView<Tensor> tensors, int64_t dim);
template Tensor narrowOpImpl<float>(const Tensor& self, int64_t dim, int64_t start, int64_t length);
}
@prelude base float nd tensor
@raw
pub open spec fn nrm(d: int, n: int) -> int { if d < 0 { d + n } else { d } }
/// element k of the piece [start, start+length) of axis d
pub open spec fn piece(t: Tensor, w: World, d: int, start: int, length: int, k: int) -> F {
    t.at(w, block_src(k, length * inner(t.shape@, d), t.shape[d] * inner(t.shape@, d), start * inner(t.shape@, d)))
}
@fn narrow_k = tinytorch::op::narrowOpImpl<float>
@req
self_.wf(*old(w)), -self_.shape.len() <= dim < self_.shape.len(),
({ let d = nrm(dim as int, self_.shape.len() as int); let st = nrm(start as int, self_.shape[d] as int); 0 <= st < self_.shape[d] && 0 <= length && st + length <= self_.shape[d] && -MAXN() <= start && length <= MAXN() }),
@ens
({ let d = nrm(dim as int, self_.shape.len() as int); let st = nrm(start as int, self_.shape[d] as int);
 res.wf(*final(w)) && res.shape@ == self_.shape@.update(d, length) && keeps(*old(w), *final(w))
 && forall|k: int| 0 <= k < res.numel ==> res.at(*final(w), k) == #[trigger] piece(*self_, *old(w), d, st, length as int, k) }),
@at entry
lemma_geo(*self_);
lemma_axis(self_.shape@, nrm(dim as int, self_.shape.len() as int));
lemma_axis_upd(self_.shape@, nrm(dim as int, self_.shape.len() as int), length);
let ghost I = inner(self_.shape@, nrm(dim as int, self_.shape.len() as int));
let ghost D = self_.shape[nrm(dim as int, self_.shape.len() as int)] as int;
let ghost st0 = nrm(start as int, D);
assert(0 <= st0 * I && st0 * I + length * I <= D * I && 0 <= length * I) by (nonlinear_arith) requires 0 <= st0, 0 <= length, st0 + length <= D, I >= 0;
lemma_block(0, length * I, D * I, st0 * I);
assert(0 * (length * I) == 0 && 0 * (D * I) == 0);
lemma_axis(self_.shape@, 0);
assert(outer(self_.shape@, 0) * (length * I) == length * I) by (nonlinear_arith) requires outer(self_.shape@, 0) == 1;
assert(outer(self_.shape@, 0) * (D * I) == D * I) by (nonlinear_arith) requires outer(self_.shape@, 0) == 1;
lemma_block(0, length * I, D * I, st0 * I);
@loop 0
outerSize == pr(self_.shape@, 0, i as int),
@at loop0.begin
lemma_pr_last(self_.shape@, 0, i as int);
@loop 1
innerSize == pr(self_.shape@, dim + 1, i as int),
@at loop1.begin
lemma_pr_last(self_.shape@, dim + 1, i as int);
@loop 2
frame1(*old(w), *w, ret.blk), w.f@[ret.blk].len() == ret.numel,
forall|k: int| 0 <= k < o * dstStride ==> ret.at(*w, k) == #[trigger] piece(*self_, *old(w), dim as int, st0, length as int, k),
@at loop2.before
assert(0 * dstStride == 0);
@at loop2.begin
lemma_row(o as int, outerSize as int, srcStride as int);
lemma_row(o as int, outerSize as int, dstStride as int);
lemma_block(o as int, dstStride as int, srcStride as int, st0 * I);
lemma_bytes(length as int, innerSize as int);
assert(ret.numel == outerSize * dstStride);
assert((4 * length as int) * innerSize == 4 * dstStride && (4 * dstStride) / 4 == dstStride as int && (4 * dstStride) % 4 == 0);
assert(0 <= o * dstStride && o * dstStride + dstStride <= ret.numel && ret.off == 0 && ret.numel == w.f@[ret.blk].len());
assert(0 <= o * srcStride && o * srcStride + srcStride <= self_.numel);
assert(start * innerSize == st0 * I && 0 <= st0 * I && st0 * I + dstStride <= srcStride);
