@tu
#include "Operation/OpNNLayer.cpp"
#include "Operation/OpNNLayerCpu.cpp"
namespace tinytorch::op {
template void softmaxForwardCpuImpl<float, SoftmaxType::Softmax>(Tensor& out, const Tensor& self, int64_t dim);
template void softmaxForwardCpuImpl<float, SoftmaxType::LogSoftmax>(Tensor& out, const Tensor& self, int64_t dim);
template Tensor softmaxOpCpuImpl<float>(const Tensor& self, int64_t dim);
template Tensor logSoftmaxOpCpuImpl<float>(const Tensor& self, int64_t dim);
template Tensor softmaxOpBackwardCpuImpl<float>(const Tensor& grad, const Tensor& output, int64_t dim);
template Tensor logSoftmaxOpBackwardCpuImpl<float>(const Tensor& grad, const Tensor& output, int64_t dim);
template Tensor normOpCpuImplDetail<float, NormType::LayerNorm>(const Tensor& self, IntArrayView normalizedShape, const Tensor& weight, const Tensor& bias, float eps);
template Tensor normOpCpuImplDetail<float, NormType::RMSNorm>(const Tensor& self, IntArrayView normalizedShape, const Tensor& weight, const Tensor& bias, float eps);
template Tensor ropeApplyOpCpuImpl<float>(const Tensor& input, const Tensor& rope, int64_t offset);
}
@prelude base float nd tensor
@opt type=tinytorch::op::SoftmaxDimInfo=>SoftmaxDimInfo
@opt type=SoftmaxDimInfo=>SoftmaxDimInfo
@opt struct=SoftmaxDimInfo
@opt copytype=SoftmaxDimInfo
@raw
#[derive(Clone, Copy)]
pub struct SoftmaxDimInfo { pub outerSize: i64, pub dimSize: i64, pub innerSize: i64 }
@include cells.inc
@fn dim_info = tinytorch::op::getSoftmaxDimInfo
@w none
@assume_asserts
@req
self_.geo(), -MAXN() <= dim <= MAXN(),
@ens
-self_.shape.len() <= dim < self_.shape.len(),
({ let d = nrm(dim as int, self_.shape.len() as int); res.outerSize == outer(self_.shape@, d) && res.dimSize == self_.shape[d] && res.innerSize == inner(self_.shape@, d) }),
@at entry
lemma_geo(*self_); lemma_fits(self_.shape@);
@at loop0.before
assert(pr(self_.shape@, 0, 0) == 1);
@loop 0
outerSize == pr(self_.shape@, 0, i as int),
@at loop0.begin
lemma_pr_last(self_.shape@, 0, i as int); assert(0 <= pr(self_.shape@, 0, i + 1) <= MAXN());
@at loop1.before
assert(pr(self_.shape@, dim + 1, dim + 1) == 1);
@loop 1
innerSize == pr(self_.shape@, dim + 1, i as int),
@at loop1.begin
lemma_pr_last(self_.shape@, dim + 1, i as int); assert(0 <= pr(self_.shape@, dim + 1, i + 1) <= MAXN());
@raw
/// largest of the first t elements of the slice starting at b with step st
pub open spec fn rmax(m: Seq<F>, b: int, st: int, t: int) -> F decreases t
{ if t <= 0 { sf_neg(sf_fmax()) } else { let p = rmax(m, b, st, t - 1); let v = m[b + (t - 1) * st]; if sf_gt(v, p) { v } else { p } } }
pub open spec fn ex(m: Seq<F>, x: int, mx: F) -> F { sf_exp(sf_sub(m[x], mx)) }
pub open spec fn rsum(m: Seq<F>, b: int, st: int, mx: F, t: int) -> F decreases t
{ if t <= 0 { sf_int(0) } else { sf_add(rsum(m, b, st, mx, t - 1), ex(m, b + (t - 1) * st, mx)) } }
pub open spec fn srow(o: int, D: int, I: int, c: R3) -> int { o + c.o * (D * I) + c.i }
/// softmax of element x: exp(x - max of its slice) times the reciprocal of the slice's sum of such
pub open spec fn smv(m: Seq<F>, o: int, D: int, I: int, c: R3) -> F {
    let b = srow(o, D, I, c); let mx = rmax(m, b, I, D);
    sf_mul(ex(m, b + c.d * I, mx), sd_to_f(sd_div(sd_lit(1.0real), sf_to_d(rsum(m, b, I, mx, D)))))
}
/// log-softmax of element x: x - max - log(sum)
pub open spec fn lsv(m: Seq<F>, o: int, D: int, I: int, c: R3) -> F {
    let b = srow(o, D, I, c); let mx = rmax(m, b, I, D);
    sf_sub(sf_sub(m[b + c.d * I], mx), sf_log(rsum(m, b, I, mx, D)))
}
pub open spec fn okdim(t: Tensor, dim: int) -> bool { -t.shape.len() <= dim < t.shape.len() }
@raw
@fn softmax_fwd = tinytorch::op::softmaxForwardCpuImpl<float, 0>
@assume_asserts
@req
old(out).wf(*old(w)), self_.wf(*old(w)), old(out).dt == 0, self_.dt == 0, -MAXN() <= dim <= MAXN(),
old(out).blk == self_.blk ==> old(out).off == self_.off,
@ens
okdim(*self_, dim as int),
final(out).wf(*final(w)), final(out).shape@ == old(out).shape@, final(out).shape@ == self_.shape@, final(out).off == old(out).off, final(out).dt == old(out).dt, final(out).blk == old(out).blk || fresh(*old(w), final(out).blk),
frame1(*old(w), *final(w), final(out).blk),
({ let n = nrm(dim as int, self_.shape.len() as int); let D = self_.shape[n] as int; let I = inner(self_.shape@, n);
 forall|y: int| 0 <= y < old(w).f@[old(out).blk].len() ==> #[trigger] final(w).f@[final(out).blk][y] == (if old(out).off <= y < old(out).off + self_.numel { smv(old(w).f@[self_.blk], self_.off as int, D, I, cell(D, I, y - old(out).off)) } else { old(w).f@[old(out).blk][y] }) }),
final(w).f@[final(out).blk].len() == old(w).f@[old(out).blk].len(),
@at entry
lemma_geo(*self_);
let ghost m0 = old(w).f@[self_.blk]; let ghost so = self_.off as int; let ghost q0 = old(w).f@[old(out).blk]; let ghost oo = old(out).off as int;
@at before /tensor_cow/
let ghost nd = nrm(dim as int, self_.shape.len() as int); let ghost O = outer(self_.shape@, nd); let ghost D = self_.shape[nd] as int; let ghost I = inner(self_.shape@, nd);
lemma_axis(self_.shape@, nd); lemma_cells(O, D, I);
assert(self_.numel == O * (D * I) && old(out).numel == self_.numel);
@loop 0
frame1(*old(w), *w, out.blk), w.f@[out.blk].len() == q0.len(),
forall|y: int| 0 <= y < q0.len() ==> #[trigger] w.f@[out.blk][y] == (if oo <= y < oo + self_.numel && done3(cell(D, I, y - oo), outer as int, 0) { smv(m0, so, D, I, cell(D, I, y - oo)) } else { q0[y] }),
@at loop0.begin
lemma_row(outer as int, O, D * I);
lemma_od(outer as int, O, D, I, self_.shape@, nd);
@loop 1
frame1(*old(w), *w, out.blk), w.f@[out.blk].len() == q0.len(),
forall|y: int| 0 <= y < q0.len() ==> #[trigger] w.f@[out.blk][y] == (if oo <= y < oo + self_.numel && done3(cell(D, I, y - oo), outer as int, i as int) { smv(m0, so, D, I, cell(D, I, y - oo)) } else { q0[y] }),
@at loop1.begin
let ghost b0 = so + base0(outer as int, D, I, i as int);
let ghost c0 = R3 { o: outer as int, d: 0, i: i as int };
let ghost w1 = *w;
assert(D > 0 ==> base0(outer as int, D, I, i as int) + D * I <= self_.numel + i) by { }
assert forall|d: int| 0 <= d < D implies { let x = #[trigger] addr(D, I, R3 { o: outer as int, d, i: i as int }); 0 <= x < self_.numel && cell(D, I, x) == R3 { o: outer as int, d, i: i as int } && w.f@[self_.blk][so + x] == m0[so + x] } by {
    lemma_addr3(O, D, I, R3 { o: outer as int, d, i: i as int });
    let x = addr(D, I, R3 { o: outer as int, d, i: i as int });
    assert(out.blk == self_.blk ==> w.f@[out.blk][oo + x] == q0[oo + x]);
}
@loop 2
offset == base + d * I, maxVal == rmax(m0, b0, I, d as int), d <= D,
@at loop2.before
assert(0 * I == 0);
@at loop2.begin
lemma_addr3(O, D, I, R3 { o: outer as int, d: d as int, i: i as int });
@loop 3
offset == base + d * I, sum == rsum(m0, b0, I, maxVal, d as int), d <= D,
frame1(*old(w), *w, out.blk), w.f@[out.blk].len() == q0.len(),
forall|y: int| 0 <= y < q0.len() ==> #[trigger] w.f@[out.blk][y] == ({ let c = cell(D, I, y - oo); if oo <= y < oo + self_.numel && c.o == outer && c.i == i && c.d < d { ex(m0, so + (y - oo), maxVal) } else { w1.f@[out.blk][y] } }),
@at loop3.begin
let ghost cc = R3 { o: outer as int, d: d as int, i: i as int };
lemma_addr3(O, D, I, cc);
assert(w.f@[self_.blk][so + addr(D, I, cc)] == m0[so + addr(D, I, cc)]) by { assert(out.blk == self_.blk ==> w.f@[out.blk][oo + addr(D, I, cc)] == w1.f@[out.blk][oo + addr(D, I, cc)]); }
@loop 4
offset == base + d * I, d <= D,
frame1(*old(w), *w, out.blk), w.f@[out.blk].len() == q0.len(),
forall|y: int| 0 <= y < q0.len() ==> #[trigger] w.f@[out.blk][y] == ({ let c = cell(D, I, y - oo); if oo <= y < oo + self_.numel && c.o == outer && c.i == i { if c.d < d { smv(m0, so, D, I, c) } else { ex(m0, so + (y - oo), maxVal) } } else { w1.f@[out.blk][y] } }),
@at loop4.begin
let ghost cc = R3 { o: outer as int, d: d as int, i: i as int };
lemma_addr3(O, D, I, cc);
@fn logsoftmax_fwd = tinytorch::op::softmaxForwardCpuImpl<float, 1>
@assume_asserts
@req
old(out).wf(*old(w)), self_.wf(*old(w)), old(out).dt == 0, self_.dt == 0, -MAXN() <= dim <= MAXN(),
old(out).blk == self_.blk ==> old(out).off == self_.off,
@ens
okdim(*self_, dim as int),
final(out).wf(*final(w)), final(out).shape@ == old(out).shape@, final(out).shape@ == self_.shape@, final(out).off == old(out).off, final(out).dt == old(out).dt, final(out).blk == old(out).blk || fresh(*old(w), final(out).blk),
frame1(*old(w), *final(w), final(out).blk),
({ let n = nrm(dim as int, self_.shape.len() as int); let D = self_.shape[n] as int; let I = inner(self_.shape@, n);
 forall|y: int| 0 <= y < old(w).f@[old(out).blk].len() ==> #[trigger] final(w).f@[final(out).blk][y] == (if old(out).off <= y < old(out).off + self_.numel { lsv(old(w).f@[self_.blk], self_.off as int, D, I, cell(D, I, y - old(out).off)) } else { old(w).f@[old(out).blk][y] }) }),
final(w).f@[final(out).blk].len() == old(w).f@[old(out).blk].len(),
@at entry
lemma_geo(*self_);
let ghost m0 = old(w).f@[self_.blk]; let ghost so = self_.off as int; let ghost q0 = old(w).f@[old(out).blk]; let ghost oo = old(out).off as int;
@at before /tensor_cow/
let ghost nd = nrm(dim as int, self_.shape.len() as int); let ghost O = outer(self_.shape@, nd); let ghost D = self_.shape[nd] as int; let ghost I = inner(self_.shape@, nd);
lemma_axis(self_.shape@, nd); lemma_cells(O, D, I);
assert(self_.numel == O * (D * I) && old(out).numel == self_.numel);
@loop 0
frame1(*old(w), *w, out.blk), w.f@[out.blk].len() == q0.len(),
forall|y: int| 0 <= y < q0.len() ==> #[trigger] w.f@[out.blk][y] == (if oo <= y < oo + self_.numel && done3(cell(D, I, y - oo), outer as int, 0) { lsv(m0, so, D, I, cell(D, I, y - oo)) } else { q0[y] }),
@at loop0.begin
lemma_row(outer as int, O, D * I);
lemma_od(outer as int, O, D, I, self_.shape@, nd);
@loop 1
frame1(*old(w), *w, out.blk), w.f@[out.blk].len() == q0.len(),
forall|y: int| 0 <= y < q0.len() ==> #[trigger] w.f@[out.blk][y] == (if oo <= y < oo + self_.numel && done3(cell(D, I, y - oo), outer as int, i as int) { lsv(m0, so, D, I, cell(D, I, y - oo)) } else { q0[y] }),
@at loop1.begin
let ghost b0 = so + base0(outer as int, D, I, i as int);
let ghost c0 = R3 { o: outer as int, d: 0, i: i as int };
let ghost w1 = *w;
assert(D > 0 ==> base0(outer as int, D, I, i as int) + D * I <= self_.numel + i) by { }
assert forall|d: int| 0 <= d < D implies { let x = #[trigger] addr(D, I, R3 { o: outer as int, d, i: i as int }); 0 <= x < self_.numel && cell(D, I, x) == R3 { o: outer as int, d, i: i as int } && w.f@[self_.blk][so + x] == m0[so + x] } by {
    lemma_addr3(O, D, I, R3 { o: outer as int, d, i: i as int });
    let x = addr(D, I, R3 { o: outer as int, d, i: i as int });
    assert(out.blk == self_.blk ==> w.f@[out.blk][oo + x] == q0[oo + x]);
}
@loop 2
offset == base + d * I, maxVal == rmax(m0, b0, I, d as int), d <= D,
@at loop2.before
assert(0 * I == 0);
@at loop2.begin
lemma_addr3(O, D, I, R3 { o: outer as int, d: d as int, i: i as int });
@loop 3
offset == base + d * I, sum == rsum(m0, b0, I, maxVal, d as int), d <= D, *w == w1,
@at loop3.begin
let ghost cc = R3 { o: outer as int, d: d as int, i: i as int };
lemma_addr3(O, D, I, cc);
assert(w.f@[self_.blk][so + addr(D, I, cc)] == m0[so + addr(D, I, cc)]) by { assert(out.blk == self_.blk ==> w.f@[out.blk][oo + addr(D, I, cc)] == w1.f@[out.blk][oo + addr(D, I, cc)]); }
@loop 4
offset == base + d * I, d <= D,
frame1(*old(w), *w, out.blk), w.f@[out.blk].len() == q0.len(),
forall|y: int| 0 <= y < q0.len() ==> #[trigger] w.f@[out.blk][y] == ({ let c = cell(D, I, y - oo); if oo <= y < oo + self_.numel && c.o == outer && c.i == i { if c.d < d { lsv(m0, so, D, I, c) } else { w1.f@[out.blk][y] } } else { w1.f@[out.blk][y] } }),
@at loop4.begin
let ghost cc = R3 { o: outer as int, d: d as int, i: i as int };
lemma_addr3(O, D, I, cc);
assert(w.f@[self_.blk][so + addr(D, I, cc)] == m0[so + addr(D, I, cc)]) by { assert(out.blk == self_.blk ==> w.f@[out.blk][oo + addr(D, I, cc)] == w1.f@[out.blk][oo + addr(D, I, cc)]); }
@fn softmax = tinytorch::op::softmaxOpCpuImpl<float>
@assume_asserts
@req
self_.wf(*old(w)), self_.dt == 0, -MAXN() <= dim <= MAXN(),
@ens
okdim(*self_, dim as int), res.wf(*final(w)), res.shape@ == self_.shape@, keeps(*old(w), *final(w)),
({ let n = nrm(dim as int, self_.shape.len() as int); let D = self_.shape[n] as int; let I = inner(self_.shape@, n);
 forall|x: int| 0 <= x < res.numel ==> #[trigger] res.at(*final(w), x) == smv(old(w).f@[self_.blk], self_.off as int, D, I, cell(D, I, x)) }),
@at entry
lemma_geo(*self_);
@at exit
assert forall|x: int| 0 <= x < res.numel implies #[trigger] res.at(*w, x) == w.f@[res.blk][x] by {}
@like logsoftmax = tinytorch::op::logSoftmaxOpCpuImpl<float> from softmax /smv/lsv/
@raw
/// sum of output times gradient over the first t elements of a slice
pub open spec fn bsum(y: Seq<F>, yo: int, g: Seq<F>, go: int, b: int, st: int, t: int) -> F decreases t
{ if t <= 0 { sf_int(0) } else { sf_add(bsum(y, yo, g, go, b, st, t - 1), sf_mul(y[yo + (b + (t - 1) * st)], g[go + (b + (t - 1) * st)])) } }
pub open spec fn gsum(y: Seq<F>, yo: int, g: Seq<F>, go: int, b: int, st: int, t: int) -> F decreases t
{ if t <= 0 { sf_int(0) } else { sf_add(gsum(y, yo, g, go, b, st, t - 1), g[go + (b + (t - 1) * st)]) } }
/// gradient through softmax: y * (g - sum over the slice of y * g)
pub open spec fn sgv(y: Seq<F>, yo: int, g: Seq<F>, go: int, D: int, I: int, c: R3) -> F
{ let b = c.o * (D * I) + c.i; let x = b + c.d * I; sf_mul(y[yo + x], sf_sub(g[go + x], bsum(y, yo, g, go, b, I, D))) }
/// gradient through log-softmax: g - exp(y) * sum over the slice of g
pub open spec fn lgv(y: Seq<F>, yo: int, g: Seq<F>, go: int, D: int, I: int, c: R3) -> F
{ let b = c.o * (D * I) + c.i; let x = b + c.d * I; sf_sub(g[go + x], sf_mul(sf_exp(y[yo + x]), gsum(y, yo, g, go, b, I, D))) }
@fn softmax_bwd = tinytorch::op::softmaxOpBackwardCpuImpl<float>
@assume_asserts
@req
grad.wf(*old(w)), output.wf(*old(w)), grad.dt == 0, output.dt == 0, -MAXN() <= dim <= MAXN(),
@ens
okdim(*output, dim as int), grad.shape@ == output.shape@, res.wf(*final(w)), res.shape@ == output.shape@, keeps(*old(w), *final(w)),
({ let n = nrm(dim as int, output.shape.len() as int); let D = output.shape[n] as int; let I = inner(output.shape@, n);
 forall|x: int| 0 <= x < res.numel ==> #[trigger] res.at(*final(w), x) == sgv(old(w).f@[output.blk], output.off as int, old(w).f@[grad.blk], grad.off as int, D, I, cell(D, I, x)) }),
@at entry
lemma_geo(*output); lemma_geo(*grad);
let ghost yy = old(w).f@[output.blk]; let ghost yo = output.off as int; let ghost gg = old(w).f@[grad.blk]; let ghost go = grad.off as int;
@at before /tensor_empty/
let ghost nd = nrm(dim as int, output.shape.len() as int); let ghost O = outer(output.shape@, nd); let ghost D = output.shape[nd] as int; let ghost I = inner(output.shape@, nd);
lemma_axis(output.shape@, nd); lemma_cells(O, D, I);
assert(output.numel == O * (D * I) && grad.numel == output.numel);
@loop 0
frame1(*old(w), *w, out.blk), w.f@[out.blk].len() == out.numel,
forall|y: int| 0 <= y < out.numel && done3(cell(D, I, y), outer as int, 0) ==> #[trigger] w.f@[out.blk][y] == sgv(yy, yo, gg, go, D, I, cell(D, I, y)),
@at loop0.begin
lemma_row(outer as int, O, D * I);
lemma_od(outer as int, O, D, I, output.shape@, nd);
@loop 1
frame1(*old(w), *w, out.blk), w.f@[out.blk].len() == out.numel,
forall|y: int| 0 <= y < out.numel && done3(cell(D, I, y), outer as int, i as int) ==> #[trigger] w.f@[out.blk][y] == sgv(yy, yo, gg, go, D, I, cell(D, I, y)),
@loop 2
offset == base + d * I, sum == bsum(yy, yo, gg, go, base as int, I, d as int), d <= D,
@at loop2.before
assert(0 * I == 0);
@at loop2.begin
lemma_addr3(O, D, I, R3 { o: outer as int, d: d as int, i: i as int });
@loop 3
offset == base + d * I, d <= D,
frame1(*old(w), *w, out.blk), w.f@[out.blk].len() == out.numel,
forall|y: int| 0 <= y < out.numel && (done3(cell(D, I, y), outer as int, i as int) || (cell(D, I, y).o == outer && cell(D, I, y).i == i && cell(D, I, y).d < d)) ==> #[trigger] w.f@[out.blk][y] == sgv(yy, yo, gg, go, D, I, cell(D, I, y)),
@at loop3.begin
lemma_addr3(O, D, I, R3 { o: outer as int, d: d as int, i: i as int });
@like logsoftmax_bwd = tinytorch::op::logSoftmaxOpBackwardCpuImpl<float> from softmax_bwd /sgv/lgv/ /bsum/gsum/
@raw
/// sum of the first t elements of the row at b
pub open spec fn lsum(m: Seq<F>, b: int, t: int) -> F decreases t { if t <= 0 { sf_int(0) } else { sf_add(lsum(m, b, t - 1), m[b + t - 1]) } }
/// sum of squared deviations from c
pub open spec fn lvar(m: Seq<F>, b: int, c: F, t: int) -> F decreases t
{ if t <= 0 { sf_int(0) } else { sf_add(lvar(m, b, c, t - 1), sf_mul(sf_sub(m[b + t - 1], c), sf_sub(m[b + t - 1], c))) } }
pub open spec fn lsq(m: Seq<F>, b: int, t: int) -> F decreases t { if t <= 0 { sf_int(0) } else { sf_add(lsq(m, b, t - 1), sf_mul(m[b + t - 1], m[b + t - 1])) } }
/// scale and shift by the parameters that are there
pub open spec fn scaled(x: F, wt: Tensor, bs: Tensor, w: World, j: int) -> F
{ let y = if tdef(wt) { sf_mul(x, wt.at(w, j)) } else { x }; if tdef(bs) { sf_add(y, bs.at(w, j)) } else { y } }
/// element j of the normalised row that starts at b and has n elements
pub open spec fn lnrow(w: World, m: Seq<F>, b: int, n: int, wt: Tensor, bs: Tensor, eps: F, j: int) -> F {
    let mean = sf_div(lsum(m, b, n), sf_int(n)); let inv = sf_div(sf_int(1), sf_sqrt(sf_add(sf_div(lvar(m, b, mean, n), sf_int(n)), eps)));
    scaled(sf_mul(sf_sub(m[b + j], mean), inv), wt, bs, w, j)
}
pub open spec fn rmrow(w: World, m: Seq<F>, b: int, n: int, wt: Tensor, bs: Tensor, eps: F, j: int) -> F {
    let inv = sf_div(sf_int(1), sf_sqrt(sf_add(sf_div(lsq(m, b, n), sf_int(n)), eps)));
    let x = sf_mul(m[b + j], inv); if tdef(wt) { sf_mul(x, wt.at(w, j)) } else { x }
}
#[verifier::opaque]
pub open spec fn lnel(w: World, m: Seq<F>, o: int, n: int, wt: Tensor, bs: Tensor, eps: F, x: int) -> F { lnrow(w, m, o + (x / n) * n, n, wt, bs, eps, x % n) }
#[verifier::opaque]
pub open spec fn rmel(w: World, m: Seq<F>, o: int, n: int, wt: Tensor, bs: Tensor, eps: F, x: int) -> F { rmrow(w, m, o + (x / n) * n, n, wt, bs, eps, x % n) }
pub proof fn lemma_ln(w: World, m: Seq<F>, o: int, n: int, wt: Tensor, bs: Tensor, eps: F, i: int)
    ensures forall|x: int| i * n <= x < i * n + n ==> #[trigger] lnel(w, m, o, n, wt, bs, eps, x) == lnrow(w, m, o + i * n, n, wt, bs, eps, x - i * n)
{ reveal(lnel); assert forall|x: int| i * n <= x < i * n + n implies #[trigger] lnel(w, m, o, n, wt, bs, eps, x) == lnrow(w, m, o + i * n, n, wt, bs, eps, x - i * n) by { lemma_mod_unique(x, n, i, x - i * n); } }
pub proof fn lemma_rm(w: World, m: Seq<F>, o: int, n: int, wt: Tensor, bs: Tensor, eps: F, i: int)
    ensures forall|x: int| i * n <= x < i * n + n ==> #[trigger] rmel(w, m, o, n, wt, bs, eps, x) == rmrow(w, m, o + i * n, n, wt, bs, eps, x - i * n)
{ reveal(rmel); assert forall|x: int| i * n <= x < i * n + n implies #[trigger] rmel(w, m, o, n, wt, bs, eps, x) == rmrow(w, m, o + i * n, n, wt, bs, eps, x - i * n) by { lemma_mod_unique(x, n, i, x - i * n); } }
/// a parameter of n elements, or none; no block has the null address
pub open spec fn param(t: Tensor, w: World, n: int) -> bool { tdef(t) ==> t.wf(w) && t.numel == n && t.blk != u64::MAX }
@fn layer_norm = tinytorch::op::normOpCpuImplDetail<float, 0>
@assume_asserts
@req
self_.wf(*old(w)), self_.dt == 0, self_.shape.len() > 0, self_.shape[self_.shape.len() - 1] > 0,
param(*weight, *old(w), self_.shape[self_.shape.len() - 1] as int), param(*bias, *old(w), self_.shape[self_.shape.len() - 1] as int),
@ens
normalizedShape@ == seq![self_.shape[self_.shape.len() - 1]],
res.wf(*final(w)), res.shape@ == self_.shape@, keeps(*old(w), *final(w)),
forall|x: int| 0 <= x < res.numel ==> res.at(*final(w), x) == #[trigger] lnel(*old(w), old(w).f@[self_.blk], self_.off as int, self_.shape[self_.shape.len() - 1] as int, *weight, *bias, eps, x),
@at entry
lemma_geo(*self_);
let ghost n = self_.shape[self_.shape.len() - 1] as int; let ghost m0 = old(w).f@[self_.blk]; let ghost so = self_.off as int;
lemma_axis(self_.shape@, self_.shape.len() - 1);
assert(sp(self_.shape@, self_.shape.len() as int) == 1); assert(inner(self_.shape@, self_.shape.len() - 1) == 1); assert(n * 1 == n);
let ghost O = outer(self_.shape@, self_.shape.len() - 1);
assert(self_.numel == O * n); lemma_mod_unique(O * n, n, O, 0);
@at loop0.before
assert(numRows == O); assert(normalizedShape@ =~= seq![n as i64]); assert(0 * n == 0);
@loop 0
frame1(*old(w), *w, out.blk), w.f@[out.blk].len() == out.numel,
forall|x: int| 0 <= x < i * n ==> #[trigger] w.f@[out.blk][x] == lnel(*old(w), m0, so, n, *weight, *bias, eps, x),
@at loop0.begin
lemma_row(i as int, O, n); lemma_ln(*old(w), m0, so, n, *weight, *bias, eps, i as int);
@loop 1
mean == lsum(m0, so + i * n, j as int),
@loop 2
var == lvar(m0, so + i * n, mean, j as int),
@loop 3
frame1(*old(w), *w, out.blk), w.f@[out.blk].len() == out.numel,
forall|x: int| 0 <= x < i * n + j ==> #[trigger] w.f@[out.blk][x] == lnel(*old(w), m0, so, n, *weight, *bias, eps, x),
@at loop3.begin
assert(lnel(*old(w), m0, so, n, *weight, *bias, eps, i * n + j) == lnrow(*old(w), m0, so + i * n, n, *weight, *bias, eps, j as int));
@fn rms_norm = tinytorch::op::normOpCpuImplDetail<float, 1>
@assume_asserts
@req
self_.wf(*old(w)), self_.dt == 0, self_.shape.len() > 0, self_.shape[self_.shape.len() - 1] > 0,
param(*weight, *old(w), self_.shape[self_.shape.len() - 1] as int), param(*bias, *old(w), self_.shape[self_.shape.len() - 1] as int),
@ens
normalizedShape@ == seq![self_.shape[self_.shape.len() - 1]],
res.wf(*final(w)), res.shape@ == self_.shape@, keeps(*old(w), *final(w)),
forall|x: int| 0 <= x < res.numel ==> res.at(*final(w), x) == #[trigger] rmel(*old(w), old(w).f@[self_.blk], self_.off as int, self_.shape[self_.shape.len() - 1] as int, *weight, *bias, eps, x),
@at entry
lemma_geo(*self_);
let ghost n = self_.shape[self_.shape.len() - 1] as int; let ghost m0 = old(w).f@[self_.blk]; let ghost so = self_.off as int;
lemma_axis(self_.shape@, self_.shape.len() - 1);
assert(sp(self_.shape@, self_.shape.len() as int) == 1); assert(inner(self_.shape@, self_.shape.len() - 1) == 1); assert(n * 1 == n);
let ghost O = outer(self_.shape@, self_.shape.len() - 1);
assert(self_.numel == O * n); lemma_mod_unique(O * n, n, O, 0);
@at loop0.before
assert(numRows == O); assert(normalizedShape@ =~= seq![n as i64]); assert(0 * n == 0);
@loop 0
frame1(*old(w), *w, out.blk), w.f@[out.blk].len() == out.numel,
forall|x: int| 0 <= x < i * n ==> #[trigger] w.f@[out.blk][x] == rmel(*old(w), m0, so, n, *weight, *bias, eps, x),
@at loop0.begin
lemma_row(i as int, O, n); lemma_rm(*old(w), m0, so, n, *weight, *bias, eps, i as int);
@loop 1
meanSquare == lsq(m0, so + i * n, j as int),
@loop 2
frame1(*old(w), *w, out.blk), w.f@[out.blk].len() == out.numel,
forall|x: int| 0 <= x < i * n + j ==> #[trigger] w.f@[out.blk][x] == rmel(*old(w), m0, so, n, *weight, *bias, eps, x),
@at loop2.begin
assert(rmel(*old(w), m0, so, n, *weight, *bias, eps, i * n + j) == rmrow(*old(w), m0, so + i * n, n, *weight, *bias, eps, j as int));
@raw
/// element j (of hd) of the rotated row that starts at b; its table row starts at q
pub open spec fn rprow(m: Seq<F>, b: int, r: Seq<F>, q: int, hd: int, j: int) -> F {
    let h = hd / 2; let i = if j < h { j } else { j - h };
    if j < h { sf_sub(sf_mul(m[b + i], r[q + 2 * i]), sf_mul(m[b + h + i], r[q + 2 * i + 1])) } else { sf_add(sf_mul(m[b + h + i], r[q + 2 * i]), sf_mul(m[b + i], r[q + 2 * i + 1])) }
}
/// element x of the result: row x / hd, sequence position (x / hd) % S
#[verifier::opaque]
pub open spec fn rpel(m: Seq<F>, o: int, r: Seq<F>, ro: int, hd: int, S: int, offset: int, x: int) -> F
{ rprow(m, o + (x / hd) * hd, r, ro + ((offset + (x / hd) % S) * hd) * 2, hd, x % hd) }
pub proof fn lemma_rp(m: Seq<F>, o: int, r: Seq<F>, ro: int, hd: int, S: int, offset: int, q: int, t: int)
    requires 0 <= t < S
    ensures forall|x: int| (q * S + t) * hd <= x < (q * S + t) * hd + hd ==> #[trigger] rpel(m, o, r, ro, hd, S, offset, x) == rprow(m, o + (q * S + t) * hd, r, ro + ((offset + t) * hd) * 2, hd, x - (q * S + t) * hd)
{
    reveal(rpel); let R = q * S + t; lemma_mod_unique(R, S, q, t);
    assert forall|x: int| R * hd <= x < R * hd + hd implies #[trigger] rpel(m, o, r, ro, hd, S, offset, x) == rprow(m, o + R * hd, r, ro + ((offset + t) * hd) * 2, hd, x - R * hd) by { lemma_mod_unique(x, hd, R, x - R * hd); }
}
pub proof fn lemma_rope(b: int, B: int, h: int, H: int, t: int, S: int, hd: int)
    requires 0 <= b < B, 0 <= h < H, 0 <= t < S, 0 <= hd
    ensures ({ let q = b * H + h; let R = q * S + t; 0 <= b * H && 0 <= q < B * H && 0 <= q * S && 0 <= R < (B * H) * S && 0 <= R * hd && R * hd + hd <= ((B * H) * S) * hd && (R + 1) * hd == R * hd + hd })
{ let q = b * H + h; let R = q * S + t; lemma_row(b, B, H); lemma_row(q, B * H, S); lemma_row(R, (B * H) * S, hd); }
@fn rope_apply = tinytorch::op::ropeApplyOpCpuImpl<float>
@assume_asserts
@req
input.wf(*old(w)), rope.wf(*old(w)), input.dt == 0, rope.dt == 0, 0 <= offset,
input.shape.len() == 4 ==> ({ let S = input.shape[2]; let hd = input.shape[3]; offset + S <= MAXN() && ((offset + S) * hd) * 2 <= rope.numel }),
@ens
input.shape.len() == 4, input.shape[3] % 2 == 0,
res.wf(*final(w)), res.shape@ == input.shape@, keeps(*old(w), *final(w)),
forall|x: int| 0 <= x < res.numel ==> res.at(*final(w), x) == #[trigger] rpel(old(w).f@[input.blk], input.off as int, old(w).f@[rope.blk], rope.off as int, input.shape[3] as int, input.shape[2] as int, offset as int, x),
@at entry
lemma_geo(*input);
let ghost m0 = old(w).f@[input.blk]; let ghost so = input.off as int; let ghost r0 = old(w).f@[rope.blk]; let ghost ro = rope.off as int; 
@at before /tensor_empty/
lemma_fits(input.shape@);
let ghost B = input.shape[0] as int; let ghost H = input.shape[1] as int; let ghost S = input.shape[2] as int; let ghost hd = input.shape[3] as int;
lemma_four(input.shape@);
assert(headDim >> 1 == headDim / 2) by (bit_vector) requires headDim >= 0;
assert(halfDim * 2 == hd);
@at loop0.before
assert(((0 * H) * S) * hd == 0) by (nonlinear_arith);
@loop 0
frame1(*old(w), *w, out.blk), w.f@[out.blk].len() == out.numel,
forall|x: int| 0 <= x < ((b * H) * S) * hd ==> #[trigger] w.f@[out.blk][x] == rpel(m0, so, r0, ro, hd, S, offset as int, x),
@at loop0.begin
assert((b * H + 0) * S == (b * H) * S);
@loop 1
frame1(*old(w), *w, out.blk), w.f@[out.blk].len() == out.numel,
forall|x: int| 0 <= x < ((b * H + h) * S) * hd ==> #[trigger] w.f@[out.blk][x] == rpel(m0, so, r0, ro, hd, S, offset as int, x),
@at loop1.begin
assert(((b * H + h) * S + 0) * hd == ((b * H + h) * S) * hd);
@loop 2
frame1(*old(w), *w, out.blk), w.f@[out.blk].len() == out.numel,
forall|x: int| 0 <= x < ((b * H + h) * S + t) * hd ==> #[trigger] w.f@[out.blk][x] == rpel(m0, so, r0, ro, hd, S, offset as int, x),
@at loop2.begin
lemma_rope(b as int, B, h as int, H, t as int, S, hd);
lemma_rp(m0, so, r0, ro, hd, S, offset as int, b * H + h, t as int);
lemma_row(offset + t, offset + S, hd);
let ghost R = (b * H + h) * S + t; let ghost rb = ((offset + t) * hd) * 2;
@loop 3
frame1(*old(w), *w, out.blk), w.f@[out.blk].len() == out.numel,
forall|x: int| 0 <= x < R * hd + hd && (x < R * hd + i || R * hd + halfDim <= x < R * hd + halfDim + i) ==> #[trigger] w.f@[out.blk][x] == rpel(m0, so, r0, ro, hd, S, offset as int, x),
@at loop3.begin
assert(rpel(m0, so, r0, ro, hd, S, offset as int, R * hd + i) == rprow(m0, so + R * hd, r0, ro + rb, hd, i as int));
assert(rpel(m0, so, r0, ro, hd, S, offset as int, R * hd + halfDim + i) == rprow(m0, so + R * hd, r0, ro + rb, hd, halfDim + i));
@at loop2.end
assert(((b * H + h) * S + (t + 1)) * hd == R * hd + hd) by (nonlinear_arith) requires R == (b * H + h) * S + t;
@at loop1.end
assert((b * H + (h + 1)) * S == (b * H + h) * S + S) by (nonlinear_arith);
@at loop0.end
assert((b + 1) * H == b * H + H) by (nonlinear_arith);
@raw
pub proof fn lemma_four(s: Seq<i64>)
    requires s.len() == 4, nonneg(s), fits(s)
    ensures sp(s, 0) == ((s[0] * s[1]) * s[2]) * s[3], 0 <= s[0] * s[1] <= MAXN(), 0 <= (s[0] * s[1]) * s[2] <= MAXN(), 0 <= s[0] <= MAXN(), 0 <= s[1] <= MAXN(), 0 <= s[2] <= MAXN(), 0 <= s[3] <= MAXN()
{
    lemma_fits(s); assert(pr(s, 0, 0) == 1); assert(1 * s[0] == s[0]);
    lemma_pr_last(s, 0, 0); lemma_pr_last(s, 0, 1); lemma_pr_last(s, 0, 2); lemma_pr_last(s, 0, 3); lemma_pr_sp(s, 0, 4); assert(sp(s, 4) == 1);
    assert(pr(s, 0, 4) * 1 == pr(s, 0, 4)); assert(0 <= pr(s, 0, 2) <= MAXN() && 0 <= pr(s, 0, 3) <= MAXN());
    assert(0 <= s[0] <= MAXN() && 0 <= s[1] <= MAXN() && 0 <= s[2] <= MAXN() && 0 <= s[3] <= MAXN());
}
