@tu
#include "Operation/OpReduceCpu.cpp"
#include "Operation/OpReduce.cpp"
namespace tinytorch::op {
template void ReducerCpu::reduceAll<float, OpCpuReduceMin>(float *output, const float *input, int64_t n);
template void ReducerCpu::reduceAll<float, OpCpuReduceMax>(float *output, const float *input, int64_t n);
template void ReducerCpu::reduceAll<float, OpCpuReduceSum>(float *output, const float *input, int64_t n);
template void ReducerCpu::reduceIdxAll<float, OpCpuReduceMin>(int64_t *output, const float *input, int64_t n);
template void ReducerCpu::reduceIdxAll<float, OpCpuReduceMax>(int64_t *output, const float *input, int64_t n);
template std::pair<Tensor, Tensor> ReducerCpu::reduceIdxDim<float, OpCpuReduceMin>(const Tensor &t, int64_t dim, bool keepDims);
template std::pair<Tensor, Tensor> ReducerCpu::reduceIdxDim<float, OpCpuReduceMax>(const Tensor &t, int64_t dim, bool keepDims);
template Tensor reduceOpAllCpuImpl<float, OpCpuReduceMin>(const Tensor &t);
template Tensor reduceOpAllCpuImpl<float, OpCpuReduceMax>(const Tensor &t);
template Tensor reduceOpAllCpuImpl<float, OpCpuReduceSum>(const Tensor &t);
template Tensor reduceOpArgMinMaxCpuImpl<float, OpCpuReduceMin>(const Tensor &t);
template Tensor reduceOpArgMinMaxCpuImpl<float, OpCpuReduceMax>(const Tensor &t);
template Tensor reduceOpMeanCpuImpl<float>(const Tensor &t);
template Tensor reduceOpMeanDimsCpuImpl<float>(const Tensor &t, const IntArrayView dims, bool keepDims);
template TensorPair reduceOpVarMeanCpuImpl<float>(const Tensor &t, bool unbiased);
template TensorPair reduceOpVarMeanDimsCpuImpl<float>(const Tensor &t, const IntArrayView dims, bool unbiased, bool keepDims);
template Tensor reduceOpSumDimsCpuImpl<float>(const Tensor &t, const IntArrayView dims, bool keepDims);
}
@prelude base float nd tensor
@opt call=tinytorch::op::mulInplace/2=>! mul_scalar_inplace(w, $m0, $r1)
@opt call=tinytorch::op::mean/1=>= mean_all(w, $r0)
@opt call=tinytorch::op::meanOnDims/3=>= mean_dims(w, $r0, $r1, $2)
@opt call=tinytorch::op::reshapeInplace/2=>! tensor_reshape_inplace(w, $m0, $r1)
@raw
pub open spec fn nrm(d: int, n: int) -> int { if d < 0 { d + n } else { d } }
pub open spec fn fold_min(m: Seq<F>, o: int, n: int) -> F decreases n { if n <= 0 { sf_inf() } else { sf_min(m[o + n - 1], fold_min(m, o, n - 1)) } }
pub open spec fn fold_max(m: Seq<F>, o: int, n: int) -> F decreases n { if n <= 0 { sf_neg(sf_inf()) } else { sf_max(m[o + n - 1], fold_max(m, o, n - 1)) } }
pub open spec fn fold_sum(m: Seq<F>, o: int, n: int) -> F decreases n { if n <= 0 { sf_int(0) } else { sf_add(m[o + n - 1], fold_sum(m, o, n - 1)) } }
@fn reduce_all_min = tinytorch::op::ReducerCpu::reduceAll<float,tinytorch::op::OpCpuReduceMin>
@req
inb(old(w).f@, output.b, output.o as int), 0 <= n <= MAXN(), 0 <= input.o <= MAXN(), old(w).f@.dom().contains(input.b), input.o + n <= old(w).f@[input.b].len(),
@ens
final(w).f@ == old(w).f@.insert(output.b, old(w).f@[output.b].update(output.o as int, fold_min(old(w).f@[input.b], input.o as int, n as int))),
final(w).i == old(w).i, final(w).b == old(w).b,
@loop 0
*w == *old(w), val == fold_min(w.f@[input.b], input.o as int, i as int),
@like reduce_all_max = tinytorch::op::ReducerCpu::reduceAll<float,tinytorch::op::OpCpuReduceMax> from reduce_all_min /fold_min/fold_max/
@like reduce_all_sum = tinytorch::op::ReducerCpu::reduceAll<float,tinytorch::op::OpCpuReduceSum> from reduce_all_min /fold_min/fold_sum/
@raw
/// argmin/argmax over the first n elements: (best value, its index); the first of equals wins
pub open spec fn arg_min(m: Seq<F>, o: int, st: int, n: int) -> (F, int) decreases n
{ if n <= 0 { (sf_inf(), 0) } else { let p = arg_min(m, o, st, n - 1); let x = m[o + (n - 1) * st]; if sf_lt(x, p.0) { (x, n - 1) } else { p } } }
pub open spec fn arg_max(m: Seq<F>, o: int, st: int, n: int) -> (F, int) decreases n
{ if n <= 0 { (sf_neg(sf_inf()), 0) } else { let p = arg_max(m, o, st, n - 1); let x = m[o + (n - 1) * st]; if sf_gt(x, p.0) { (x, n - 1) } else { p } } }
pub open spec fn idx_min(m: Seq<F>, o: int, n: int) -> (F, int) decreases n
{ if n <= 0 { (sf_inf(), 0) } else { let p = idx_min(m, o, n - 1); let x = m[o + n - 1]; if sf_ne(sf_min(p.0, x), p.0) { (x, n - 1) } else { p } } }
pub open spec fn idx_max(m: Seq<F>, o: int, n: int) -> (F, int) decreases n
{ if n <= 0 { (sf_neg(sf_inf()), 0) } else { let p = idx_max(m, o, n - 1); let x = m[o + n - 1]; if sf_ne(sf_max(p.0, x), p.0) { (x, n - 1) } else { p } } }
@fn reduce_idx_min = tinytorch::op::ReducerCpu::reduceIdxAll<float,tinytorch::op::OpCpuReduceMin>
@req
inb(old(w).i@, output.b, output.o as int), 0 <= n <= MAXN(), 0 <= input.o <= MAXN(), old(w).f@.dom().contains(input.b), input.o + n <= old(w).f@[input.b].len(),
@ens
final(w).i@ == old(w).i@.insert(output.b, old(w).i@[output.b].update(output.o as int, idx_min(old(w).f@[input.b], input.o as int, n as int).1 as i64)),
final(w).f == old(w).f, final(w).b == old(w).b,
0 <= idx_min(old(w).f@[input.b], input.o as int, n as int).1, n > 0 ==> idx_min(old(w).f@[input.b], input.o as int, n as int).1 < n,
@loop 0
*w == *old(w), val == idx_min(w.f@[input.b], input.o as int, i as int).0, valIdx == idx_min(w.f@[input.b], input.o as int, i as int).1,
0 <= valIdx, i > 0 ==> valIdx < i,
@like reduce_idx_max = tinytorch::op::ReducerCpu::reduceIdxAll<float,tinytorch::op::OpCpuReduceMax> from reduce_idx_min /idx_min/idx_max/
@raw
/// r is the shape of s reduced over axis d
pub open spec fn redshape(s: Seq<i64>, d: int, keep: bool) -> Seq<i64> { if keep { s.update(d, 1) } else { s.remove(d) } }
pub proof fn lemma_red(s: Seq<i64>, d: int, keep: bool, k: int)
    requires 0 <= d < s.len(), 0 <= k <= s.len()
    ensures k <= d ==> sp(s, k) == s[d] * sp(redshape(s, d, keep), k),
        k > d ==> sp(s, k) == sp(redshape(s, d, keep), if keep { k } else { k - 1 }),
    decreases s.len() - k
{
    let r = redshape(s, d, keep);
    if k < s.len() {
        lemma_red(s, d, keep, k + 1);
        if k < d {
            assert(sp(s, k) == s[k] * sp(s, k + 1)); assert(r[k] == s[k]); assert(sp(r, k) == r[k] * sp(r, k + 1));
            assert(s[k] * (s[d] * sp(r, k + 1)) == s[d] * (s[k] * sp(r, k + 1))) by (nonlinear_arith);
        } else if k == d {
            if keep { assert(sp(r, d) == r[d] * sp(r, d + 1)); assert(1 * sp(r, d + 1) == sp(r, d + 1)); } else { }
        } else {
            if keep { assert(r[k] == s[k]); assert(sp(r, k) == r[k] * sp(r, k + 1)); } else { assert(r[k - 1] == s[k]); assert(sp(r, k - 1) == r[k - 1] * sp(r, k)); }
        }
    } else if !keep { assert(sp(r, r.len() as int) == 1); assert(sp(s, s.len() as int) == 1); }
    else { assert(sp(r, r.len() as int) == 1); assert(sp(s, s.len() as int) == 1); }
}
pub proof fn lemma_red_np(s: Seq<i64>, d: int, k: int)
    requires 0 <= d < s.len(), 0 <= k < s.len()
    ensures 1 <= np(s.remove(d), k) <= np(s, k)
    decreases s.len() - k
{
    let r = s.remove(d);
    if k >= d { 
        lemma_np_shift(s, d, k); lemma_np_mono(s, k, k + 1); lemma_np_mono(s, k + 1, k + 1);
    } else {
        lemma_red_np(s, d, k + 1); 
        assert(r[k] == s[k]);
        let a = nz(s[k] as int); let y = np(r, k + 1); let z = np(s, k + 1);
        assert(1 <= a * y <= a * z) by (nonlinear_arith) requires 1 <= a, 1 <= y <= z;
    }
}
pub proof fn lemma_np_shift(s: Seq<i64>, d: int, k: int)
    requires 0 <= d <= k < s.len()
    ensures np(s.remove(d), k) == np(s, k + 1)
    decreases s.len() - k
{ if k + 1 < s.len() { lemma_np_shift(s, d, k + 1); assert(s.remove(d)[k] == s[k + 1]); } }
/// the reduced shape is a legal shape; the axis splits it into outer x inner
pub proof fn lemma_red_shape(s: Seq<i64>, d: int, keep: bool)
    requires 0 <= d < s.len(), nonneg(s), fits(s), s[d] > 0
    ensures nonneg(redshape(s, d, keep)), fits(redshape(s, d, keep)), sp(redshape(s, d, keep), 0) == outer(s, d) * inner(s, d), sp(s, 0) == s[d] * sp(redshape(s, d, keep), 0),
        0 <= outer(s, d) * inner(s, d) <= MAXN()
{
    let r = redshape(s, d, keep);
    if keep { lemma_axis_upd(s, d, 1); } else { lemma_red_np(s, d, 0); lemma_np_mono(s, 0, 0); }
    assert(forall|k: int| 0 <= k < r.len() ==> #[trigger] r[k] == (if keep { if k == d { 1 } else { s[k] } } else if k < d { s[k] } else { s[k + 1] }));
    lemma_red(s, d, keep, 0); lemma_fits(r); lemma_axis(s, d);
    lemma_pr_sp(r, 0, d); lemma_pr_eq(s, r, 0, d); lemma_red(s, d, keep, d + 1);
    if keep { assert(sp(r, d) == r[d] * sp(r, d + 1)); assert(1 * sp(r, d + 1) == sp(r, d + 1)); }
    assert(0 <= sp(r, 0) <= MAXN());
}
/// linear index in the input of element 0 of the row that output element i reduces
pub open spec fn red_src(s: Seq<i64>, d: int, i: int) -> int { (i / inner(s, d)) * (s[d] * inner(s, d)) + i % inner(s, d) }
pub open spec fn row_min(t: Tensor, m: Seq<F>, d: int, i: int) -> (F, int) { arg_min(m, t.off + red_src(t.shape@, d, i), inner(t.shape@, d), t.shape[d] as int) }
pub open spec fn row_max(t: Tensor, m: Seq<F>, d: int, i: int) -> (F, int) { arg_max(m, t.off + red_src(t.shape@, d, i), inner(t.shape@, d), t.shape[d] as int) }
/// value of the index accumulator after the dimensions >= k of the output have been visited
pub open spec fn red_acc(s: Seq<i64>, d: int, keep: bool, i: int, k: int) -> int {
    let r = redshape(s, d, keep); let I = inner(s, d);
    if k > d || (keep && k == d) || (!keep && k == d) { i % sp(r, k) } else { i % I + s[d] * (i % sp(r, k) - i % I) }
}
@fn get_reduce_shape = tinytorch::op::getReduceShape(const Tensor &, int64_t, bool)
@w none
@req
t.geo(), 0 <= dim < t.shape.len(),
@ens
res@ == redshape(t.shape@, dim as int, keepDims),
@loop 0
retShape@ == (if d <= dim { t.shape@.subrange(0, d as int) } else { redshape(t.shape@.subrange(0, d as int), dim as int, keepDims) }),
@at loop0.begin
assert(t.shape@.subrange(0, d as int).push(t.shape@[d as int]) =~= t.shape@.subrange(0, d as int + 1));
@at loop0.end
assert(retShape@ =~= (if d < dim { t.shape@.subrange(0, d + 1) } else { redshape(t.shape@.subrange(0, d + 1), dim as int, keepDims) }));
@at exit
assert(t.shape@.subrange(0, t.shape.len() as int) =~= t.shape@);
@raw
pub proof fn lemma_acc_step(i: int, q: int, rk: int)
    requires q > 0, rk > 0, i >= 0
    ensures i % (rk * q) == ((i / q) % rk) * q + i % q, 0 <= (i / q) % rk < rk, 0 <= i % q < q, (i / q) / rk == i / (rk * q), rk * q > 0,
        0 <= ((i / q) % rk) * q <= rk * q
{
    lemma_div_mod(i, rk, q);
    let X = i % (rk * q); let c = (i / q) % rk; let Y = i % q;
    assert(rk * q > 0) by (nonlinear_arith) requires q > 0, rk > 0;
    assert(X == c * q + Y) by (nonlinear_arith) requires q > 0, X / q == c, X % q == Y;
    assert((i / q) / rk == i / (rk * q)) by (nonlinear_arith) requires q > 0, rk > 0, i >= 0;
    assert(0 <= c * q <= rk * q) by (nonlinear_arith) requires 0 <= c < rk, q > 0;
}
pub proof fn lemma_acc_lo(i: int, I: int, m: int, rk: int, D: int)
    requires I > 0, m > 0, rk > 0, D > 0, i >= 0
    ensures ({ let q = m * I; let c = (i / q) % rk; let a = i % I;
        &&& a + D * (i % (rk * q) - a) == a + D * (i % q - a) + c * (D * q)
        &&& 0 <= a + D * (i % q - a) <= D * q && 0 <= c * (D * q) <= rk * (D * q) && q > 0 })
{
    let q = m * I; let c = (i / q) % rk; let a = i % I; let Y = i % q;
    assert(q > 0) by (nonlinear_arith) requires q == m * I, m > 0, I > 0;
    lemma_acc_step(i, q, rk); lemma_div_mod(i, m, I);
    assert(0 <= a <= Y) by (nonlinear_arith) requires I > 0, Y >= 0, a == Y % I;
    assert(D * (c * q + Y - a) == D * (Y - a) + c * (D * q)) by (nonlinear_arith);
    assert(0 <= D * (Y - a) && a + D * (Y - a) <= D * q) by (nonlinear_arith) requires 0 <= a <= Y, Y < q, D >= 1;
    assert(0 <= c * (D * q) <= rk * (D * q)) by (nonlinear_arith) requires 0 <= c < rk, D * q >= 0, D > 0, q > 0;
}
pub proof fn lemma_red_acc(s: Seq<i64>, d: int, keep: bool, i: int, k: int)
    requires 0 <= d < s.len(), nonneg(s), fits(s), s[d] > 0, 0 <= i < sp(redshape(s, d, keep), 0), 0 <= k < redshape(s, d, keep).len()
    ensures ({ let r = redshape(s, d, keep); let c = (i / sp(r, k + 1)) % (r[k] as int); let st = sp(s, if keep || k < d { k + 1 } else { k + 2 });
        &&& r[k] > 0 && 0 <= c < r[k] && i / sp(r, k + 1) / (r[k] as int) == i / sp(r, k)
        &&& red_acc(s, d, keep, i, k) == red_acc(s, d, keep, i, k + 1) + c * st
        &&& 0 <= red_acc(s, d, keep, i, k + 1) <= MAXN() && 0 <= c * st <= MAXN() && 0 <= st <= MAXN() })
{
    let r = redshape(s, d, keep); let D = s[d] as int; let I = inner(s, d);
    let st = sp(s, if keep || k < d { k + 1 } else { k + 2 });
    lemma_red_shape(s, d, keep); lemma_numel_pos(r, 0); lemma_fits(r); lemma_fits(s); lemma_axis(s, d);
    let q = sp(r, k + 1); let c = (i / q) % (r[k] as int);
    assert(sp(r, k) > 0 && q > 0 && sp(r, k) == r[k] * q && r[k] > 0);
    assert(0 <= sp(r, k) <= MAXN() && 0 <= q <= MAXN()); assert(0 <= st <= MAXN());
    lemma_acc_step(i, q, r[k] as int);
    lemma_red(s, d, keep, d + 1);
    assert(sp(r, d) == I) by { if keep { assert(sp(r, d) == r[d] * sp(r, d + 1)); assert(1 * sp(r, d + 1) == sp(r, d + 1)); } }
    if k >= d {
        if keep && k == d { assert(r[k] == 1); assert(c == 0); assert(0 * st == 0); assert(0 * q == 0); }
        else { if keep { lemma_red(s, d, keep, k + 1); } else { lemma_red(s, d, keep, k + 2); } assert(st == q); }
    } else {
        lemma_pr_sp(r, k + 1, d);
        let m = pr(r, k + 1, d);
        assert(m > 0) by (nonlinear_arith) requires q == m * I, q > 0, I >= 0;
        assert(I > 0) by (nonlinear_arith) requires q == m * I, q > 0, I >= 0;
        lemma_acc_lo(i, I, m, r[k] as int, D);
        lemma_red(s, d, keep, k + 1); lemma_red(s, d, keep, k);
        assert(st == D * q); assert(sp(s, k) == s[k] * st && s[k] == r[k]);
        assert(0 <= sp(s, k) <= MAXN());
        assert(red_acc(s, d, keep, i, k) == i % I + D * (i % sp(r, k) - i % I));
        if k + 1 == d { assert(q == I); assert(D * (i % q - i % I) == 0) by (nonlinear_arith) requires q == I; }
        assert(red_acc(s, d, keep, i, k + 1) == i % I + D * (i % q - i % I));
    }
}
pub proof fn lemma_red_src(s: Seq<i64>, d: int, keep: bool, i: int)
    requires 0 <= d < s.len(), nonneg(s), fits(s), s[d] > 0, 0 <= i < sp(redshape(s, d, keep), 0)
    ensures red_acc(s, d, keep, i, 0) == red_src(s, d, i), red_acc(s, d, keep, i, redshape(s, d, keep).len() as int) == 0,
        inner(s, d) > 0, 0 <= red_src(s, d, i), red_src(s, d, i) + (s[d] - 1) * inner(s, d) < sp(s, 0),
        d == s.len() - 1 ==> red_src(s, d, i) == i * s[d] && inner(s, d) == 1
{
    let r = redshape(s, d, keep); let D = s[d] as int; let I = inner(s, d); let O = outer(s, d);
    lemma_red_shape(s, d, keep); lemma_axis(s, d); lemma_red(s, d, keep, d + 1);
    assert(O * I > i);
    assert(I > 0) by (nonlinear_arith) requires O * I > 0, O >= 0, I >= 0;
    let a = i % I; let b = i / I;
    assert(i == b * I + a && 0 <= a < I) by (nonlinear_arith) requires I > 0, a == i % I, b == i / I;
    assert(0 <= b && b < O) by (nonlinear_arith) requires i == b * I + a, 0 <= a < I, 0 <= i < O * I;
    let R0 = sp(r, 0); assert(R0 == O * I); lemma_mod_unique(i, R0, 0, i);
    assert(sp(r, d) == I) by { if keep { assert(sp(r, d) == r[d] * sp(r, d + 1)); assert(1 * sp(r, d + 1) == sp(r, d + 1)); } }
    assert(D * (b * I) == b * (D * I)) by (nonlinear_arith);
    assert(b * (D * I) + a + (D - 1) * I < O * (D * I) && 0 <= b * (D * I)) by (nonlinear_arith) requires 0 <= b < O, 0 <= a < I, D >= 1;
    if d == 0 { assert(I > i); assert(b == 0 && a == i) by (nonlinear_arith) requires i == b * I + a, 0 <= a < I, 0 <= i < I, b >= 0; assert(0 * (D * I) == 0); assert(D * (i - a) == 0) by (nonlinear_arith) requires i == a; }
    assert(red_acc(s, d, keep, i, 0) == a + D * (i - a));
    assert(sp(r, r.len() as int) == 1); assert(i % 1 == 0);
    if d == s.len() - 1 { assert(I == 1); assert(a == 0 && b == i) by (nonlinear_arith) requires i == b * I + a, 0 <= a < I, I == 1; assert(i * (D * 1) == i * D); }
}
@fn red_src_index = tinytorch::op::ReducerCpu::getReduceSrcIndex
@w none
@req
ret.geo(), t.geo(), 0 <= dim < t.shape.len(), t.shape[dim as int] > 0, ret.shape@ == redshape(t.shape@, dim as int, keepDims), 0 <= idx < ret.numel,
@ens
res == red_src(t.shape@, dim as int, idx as int),
@at entry
lemma_red_src(t.shape@, dim as int, keepDims, idx as int);
@loop 0
-1 <= d < ret.shape.len(), outIndex == idx as int / sp(ret.shape@, d + 1), inIndex == red_acc(t.shape@, dim as int, keepDims, idx as int, d + 1), outIndex >= 0,
@at loop0.before
assert(idx as int / 1 == idx);
@at loop0.begin
lemma_red_acc(t.shape@, dim as int, keepDims, idx as int, d as int);
assert(outIndex as int / (ret.shape@[d as int] as int) >= 0) by (nonlinear_arith) requires outIndex >= 0, ret.shape@[d as int] > 0;
@raw
pub open spec fn lastd(t: Tensor, d: int) -> bool { d == t.shape.len() - 1 }
@fn idx_dim_min_last = tinytorch::op::ReducerCpu::reduceIdxDimImpl<float,tinytorch::op::OpCpuReduceMin,-1>
@req
old(values).wf(*old(w)), old(indices).iwf(*old(w)), t.wf(*old(w)), 0 <= dim < t.shape.len(), t.shape[dim as int] > 0, old(values).blk != t.blk, lastd(*t, dim as int),
old(values).shape@ == redshape(t.shape@, dim as int, keepDims), old(indices).shape@ == old(values).shape@, old(values).dt == t.dt, old(indices).dt == 4,
old(values).off == 0, old(indices).off == 0, old(w).f@[old(values).blk].len() == old(values).numel, old(w).i@[old(indices).blk].len() == old(indices).numel,
@ens
*final(values) == *old(values), *final(indices) == *old(indices), final(w).b == old(w).b,
final(w).f@ =~= old(w).f@.insert(old(values).blk, final(w).f@[old(values).blk]), final(w).f@[old(values).blk].len() == old(values).numel,
final(w).i@ =~= old(w).i@.insert(old(indices).blk, final(w).i@[old(indices).blk]), final(w).i@[old(indices).blk].len() == old(indices).numel,
forall|i: int| 0 <= i < old(values).numel ==> old(values).at(*final(w), i) == (#[trigger] row_min(*t, old(w).f@[t.blk], dim as int, i)).0,
forall|i: int| 0 <= i < old(values).numel ==> old(indices).iat(*final(w), i) == (#[trigger] row_min(*t, old(w).f@[t.blk], dim as int, i)).1,
@at entry
lemma_geo(*t); lemma_geo(*old(values));
@loop 0
*values == *old(values), *indices == *old(indices), w.b == old(w).b,
w.f@ =~= old(w).f@.insert(values.blk, w.f@[values.blk]), w.f@[values.blk].len() == values.numel,
w.i@ =~= old(w).i@.insert(indices.blk, w.i@[indices.blk]), w.i@[indices.blk].len() == indices.numel,
forall|k: int| 0 <= k < i ==> values.at(*w, k) == (#[trigger] row_min(*t, old(w).f@[t.blk], dim as int, k)).0,
forall|k: int| 0 <= k < i ==> indices.iat(*w, k) == (#[trigger] row_min(*t, old(w).f@[t.blk], dim as int, k)).1,
@at loop0.begin
lemma_red_src(t.shape@, dim as int, keepDims, i as int);
let ghost s0 = red_src(t.shape@, dim as int, i as int);
let ghost I = inner(t.shape@, dim as int);
lemma_axis(t.shape@, dim as int);
assert(0 * I == 0);
@loop 1
0 <= j, srcIdx == s0 + j * I, 0 <= targetIdx, j > 0 ==> targetIdx < j,
targetVal == arg_min(old(w).f@[t.blk], t.off + s0, I, j as int).0,
targetIdx == arg_min(old(w).f@[t.blk], t.off + s0, I, j as int).1,
@at loop1.begin
assert(0 <= j * I && j * I <= (dimSize - 1) * I && (j + 1) * I == j * I + I) by (nonlinear_arith) requires 0 <= j, j <= dimSize - 1, I >= 0;
assert(I <= MAXN());
@like idx_dim_min = tinytorch::op::ReducerCpu::reduceIdxDimImpl<float,tinytorch::op::OpCpuReduceMin,0> from idx_dim_min_last /, lastd\(\*t, dim as int\)//
@like idx_dim_max_last = tinytorch::op::ReducerCpu::reduceIdxDimImpl<float,tinytorch::op::OpCpuReduceMax,-1> from idx_dim_min_last /_min\(/_max(/
@like idx_dim_max = tinytorch::op::ReducerCpu::reduceIdxDimImpl<float,tinytorch::op::OpCpuReduceMax,0> from idx_dim_max_last /, lastd\(\*t, dim as int\)//
@fn min_on_dim = tinytorch::op::ReducerCpu::reduceIdxDim<float,tinytorch::op::OpCpuReduceMin>
@req
t.wf(*old(w)), -t.shape.len() <= dim < t.shape.len(), t.shape[nrm(dim as int, t.shape.len() as int)] > 0, t.dt == 0
@ens
res.0.wf(*final(w)), res.1.iwf(*final(w)), res.0.shape@ == redshape(t.shape@, nrm(dim as int, t.shape.len() as int), keepDims), res.1.shape@ == res.0.shape@,
forall|i: int| 0 <= i < res.0.numel ==> res.0.at(*final(w), i) == (#[trigger] row_min(*t, old(w).f@[t.blk], nrm(dim as int, t.shape.len() as int), i)).0,
forall|i: int| 0 <= i < res.0.numel ==> res.1.iat(*final(w), i) == (#[trigger] row_min(*t, old(w).f@[t.blk], nrm(dim as int, t.shape.len() as int), i)).1,
@at entry
lemma_geo(*t); lemma_red_shape(t.shape@, nrm(dim as int, t.shape.len() as int), keepDims);
let ghost old_dim = dim as int;
@at before /if dim == /
assert(w.f@[t.blk] == old(w).f@[t.blk]); assert(dim == nrm(old_dim, t.shape.len() as int));
@like max_on_dim = tinytorch::op::ReducerCpu::reduceIdxDim<float,tinytorch::op::OpCpuReduceMax> from min_on_dim /_min\(/_max(/
@raw
/// shape with the reduced axes (mask != 0) collapsed to one
pub open spec fn kept(s: Seq<i64>, mask: Seq<i64>) -> Seq<i64> { Seq::new(s.len(), |k: int| if mask[k] != 0 { 1i64 } else { s[k] }) }
/// result shape: the reduced axes dropped (or kept as one)
pub open spec fn filt(s: Seq<i64>, mask: Seq<i64>, keep: bool, k: int) -> Seq<i64> decreases k
{ if k <= 0 { Seq::empty() } else { let p = filt(s, mask, keep, k - 1); if mask[k - 1] != 0 { if keep { p.push(1i64) } else { p } } else { p.push(s[k - 1]) } } }
pub open spec fn mask_of(dims: Seq<i64>, n: int, k: int) -> Seq<i64> decreases k
{ if k <= 0 { Seq::new(8, |j: int| 0i64) } else { mask_of(dims, n, k - 1).update(nrm(dims[k - 1] as int, n), 1i64) } }
/// linear index in the result of the element that input element i is accumulated into
pub open spec fn red_dst(s: Seq<i64>, mask: Seq<i64>, i: int, k: int) -> int decreases s.len() - k
{ if k < 0 || k >= s.len() { 0 } else { (if mask[k] != 0 { 0 } else { coord(s, i, k) * sp(kept(s, mask), k + 1) }) + red_dst(s, mask, i, k + 1) } }
/// sum of the first k elements that belong to result element i, in storage order
pub open spec fn sum_to(s: Seq<i64>, mask: Seq<i64>, m: Seq<F>, off: int, i: int, k: int) -> F decreases k
{ if k <= 0 { sf_int(0) } else if red_dst(s, mask, k - 1, 0) == i { sf_add(sum_to(s, mask, m, off, i, k - 1), m[off + k - 1]) } else { sum_to(s, mask, m, off, i, k - 1) } }
pub proof fn lemma_mask_len(dims: Seq<i64>, n: int, k: int)
    ensures mask_of(dims, n, k).len() == 8
    decreases k
{ if k > 0 { lemma_mask_len(dims, n, k - 1); } }
pub proof fn lemma_filt(s: Seq<i64>, mask: Seq<i64>, keep: bool, k: int)
    requires nonneg(s), 0 <= k <= s.len()
    ensures nonneg(filt(s, mask, keep, k)), filt(s, mask, keep, k).len() <= k, 1 <= np(filt(s, mask, keep, k), 0) <= np(s.subrange(0, k), 0),
        sp(filt(s, mask, keep, k), 0) == pr(kept(s, mask), 0, k)
    decreases k
{
    if k > 0 {
        lemma_filt(s, mask, keep, k - 1);
        let p = filt(s, mask, keep, k - 1); let f = filt(s, mask, keep, k); let q = s.subrange(0, k - 1);
        assert(s.subrange(0, k) =~= q.push(s[k - 1]));
        lemma_np_push(q, s[k - 1], 0); lemma_np_mono(q, 0, 0);
        lemma_pr_last(kept(s, mask), 0, k - 1);
        let x = nz(s[k - 1] as int); let a = np(p, 0); let b = np(q, 0);
        assert(a <= b * x && 1 <= a * x <= b * x) by (nonlinear_arith) requires 1 <= a <= b, 1 <= x;
        if mask[k - 1] != 0 { if keep { lemma_np_push(p, 1, 0); lemma_sp_push(p, 1, 0); } assert(pr(kept(s, mask), 0, k - 1) * 1 == pr(kept(s, mask), 0, k - 1)); assert(sp(p, 0) * 1 == sp(p, 0)); assert(a * 1 == a); }
        else { lemma_np_push(p, s[k - 1], 0); lemma_sp_push(p, s[k - 1], 0); }
        assert forall|j: int| 0 <= j < f.len() implies f[j] >= 0 by {}
    } else { assert(s.subrange(0, 0) =~= Seq::<i64>::empty()); }
}
pub proof fn lemma_kept(s: Seq<i64>, mask: Seq<i64>, k: int)
    requires nonneg(s), 0 <= k <= s.len()
    ensures 1 <= np(kept(s, mask), k) <= np(s, k), nonneg(kept(s, mask)), pos(s) ==> pos(kept(s, mask))
    decreases s.len() - k
{
    if k < s.len() {
        lemma_kept(s, mask, k + 1);
        let a = nz(kept(s, mask)[k] as int); let x = nz(s[k] as int); let b = np(kept(s, mask), k + 1); let c = np(s, k + 1);
        assert(1 <= a * b <= x * c) by (nonlinear_arith) requires 1 <= a <= x, 1 <= b <= c;
    }
}
pub proof fn lemma_red_dst(s: Seq<i64>, mask: Seq<i64>, i: int, k: int)
    requires pos(s), fits(s), 0 <= k < s.len(), i >= 0
    ensures 0 <= red_dst(s, mask, i, k + 1) < sp(kept(s, mask), k + 1), 0 <= red_dst(s, mask, i, k) < sp(kept(s, mask), k) <= MAXN(), sp(s, k + 1) > 0, s[k] > 0, i / sp(s, k + 1) >= 0, 0 <= coord(s, i, k) < s[k],
        0 < sp(kept(s, mask), k + 1) <= MAXN(), 0 <= coord(s, i, k) * sp(kept(s, mask), k + 1), mask[k] == 0 ==> coord(s, i, k) * sp(kept(s, mask), k + 1) <= MAXN()
    decreases s.len() - k
{
    if k + 1 < s.len() { lemma_red_dst(s, mask, i, k + 1); } else { assert(red_dst(s, mask, i, k + 1) == 0); }
    let e = kept(s, mask);
    lemma_kept(s, mask, 0); lemma_fits(e); lemma_sp_pos(s, k + 1); lemma_sp_pos(s, k); lemma_sp_pos(e, k + 1); lemma_sp_pos(e, k);
    let c = coord(s, i, k); let q = sp(e, k + 1); let r = red_dst(s, mask, i, k + 1);
    assert(i / sp(s, k + 1) >= 0) by (nonlinear_arith) requires i >= 0, sp(s, k + 1) > 0;
    assert(0 <= c < s[k]);
    assert(0 <= c * q && c * q + r < s[k] * q) by (nonlinear_arith) requires 0 <= c < s[k], 0 <= r < q;
    assert(sp(e, k) == e[k] * q); assert(1 * q == q);
    assert(0 <= sp(e, k) <= MAXN()); assert(0 <= sp(e, k + 1) <= MAXN());
}
@fn get_reduce_shape_m = tinytorch::op::getReduceShape(const Tensor &, const DimArray<int64_t> &, bool)
@w none
@req
t.geo(), inAxis.len() == 8,
@ens
res@ == filt(t.shape@, inAxis@, keepDims, t.shape.len() as int),
@loop 0
retShape@ == filt(t.shape@, inAxis@, keepDims, d as int),
@fn red_dst_index = tinytorch::op::ReducerCpu::getReduceDstIndex(const Tensor &, int64_t, const DimArray<int64_t> &)
@w none
@req
t.geo(), inAxis.len() == 8, 0 <= idx < t.numel,
@ens
res == red_dst(t.shape@, inAxis@, idx as int, 0), 0 <= res, t.shape.len() > 0 ==> res < sp(kept(t.shape@, inAxis@), 0),
@at entry
lemma_numel_pos(t.shape@, 0); lemma_fits(t.shape@);
if t.shape.len() > 0 { lemma_red_dst(t.shape@, inAxis@, idx as int, 0); }
@loop 0
-1 <= d < t.shape.len(), retIdx == red_dst(t.shape@, inAxis@, idx as int, d + 1), stride == sp(kept(t.shape@, inAxis@), d + 1),
@at loop0.begin
lemma_red_dst(t.shape@, inAxis@, idx as int, d as int);
assert(stride * t.shape@[d as int] == t.shape@[d as int] * stride) by (nonlinear_arith);
assert(sp(kept(t.shape@, inAxis@), d as int) == kept(t.shape@, inAxis@)[d as int] * stride);
@fn sum_dims = tinytorch::op::reduceOpSumDimsCpuImpl<float>
@req
t.wf(*old(w)), dims.len() > 0, t.shape.len() > 0, forall|k: int| 0 <= k < dims.len() ==> -t.shape.len() <= #[trigger] dims[k] < t.shape.len(),
@ens
res.wf(*final(w)), res.shape@ == filt(t.shape@, mask_of(dims@, t.shape.len() as int, dims.len() as int), keepDims, t.shape.len() as int), keeps(*old(w), *final(w)), fresh(*old(w), res.blk),
forall|i: int| 0 <= i < res.numel ==> res.at(*final(w), i) == #[trigger] sum_to(t.shape@, mask_of(dims@, t.shape.len() as int, dims.len() as int), old(w).f@[t.blk], t.off as int, i, t.numel as int),
@at entry
lemma_geo(*t);
let ghost n = t.shape.len() as int;
let ghost mk = mask_of(dims@, n, dims.len() as int);
lemma_mask_len(dims@, n, dims.len() as int);
lemma_filt(t.shape@, mk, keepDims, n); lemma_kept(t.shape@, mk, 0);
assert(t.shape@.subrange(0, n) =~= t.shape@);
lemma_pr_sp(kept(t.shape@, mk), 0, n);
@loop 0
inAxis@ == mask_of(dims@, n, k_0 as int), inAxis@.len() == 8,
@at loop0.begin
lemma_mask_len(dims@, n, k_0 as int);
@loop 1
inAxis@ == mk, ret.geo(), ret.off == 0, ret.shape@ == filt(t.shape@, mk, keepDims, n), fresh(*old(w), ret.blk), frame1(*old(w), *w, ret.blk), w.f@[ret.blk].len() == ret.numel,
ret.numel == sp(kept(t.shape@, mk), 0),
forall|i: int| 0 <= i < ret.numel ==> ret.at(*w, i) == #[trigger] sum_to(t.shape@, mk, old(w).f@[t.blk], t.off as int, i, srcIdx as int),
@at loop1.end
assert forall|i: int| 0 <= i < ret.numel implies ret.at(*w, i) == #[trigger] sum_to(t.shape@, mk, old(w).f@[t.blk], t.off as int, i, srcIdx + 1) by {
    assert(sum_to(t.shape@, mk, old(w).f@[t.blk], t.off as int, i, srcIdx + 1) == if retIdx == i { sf_add(sum_to(t.shape@, mk, old(w).f@[t.blk], t.off as int, i, srcIdx as int), old(w).f@[t.blk][t.off + srcIdx]) } else { sum_to(t.shape@, mk, old(w).f@[t.blk], t.off as int, i, srcIdx as int) });
}
@fn min_all = tinytorch::op::reduceOpAllCpuImpl<float,tinytorch::op::OpCpuReduceMin>
@req
t.wf(*old(w)),
@ens
res.wf(*final(w)), res.shape@ == Seq::<i64>::empty(), res.numel == 1, fresh(*old(w), res.blk), keeps(*old(w), *final(w)),
frame1(*old(w), *final(w), res.blk), res.off == 0, final(w).f@[res.blk].len() == 1,
res.at(*final(w), 0) == fold_min(old(w).f@[t.blk], t.off as int, t.numel as int),
@at entry
lemma_geo(*t); lemma_fits(Seq::<i64>::empty());
@like max_all = tinytorch::op::reduceOpAllCpuImpl<float,tinytorch::op::OpCpuReduceMax> from min_all /fold_min/fold_max/
@like sum_all = tinytorch::op::reduceOpAllCpuImpl<float,tinytorch::op::OpCpuReduceSum> from min_all /fold_min/fold_sum/
@fn argmin_all = tinytorch::op::reduceOpArgMinMaxCpuImpl<float,tinytorch::op::OpCpuReduceMin>
@req
t.wf(*old(w)), t.shape.len() > 0,
@ens
res.iwf(*final(w)), res.shape@ == Seq::<i64>::empty(), keeps(*old(w), World { i: old(w).i, ..*final(w) }),
res.iat(*final(w), 0) == idx_min(old(w).f@[t.blk], t.off as int, t.numel as int).1,
@at entry
lemma_geo(*t); lemma_fits(Seq::<i64>::empty());
@like argmax_all = tinytorch::op::reduceOpArgMinMaxCpuImpl<float,tinytorch::op::OpCpuReduceMax> from argmin_all /idx_min/idx_max/
@fn mean_all = tinytorch::op::reduceOpMeanCpuImpl<float>
@req
t.wf(*old(w)),
@ens
res.wf(*final(w)), res.shape@ == Seq::<i64>::empty(), res.numel == 1, keeps(*old(w), *final(w)), res.off == 0,
res.at(*final(w), 0) == sf_mul(fold_sum(old(w).f@[t.blk], t.off as int, t.numel as int), sf_div(sf_int(1), sf_int(t.numel as int))),
@at entry
lemma_geo(*t);
@fn mean_dims = tinytorch::op::reduceOpMeanDimsCpuImpl<float>
@req
t.wf(*old(w)), dims.len() > 0, t.shape.len() > 0, forall|k: int| 0 <= k < dims.len() ==> -t.shape.len() <= #[trigger] dims[k] < t.shape.len(),
@ens
res.wf(*final(w)), res.shape@ == filt(t.shape@, mask_of(dims@, t.shape.len() as int, dims.len() as int), keepDims, t.shape.len() as int), keeps(*old(w), *final(w)),
forall|i: int| 0 <= i < res.numel ==> res.at(*final(w), i) == sf_mul(#[trigger] sum_to(t.shape@, mask_of(dims@, t.shape.len() as int, dims.len() as int), old(w).f@[t.blk], t.off as int, i, t.numel as int), sf_div(sf_int(res.numel as int), sf_int(t.numel as int))),
@at entry
lemma_geo(*t);
