@tu
#include "Operation/OpTransform.cpp"
#include "Operation/OpTransformCpu.cpp"
namespace tinytorch::op {
template Tensor indexOpImpl<float>(const Tensor& self, const IntArrayView indices);
template void indexPutOpImpl<float>(Tensor& self, const IntArrayView indices, const Tensor& val);
template Tensor indexAdvanceOpCpuImpl<float>(const Tensor& self, ArrayView<Tensor> indices);
template void indexPutAdvanceOpCpuImpl<float>(Tensor& self, ArrayView<Tensor> indices, const Tensor& val);
template Tensor gatherOpCpuImpl<float>(const Tensor& self, int64_t dim, const Tensor& index);
template Tensor scatterOpCpuImpl<float>(const Tensor& self, int64_t dim, const Tensor& index, const Tensor& src);
template void scatterOpInplaceCpuImpl<float>(Tensor& self, int64_t dim, const Tensor& index, const Tensor& src);
template Tensor indexSelectOpCpuImpl<float>(const Tensor& self, int64_t dim, const Tensor& index);
}
@opt call=tinytorch::op::fillOffset/4=>! fill_offset(w, $m0, $r1, $2, $3)
@prelude base float nd tensor
@raw
@include wrote.inc
/// an index counts from the end when negative
pub open spec fn fx(x: int, n: int) -> int { if x >= 0 { x } else { x + n } }
pub open spec fn fxs(s: Seq<i64>, c: Seq<i64>) -> Seq<i64> { Seq::new(c.len(), |k: int| fx(c[k] as int, s[k] as int) as i64) }
pub open spec fn okidx(s: Seq<i64>, c: Seq<i64>) -> bool { c.len() <= s.len() && forall|k: int| 0 <= k < c.len() ==> -s[k] <= #[trigger] c[k] < s[k] }
pub open spec fn inrange(s: Seq<i64>, c: Seq<i64>, n: int) -> bool { 0 <= n <= s.len() && n <= c.len() && forall|k: int| 0 <= k < n ==> 0 <= #[trigger] c[k] < s[k] }
/// row-major offset of the first k coordinates
pub open spec fn lead(s: Seq<i64>, c: Seq<i64>, k: int) -> int decreases k { if k <= 0 { 0 } else { lead(s, c, k - 1) + c[k - 1] * sp(s, k) } }
/// sum of c[j]*st[j] over the first k entries
pub open spec fn pdot(c: Seq<i64>, st: Seq<i64>, k: int) -> int decreases k { if k <= 0 { 0 } else { pdot(c, st, k - 1) + c[k - 1] * st[k - 1] } }
pub proof fn lemma_lead(s: Seq<i64>, c: Seq<i64>, n: int, k: int)
    requires nonneg(s), inrange(s, c, n), 0 <= k <= n
    ensures 0 <= lead(s, c, k), lead(s, c, k) + sp(s, k) <= sp(s, 0)
    decreases k
{
    if k > 0 {
        lemma_lead(s, c, n, k - 1); lemma_sp_nonneg(s, k);
        let p = c[k - 1] as int; let q = sp(s, k); let m = s[k - 1] as int;
        assert(sp(s, k - 1) == m * q); assert(0 <= c[k - 1] < s[k - 1]);
        assert(0 <= p * q && p * q + q <= m * q) by (nonlinear_arith) requires 0 <= p < m, q >= 0;
    }
}
pub proof fn lemma_lead_eq(s: Seq<i64>, c: Seq<i64>, e: Seq<i64>, k: int)
    requires forall|j: int| 0 <= j < k ==> c[j] == e[j]
    ensures lead(s, c, k) == lead(s, e, k)
    decreases k
{ if k > 0 { lemma_lead_eq(s, c, e, k - 1); } }
pub proof fn lemma_pdot_eq(c: Seq<i64>, e: Seq<i64>, st: Seq<i64>, k: int)
    requires forall|j: int| 0 <= j < k ==> c[j] == e[j]
    ensures pdot(c, st, k) == pdot(e, st, k)
    decreases k
{ if k > 0 { lemma_pdot_eq(c, e, st, k - 1); } }
/// with row-major strides the two sums agree; coordinates beyond the given ones are zero
pub proof fn lemma_pdot(s: Seq<i64>, st: Seq<i64>, c: Seq<i64>, n: int, k: int)
    requires rowmajor(s, st), 0 <= n <= s.len(), 0 <= k <= s.len(), forall|j: int| n <= j < s.len() ==> #[trigger] c[j] == 0
    ensures pdot(c, st, k) == lead(s, c, if k <= n { k } else { n })
    decreases k
{
    if k > 0 {
        lemma_pdot(s, st, c, n, k - 1);
        assert(st[k - 1] == sp(s, k));
        if k > n { assert(c[k - 1] == 0); assert(c[k - 1] * st[k - 1] == 0) by (nonlinear_arith) requires c[k - 1] == 0; }
    }
}
pub proof fn lemma_fxs(s: Seq<i64>, c: Seq<i64>)
    requires nonneg(s), okidx(s, c), forall|k: int| 0 <= k < s.len() ==> s[k] <= MAXN()
    ensures inrange(s, fxs(s, c), c.len() as int)
{ assert forall|k: int| 0 <= k < c.len() implies 0 <= #[trigger] fxs(s, c)[k] < s[k] by { assert(-s[k] <= c[k] < s[k]); } }
/// the suffix of a shape
pub open spec fn suf(s: Seq<i64>, k: int) -> Seq<i64> { s.subrange(k, s.len() as int) }
pub proof fn lemma_suf(s: Seq<i64>, k: int, j: int)
    requires nonneg(s), 0 <= k <= s.len(), 0 <= j <= s.len() - k
    ensures nonneg(suf(s, k)), np(suf(s, k), j) == np(s, k + j), sp(suf(s, k), j) == sp(s, k + j)
    decreases s.len() - k - j
{ if j < s.len() - k { lemma_suf(s, k, j + 1); assert(suf(s, k)[j] == s[k + j]); } }
/// elements at .. at+n of a block come from v
pub open spec fn setr(f: Seq<F>, at: int, n: int, v: spec_fn(int) -> F) -> Seq<F> { Seq::new(f.len(), |x: int| if at <= x < at + n { v(x - at) } else { f[x] }) }
pub open spec fn rpos(s: Seq<i64>, c: Seq<i64>) -> int { lead(s, fxs(s, c), c.len() as int) }

/// position number i exists in every index tensor
pub open spec fn ixok(w: World, s: Seq<i64>, ix: Seq<Tensor>, i: int) -> bool
{ 0 <= i && forall|k: int| 0 <= k < ix.len() ==> (#[trigger] ix[k]).iwf(w) && i < ix[k].numel }

@fn index_cs = tinytorch::op::computeIndexAndStride
@w none
@req self_.geo(), 1 <= indices.len(), okidx(self_.shape@, indices@)
@ens res.0 == rpos(self_.shape@, indices@), res.1 == sp(self_.shape@, indices.len() as int), 0 <= res.0, 0 <= res.1, res.0 + res.1 <= self_.numel
@at entry
    let ghost s = self_.shape@;
    let ghost c = fxs(self_.shape@, indices@);
    let ghost n = indices.len() as int;
    lemma_geo(*self_); lemma_fxs(s, indices@);
@loop 0
    len == n, n <= s.len() <= 8, dataIdx == lead(s, c, i as int), 0 <= dataIdx <= MAXN()
@at loop0.begin
        let k = i as int; assert(-s[k] <= indices@[k] < s[k]);
        lemma_lead(s, c, n, k); lemma_lead(s, c, n, k + 1);
        let p = c[k] as int; let q = sp(s, k + 1); let m = s[k] as int;
        assert(p == fx(indices@[k] as int, m)); assert(self_.strides[k] == q); assert(0 <= q <= MAXN()); assert(sp(s, k) == m * q); assert(sp(s, k) <= MAXN());
        assert(0 <= c[k] < s[k]);
        assert(0 <= p * q <= m * q) by (nonlinear_arith) requires 0 <= p < m, q >= 0;
        assert(lead(s, c, k + 1) == lead(s, c, k) + p * q);
@at loop0.after
    lemma_lead(s, c, n, n); assert(self_.strides[n - 1] == sp(s, n));
@fn index = tinytorch::op::indexOpImpl<float>
@assume_asserts
@req self_.wf(*old(w)), 1 <= indices.len(), okidx(self_.shape@, indices@)
@ens *final(w) == *old(w), res.wf(*final(w)), res.shape@ == suf(self_.shape@, indices.len() as int), res.blk == self_.blk, res.off == self_.off + rpos(self_.shape@, indices@),
    forall|k: int| 0 <= k < res.numel ==> #[trigger] res.at(*final(w), k) == self_.at(*old(w), rpos(self_.shape@, indices@) + k)
@at entry
    let ghost s = self_.shape@;
    let ghost n = indices.len() as int;
    lemma_geo(*self_); lemma_suf(s, n, 0); lemma_np_mono(s, 0, n);
@loop 0
    *w == *old(w), self_.wf(*w), len == n, n <= s.len() <= 8, s == self_.shape@, retShape@ == s.subrange(n, i as int)
@at loop0.after
    assert(retShape@ == suf(s, n));
@at loop0.begin
    assert(s.subrange(n, i + 1) == s.subrange(n, i as int).push(s[i as int]));
@fn index_put = tinytorch::op::indexPutOpImpl<float>
@assume_asserts
@req old(self_).wf(*old(w)), val.wf(*old(w)), 1 <= indices.len(), okidx(old(self_).shape@, indices@), val.blk != old(self_).blk
@ens wrote(*old(w), *final(w), *old(self_), *final(self_)),
    val.shape.len() != 0 ==> val.numel == sp(old(self_).shape@, indices.len() as int),
    final(w).f@[final(self_).blk] == setr(old(w).f@[old(self_).blk], old(self_).off + rpos(old(self_).shape@, indices@), sp(old(self_).shape@, indices.len() as int),
        |r: int| val.at(*old(w), if val.shape.len() == 0 { 0 } else { r }))
@at entry
    lemma_geo(*self_); lemma_geo(*val);
@at exit
        let st = sp(old(self_).shape@, indices.len() as int); let at = old(self_).off + rpos(old(self_).shape@, indices@);
        let g = setr(old(w).f@[old(self_).blk], at, st, |r: int| val.at(*old(w), if val.shape.len() == 0 { 0 } else { r }));
        assert(w.f@[self_.blk] =~= g);
@fn i2o = tinytorch::op::indicesToOffset
@w none
@param indices:&Vec<i64>
@req strides.len() <= 8, indices.len() >= strides.len(),
    forall|k: int| 0 <= k <= strides.len() ==> 0 <= #[trigger] pdot(indices@, strides@, k) <= MAXN()
@ens res == pdot(indices@, strides@, strides.len() as int)
@loop 0
    strides.len() <= 8, offset == pdot(indices@, strides@, i as int)
@at loop0.begin
    let k = i as int; assert(0 <= pdot(indices@, strides@, k) <= MAXN()); assert(0 <= pdot(indices@, strides@, k + 1) <= MAXN()); assert(pdot(indices@, strides@, k + 1) == pdot(indices@, strides@, k) + indices@[k] * strides@[k]);
@fn get_sub = tinytorch::op::getSubIndices
@w const
@param subIndices:&mut Vec<i64>
@assume_asserts
@req t.geo(), indices.len() <= t.shape.len(), old(subIndices).len() == 8, ixok(*w, t.shape@, indices@, idx as int)
@ens final(subIndices).len() == 8, forall|k: int| 0 <= k < indices.len() ==> #[trigger] final(subIndices)@[k] == fx(indices@[k].iat(*w, idx as int) as int, t.shape@[k] as int),
    forall|k: int| indices.len() <= k < 8 ==> #[trigger] final(subIndices)@[k] == old(subIndices)@[k]
@at entry
    lemma_geo(*t);
@loop 0
    indices.len() <= t.shape.len() <= 8, subIndices.len() == 8,
    forall|k: int| 0 <= k < i ==> #[trigger] subIndices@[k] == fx(indices@[k].iat(*w, idx as int) as int, t.shape@[k] as int),
    forall|k: int| i <= k < 8 ==> #[trigger] subIndices@[k] == old(subIndices)@[k]
@at loop0.begin
    let k = i as int; assert(indices@[k].iwf(*w)); assert(t.shape@[k] <= MAXN());
@raw
/// the index vector at position i of the index tensors
pub open spec fn cvec(w: World, ix: Seq<Tensor>, i: int) -> Seq<i64> { Seq::new(ix.len(), |k: int| ix[k].iat(w, i)) }
pub open spec fn apos(w: World, s: Seq<i64>, ix: Seq<Tensor>, i: int) -> int { rpos(s, cvec(w, ix, i)) }
pub open spec fn ixall(w: World, s: Seq<i64>, ix: Seq<Tensor>) -> bool {
    &&& 1 <= ix.len() <= s.len()
    &&& forall|k: int| 0 <= k < ix.len() ==> (#[trigger] ix[k]).iwf(w) && ix[0].numel <= ix[k].numel
    &&& forall|i: int| 0 <= i < ix[0].numel ==> okidx(s, #[trigger] cvec(w, ix, i))
}
pub proof fn lemma_rpos(s: Seq<i64>, c: Seq<i64>)
    requires nonneg(s), fits(s), okidx(s, c)
    ensures 0 <= rpos(s, c), rpos(s, c) + sp(s, c.len() as int) <= sp(s, 0), 0 <= sp(s, c.len() as int)
{ lemma_fits(s); lemma_fxs(s, c); lemma_lead(s, fxs(s, c), c.len() as int, c.len() as int); lemma_sp_nonneg(s, c.len() as int); }
pub proof fn lemma_sub(s: Seq<i64>, st: Seq<i64>, c: Seq<i64>, sub: Seq<i64>)
    requires nonneg(s), fits(s), s.len() <= 8, rowmajor(s, st), okidx(s, c), sub.len() == 8,
        forall|k: int| 0 <= k < c.len() ==> #[trigger] sub[k] == fx(c[k] as int, s[k] as int), forall|k: int| c.len() <= k < 8 ==> #[trigger] sub[k] == 0
    ensures forall|k: int| 0 <= k <= st.len() ==> 0 <= #[trigger] pdot(sub, st, k) <= MAXN(), pdot(sub, st, st.len() as int) == rpos(s, c)
{
    lemma_fits(s); lemma_fxs(s, c);
    let e = fxs(s, c); let n = c.len() as int;
    assert forall|j: int| 0 <= j < n implies sub[j] == e[j] by { assert(-s[j] <= c[j] < s[j]); }
    assert forall|k: int| 0 <= k <= st.len() implies 0 <= #[trigger] pdot(sub, st, k) <= MAXN() by {
        let m = if k <= n { k } else { n };
        lemma_pdot(s, st, sub, n, k); lemma_lead_eq(s, sub, e, m); lemma_lead(s, e, n, m); lemma_sp_nonneg(s, m);
    }
    lemma_pdot(s, st, sub, n, s.len() as int); lemma_lead_eq(s, sub, e, n);
}
pub proof fn lemma_two(s: Seq<i64>, c: Seq<i64>)
    requires nonneg(s), fits(s), okidx(s, c), s.len() == 2, c.len() == 2
    ensures rpos(s, c) == fx(c[0] as int, s[0] as int) * s[1] + fx(c[1] as int, s[1] as int), sp(s, 2) == 1, 0 <= fx(c[0] as int, s[0] as int) * s[1] <= MAXN(),
        0 <= fx(c[0] as int, s[0] as int) < s[0], 0 <= fx(c[1] as int, s[1] as int) < s[1]
{
    let e = fxs(s, c); lemma_fits(s); lemma_fxs(s, c);
    assert(-s[0] <= c[0] < s[0]); assert(-s[1] <= c[1] < s[1]);
    assert(sp(s, 2) == 1); assert(sp(s, 1) == s[1] * sp(s, 2)); assert(sp(s, 0) == s[0] * sp(s, 1));
    assert(lead(s, e, 0) == 0); assert(lead(s, e, 1) == lead(s, e, 0) + e[0] * sp(s, 1)); assert(lead(s, e, 2) == lead(s, e, 1) + e[1] * sp(s, 2));
    assert(0 <= e[0] * s[1] <= s[0] * s[1]) by (nonlinear_arith) requires 0 <= e[0] < s[0], s[1] >= 0;
    assert(sp(s, 0) <= MAXN());
}
pub proof fn lemma_cat(a: Seq<i64>, b: Seq<i64>, k: int)
    requires 0 <= k <= a.len()
    ensures sp(a + b, k) == sp(a, k) * sp(b, 0)
    decreases a.len() - k
{
    if k < a.len() {
        lemma_cat(a, b, k + 1); assert((a + b)[k] == a[k]);
        assert(a[k] * (sp(a, k + 1) * sp(b, 0)) == (a[k] * sp(a, k + 1)) * sp(b, 0)) by (nonlinear_arith);
    } else { lemma_cat2(a, b, 0); assert(sp(a, k) == 1); }
}
pub proof fn lemma_cat2(a: Seq<i64>, b: Seq<i64>, j: int)
    requires 0 <= j <= b.len()
    ensures sp(a + b, a.len() + j) == sp(b, j)
    decreases b.len() - j
{ if j < b.len() { lemma_cat2(a, b, j + 1); assert((a + b)[a.len() + j] == b[j]); } }
/// element x of the result of advanced indexing
pub open spec fn aval(w: World, t: Tensor, ix: Seq<Tensor>, x: int) -> F { let st = sp(t.shape@, ix.len() as int); t.at(w, apos(w, t.shape@, ix, x / st) + x % st) }
@fn idx_adv = tinytorch::op::indexAdvanceOpCpuImpl<float>
@assume_asserts
@req self_.wf(*old(w)), ixall(*old(w), self_.shape@, indices@),
    (indices@[0].shape@ + suf(self_.shape@, indices.len() as int)).len() <= 8, fits(indices@[0].shape@ + suf(self_.shape@, indices.len() as int))
@ens res.shape@ == indices@[0].shape@ + suf(self_.shape@, indices.len() as int), res.wf(*final(w)), fresh(*old(w), res.blk), res.off == 0, frame1(*old(w), *final(w), res.blk),
    forall|x: int| 0 <= x < res.numel ==> #[trigger] final(w).f@[res.blk][x] == aval(*old(w), *self_, indices@, x)
@at entry
    let ghost s = self_.shape@;
    let ghost n = indices.len() as int;
    let ghost st = sp(s, n);
    let ghost s0 = indices@[0].shape@;
    let ghost N = indices@[0].numel as int;
    lemma_geo(*self_); lemma_geo(indices@[0]); lemma_suf(s, n, 0); lemma_cat(s0, suf(s, n), 0); lemma_sp_nonneg(s, n);
    assert(nonneg(s0 + suf(s, n))); assert(self_.strides[n - 1] == sp(s, n));
    assert(0 * st == 0); lemma_fits(s0 + suf(s, n));
@loop 0
    *w == *old(w), len == n, n <= s.len() <= 8, s == self_.shape@, retShape@ == s0 + s.subrange(n, i as int)
@at loop0.begin
    assert(s.subrange(n, i + 1) == s.subrange(n, i as int).push(s[i as int])); assert(retShape@.push(s[i as int]) =~= s0 + s.subrange(n, i + 1));
@at loop0.before
    assert(retShape@ =~= s0 + s.subrange(n, n));
@at loop0.after
    assert(retShape@ == s0 + suf(s, n));
@loop 1
    frame1(*old(w), *w, ret.blk), fresh(*old(w), ret.blk), ret.wf(*w), w.f@[ret.blk].len() == ret.numel, ret.numel == N * st, N == firstDim_10, n == 2, s.len() == 2, st == 1,
    indices_8@ == indices@, dim0 == s[0], dim1 == s[1], selfPtr.b == self_.blk, selfPtr.o == self_.off, retPtr.b == ret.blk, retPtr.o == 0, ret.off == 0,
    idx0Ptr.b == indices@[0].blk, idx0Ptr.o == indices@[0].off, idx1Ptr.b == indices@[1].blk, idx1Ptr.o == indices@[1].off,
    forall|x: int| 0 <= x < i ==> #[trigger] w.f@[ret.blk][x] == aval(*old(w), *self_, indices@, x)
@at loop1.begin
    let ghost c = cvec(*old(w), indices@, i as int);
    assert(okidx(s, c)); lemma_two(s, c); lemma_rpos(s, c); assert(indices@[1].iwf(*old(w))); assert(indices@[0].iwf(*old(w)));
    assert(c[0] == indices@[0].iat(*old(w), i as int)); assert(c[1] == indices@[1].iat(*old(w), i as int));
    assert(aval(*old(w), *self_, indices@, i as int) == self_.at(*old(w), rpos(s, c)));
    assert(w.f@[self_.blk] == old(w).f@[self_.blk]);
@loop 2
    frame1(*old(w), *w, ret.blk), fresh(*old(w), ret.blk), ret.wf(*w), w.f@[ret.blk].len() == ret.numel, ret.numel == N * st, N == firstDim, dimStride == st,
    selfPtr.b == self_.blk, selfPtr.o == self_.off, retPtr.b == ret.blk, retPtr.o == 0, ret.off == 0,
    subIndices.len() == 8, forall|k: int| n <= k < 8 ==> #[trigger] subIndices@[k] == 0,
    forall|x: int| 0 <= x < i * st ==> #[trigger] w.f@[ret.blk][x] == aval(*old(w), *self_, indices@, x)
@at loop2.begin
    let ghost c = cvec(*old(w), indices@, i as int);
    let ghost w1 = *w;
    assert(okidx(s, c)); lemma_rpos(s, c); assert(w.f@[self_.blk] == old(w).f@[self_.blk]);
    lemma_row(i as int, N, st); assert(N * st <= MAXN());
    assert(st * i == i * st) by (nonlinear_arith);
    assert(ixok(*w, s, indices@, i as int)) by { assert forall|k: int| 0 <= k < indices@.len() implies (#[trigger] indices@[k]).iwf(*w) && i < indices@[k].numel by { assert(indices@[k].iwf(*old(w))); } }
@at before /i2o\(/
    assert forall|k: int| 0 <= k < c.len() implies #[trigger] subIndices@[k] == fx(c[k] as int, s[k] as int) by { }
    lemma_sub(s, self_.strides@, c, subIndices@);
@at loop2.end
    assert forall|x: int| 0 <= x < (i + 1) * st implies #[trigger] w.f@[ret.blk][x] == aval(*old(w), *self_, indices@, x) by {
        assert((i + 1) * st == i * st + st) by (nonlinear_arith);
        if x >= i * st { lemma_mod_unique(x, st, i as int, x - i * st); assert(x < N * st); assert(w.f@[ret.blk][x] == self_.at(*old(w), rpos(s, c) + (x - i * st))); }
        else { assert(w1.f@[ret.blk][x] == aval(*old(w), *self_, indices@, x)); }
    }
@raw
/// contents after the first k positions have been written, in order: the last write to a position wins
pub open spec fn puts(f: Seq<F>, base: int, w: World, s: Seq<i64>, ix: Seq<Tensor>, v: Tensor, k: int) -> Seq<F> decreases k {
    if k <= 0 { f } else { setr(puts(f, base, w, s, ix, v, k - 1), base + apos(w, s, ix, k - 1), sp(s, ix.len() as int), |r: int| v.at(w, if v.shape.len() == 0 { 0 } else { (k - 1) * sp(s, ix.len() as int) + r })) }
}
pub proof fn lemma_puts(f: Seq<F>, base: int, w: World, s: Seq<i64>, ix: Seq<Tensor>, v: Tensor, k: int)
    requires nonneg(s), fits(s), ixall(w, s, ix), 0 <= k <= ix[0].numel
    ensures puts(f, base, w, s, ix, v, k).len() == f.len(), forall|x: int| 0 <= x < f.len() && !(base <= x < base + sp(s, 0)) ==> #[trigger] puts(f, base, w, s, ix, v, k)[x] == f[x]
    decreases k
{ if k > 0 { lemma_puts(f, base, w, s, ix, v, k - 1); lemma_rpos(s, cvec(w, ix, k - 1)); } }
@fn idx_put_adv = tinytorch::op::indexPutAdvanceOpCpuImpl<float>
@assume_asserts
@req old(self_).wf(*old(w)), ixall(*old(w), old(self_).shape@, indices@), val.wf(*old(w)), val.blk != old(self_).blk,
    indices@[0].numel * sp(old(self_).shape@, indices.len() as int) <= MAXN()
@ens wrote(*old(w), *final(w), *old(self_), *final(self_)),
    final(w).f@[final(self_).blk] == puts(old(w).f@[old(self_).blk], old(self_).off as int, *old(w), old(self_).shape@, indices@, *val, indices@[0].numel as int)
@at entry
    let ghost s = self_.shape@;
    let ghost n = indices.len() as int;
    let ghost st = sp(s, n);
    let ghost N = indices@[0].numel as int;
    let ghost f0 = w.f@[self_.blk];
    let ghost off = self_.off as int;
    lemma_geo(*self_); lemma_geo(*val); lemma_geo(indices@[0]); lemma_sp_nonneg(s, n); assert(self_.strides[n - 1] == sp(s, n));
    assert(0 <= N * st) by (nonlinear_arith) requires 0 <= N, 0 <= st;
@at before /let mut selfPtr/
    let ghost w0 = *w;
    let ghost t1 = *self_;
@loop 0
    frame1(w0, *w, self_.blk), w.f@[self_.blk] == puts(f0, off, *old(w), s, indices@, *val, i as int), N == firstDim_9, n == 2, s.len() == 2, st == 1, (val.shape.len() == 0),
    indices_7@ == indices@, dim0 == s[0], dim1 == s[1], selfPtr.b == self_.blk, selfPtr.o == off, valPtr.b == val.blk, valPtr.o == val.off,
    idx0Ptr.b == indices@[0].blk, idx0Ptr.o == indices@[0].off, idx1Ptr.b == indices@[1].blk, idx1Ptr.o == indices@[1].off
@at loop0.begin
    let ghost c = cvec(*old(w), indices@, i as int);
    let ghost w1 = *w;
    assert(okidx(s, c)); lemma_two(s, c); lemma_rpos(s, c); assert(indices@[1].iwf(*old(w))); assert(indices@[0].iwf(*old(w)));
    assert(c[0] == indices@[0].iat(*old(w), i as int)); assert(c[1] == indices@[1].iat(*old(w), i as int));
    lemma_puts(f0, off, *old(w), s, indices@, *val, i as int);
@at loop0.end
    assert(w.f@[self_.blk] =~= puts(f0, off, *old(w), s, indices@, *val, i + 1));
@loop 1
    frame1(w0, *w, self_.blk), w.f@[self_.blk] == puts(f0, off, *old(w), s, indices@, *val, i as int), N == firstDim_23, n == 2, s.len() == 2, st == 1, !(val.shape.len() == 0), val.numel == N,
    indices_21@ == indices@, dim0 == s[0], dim1 == s[1], selfPtr.b == self_.blk, selfPtr.o == off, valPtr.b == val.blk, valPtr.o == val.off,
    idx0Ptr.b == indices@[0].blk, idx0Ptr.o == indices@[0].off, idx1Ptr.b == indices@[1].blk, idx1Ptr.o == indices@[1].off
@at loop1.begin
    let ghost c = cvec(*old(w), indices@, i as int);
    let ghost w1 = *w;
    assert(okidx(s, c)); lemma_two(s, c); lemma_rpos(s, c); assert(indices@[1].iwf(*old(w))); assert(indices@[0].iwf(*old(w)));
    assert(c[0] == indices@[0].iat(*old(w), i as int)); assert(c[1] == indices@[1].iat(*old(w), i as int));
    lemma_puts(f0, off, *old(w), s, indices@, *val, i as int);
@at loop1.end
    assert(i * st == i) by (nonlinear_arith) requires st == 1;
    assert(sp(s, indices@.len() as int) == 1);
    assert(w.f@[self_.blk] =~= puts(f0, off, *old(w), s, indices@, *val, i + 1));
@loop 2
    frame1(w0, *w, self_.blk), *self_ == t1, w.f@[self_.blk] == puts(f0, off, *old(w), s, indices@, *val, i as int), N == firstDim, dimStride == st, (val.shape.len() == 0),
    subIndices.len() == 8, forall|k: int| n <= k < 8 ==> #[trigger] subIndices@[k] == 0
@at loop2.begin
    let ghost c = cvec(*old(w), indices@, i as int);
    let ghost w1 = *w;
    assert(okidx(s, c)); lemma_rpos(s, c); lemma_puts(f0, off, *old(w), s, indices@, *val, i as int);
    assert(ixok(*w, s, indices@, i as int)) by { assert forall|k: int| 0 <= k < indices@.len() implies (#[trigger] indices@[k]).iwf(*w) && i < indices@[k].numel by { assert(indices@[k].iwf(*old(w))); } }
@at before /i2o\(/
    assert forall|k: int| 0 <= k < c.len() implies #[trigger] subIndices@[k] == fx(c[k] as int, s[k] as int) by { }
    lemma_sub(s, self_.strides@, c, subIndices@);
@at loop2.end
    assert(w.f@[self_.blk] =~= puts(f0, off, *old(w), s, indices@, *val, i + 1));
@loop 3
    frame1(w0, *w, self_.blk), *self_ == t1, w.f@[self_.blk] == puts(f0, off, *old(w), s, indices@, *val, i as int), N == firstDim, dimStride == st, !(val.shape.len() == 0), val.numel == st * N,
    selfPtr.b == self_.blk, selfPtr.o == off, valPtr.b == val.blk, valPtr.o == val.off,
    subIndices.len() == 8, forall|k: int| n <= k < 8 ==> #[trigger] subIndices@[k] == 0
@at loop3.begin
    let ghost c = cvec(*old(w), indices@, i as int);
    let ghost w1 = *w;
    assert(okidx(s, c)); lemma_rpos(s, c); lemma_puts(f0, off, *old(w), s, indices@, *val, i as int);
    lemma_row(i as int, N, st); assert(st * i == i * st && st * N == N * st) by (nonlinear_arith);
    assert(ixok(*w, s, indices@, i as int)) by { assert forall|k: int| 0 <= k < indices@.len() implies (#[trigger] indices@[k]).iwf(*w) && i < indices@[k].numel by { assert(indices@[k].iwf(*old(w))); } }
@at loop3.end
    assert(w.f@[self_.blk] =~= puts(f0, off, *old(w), s, indices@, *val, i + 1));
@at exit
    lemma_puts(f0, off, *old(w), s, indices@, *val, N);
@raw
/// the coordinates element i of an index tensor of shape q addresses: its own, with that of the axis replaced by the index
pub open spec fn gvec(q: Seq<i64>, s: Seq<i64>, d: int, i: int, x: int) -> Seq<i64> { Seq::new(s.len(), |k: int| if k == d { fx(x, s[d] as int) as i64 } else { coord(q, i, k) as i64 }) }
pub open spec fn gpos(w: World, s: Seq<i64>, d: int, ix: Tensor, i: int) -> int { lead(s, gvec(ix.shape@, s, d, i, ix.iat(w, i) as int), s.len() as int) }
pub open spec fn axis(d: int, n: int) -> int { if d < 0 { d + n } else { d } }
/// the index has the rank of the tensor and does not reach past it on the other axes
pub open spec fn gok(s: Seq<i64>, d: int, q: Seq<i64>) -> bool { q.len() == s.len() ==> forall|k: int| 0 <= k < s.len() && k != d ==> #[trigger] q[k] <= s[k] }
pub proof fn lemma_pdot_all(s: Seq<i64>, st: Seq<i64>, c: Seq<i64>)
    requires nonneg(s), fits(s), rowmajor(s, st), inrange(s, c, s.len() as int)
    ensures forall|k: int| 0 <= k <= s.len() ==> 0 <= #[trigger] pdot(c, st, k) <= MAXN(), pdot(c, st, s.len() as int) == lead(s, c, s.len() as int),
        0 <= lead(s, c, s.len() as int) < sp(s, 0)
{
    let n = s.len() as int; lemma_fits(s);
    assert forall|k: int| 0 <= k <= n implies 0 <= #[trigger] pdot(c, st, k) <= MAXN() by { lemma_pdot(s, st, c, n, k); lemma_lead(s, c, n, k); lemma_sp_nonneg(s, k); }
    lemma_pdot(s, st, c, n, n); lemma_lead(s, c, n, n); assert(sp(s, n) == 1);
}
@fn gather = tinytorch::op::gatherOpCpuImpl<float>
@assume_asserts
@req -8 <= dim <= 8, self_.wf(*old(w)), index.iwf(*old(w)), gok(self_.shape@, axis(dim as int, self_.shape.len() as int), index.shape@)
@ens res.shape@ == index.shape@, res.wf(*final(w)), fresh(*old(w), res.blk), res.off == 0, frame1(*old(w), *final(w), res.blk),
    forall|x: int| 0 <= x < res.numel ==> #[trigger] final(w).f@[res.blk][x] == self_.at(*old(w), gpos(*old(w), self_.shape@, axis(dim as int, self_.shape.len() as int), *index, x))
@at entry
    let ghost s = self_.shape@;
    let ghost q = index.shape@;
    let ghost n = s.len() as int;
    let ghost dd = axis(dim as int, n);
    let ghost ax = dim as int;

    lemma_geo(*self_); lemma_geo(*index);
@loop 0
    n == q.len(), n <= 8, stride == sp(q, d + 1), indexStrides.len() == n, ndim == n, *indexShape == index.shape, q == index.shape@, -1 <= d < n,
    forall|k: int| d < k < n ==> #[trigger] indexStrides@[k] == sp(q, k + 1)
@at loop0.begin
    assert(sp(q, d as int) == q[d as int] * sp(q, d + 1)); assert(0 <= sp(q, d as int) <= MAXN());
    assert(sp(q, d + 1) * q[d as int] == q[d as int] * sp(q, d + 1)) by (nonlinear_arith);
@loop 1 isolate
    n == q.len(), n <= 8, ndim == n, n == s.len(), indexStrides.len() == n, coord.len() == n, 0 <= dd < n, dim_8 == dd, dd == axis(ax, n), self_.geo(), s == self_.shape@, *strides == self_.strides, *selfShape == self_.shape, q == index.shape@, index.iwf(*old(w)), *index_10 == *index,
    idxPtr.b == index.blk, idxPtr.o == index.off, gok(s, dd, q), 0 <= i <= index.numel,
    forall|k: int| 0 <= k < n ==> #[trigger] indexStrides@[k] == sp(q, k + 1), w.i == old(w).i,
    frame1(*old(w), *w, ret.blk), fresh(*old(w), ret.blk), ret.wf(*w), w.f@[ret.blk].len() == ret.numel, ret.numel == index.numel, self_.wf(*old(w)), retPtr.b == ret.blk, retPtr.o == 0, ret.off == 0, selfPtr.b == self_.blk, selfPtr.o == self_.off,
    forall|x: int| 0 <= x < i ==> #[trigger] w.f@[ret.blk][x] == self_.at(*old(w), gpos(*old(w), s, dd, *index, x))
@at loop1.begin
    let ghost x0 = index.iat(*old(w), i as int);
    lemma_geo(*self_); lemma_geo(*index); lemma_numel_pos(q, 0); lemma_mod_unique(i as int, sp(q, 0), 0, i as int);
@loop 2
    n == q.len(), n <= 8, ndim == n, coord.len() == n, indexStrides.len() == n, 0 <= d <= n, remain == (i as int) % sp(q, d as int), 0 <= remain, 0 <= i < sp(q, 0),
    forall|k: int| 0 <= k < n ==> #[trigger] indexStrides@[k] == sp(q, k + 1),
    nonneg(q), forall|k: int| 0 <= k <= n ==> #[trigger] sp(q, k) > 0,
    forall|k: int| 0 <= k < d ==> #[trigger] coord@[k] == crate::coord(q, i as int, k)
@at loop2.begin
    lemma_digit(q, i as int, d as int); assert(sp(q, d as int) > 0 && sp(q, d + 1) > 0);
@at loop3.before
    let ghost g = gvec(q, s, dd, i as int, x0 as int);
    assert forall|k: int| 0 <= k < n implies 0 <= #[trigger] g[k] < s[k] && coord@[k] == g[k] by { if k != dd { lemma_digit(q, i as int, k); assert(q[k] <= s[k]); assert(0 <= s[k] <= MAXN()); } }
    lemma_pdot_all(s, self_.strides@, g);
@loop 3
    0 <= d <= n, n == ndim, n <= 8, n == s.len(), n == self_.strides.len(), coord.len() == n, strides.len() == n, *strides == self_.strides, offset == pdot(g, self_.strides@, d as int), forall|k: int| 0 <= k < n ==> #[trigger] coord@[k] == g[k],
    forall|k: int| 0 <= k <= n ==> 0 <= #[trigger] pdot(g, self_.strides@, k) <= MAXN()
@at loop3.begin
    assert(0 <= pdot(g, self_.strides@, d as int) <= MAXN()); assert(0 <= pdot(g, self_.strides@, d + 1) <= MAXN());
    assert(pdot(g, self_.strides@, d + 1) == pdot(g, self_.strides@, d as int) + g[d as int] * self_.strides@[d as int]);
    assert(coord@[d as int] == g[d as int]);
@raw
/// contents after the first k elements of src have been written, in order: the last write to a position wins
pub open spec fn scat(f: Seq<F>, base: int, w: World, s: Seq<i64>, d: int, ix: Tensor, src: Tensor, k: int) -> Seq<F> decreases k
{ if k <= 0 { f } else { scat(f, base, w, s, d, ix, src, k - 1).update(base + gpos(w, s, d, ix, k - 1), src.at(w, k - 1)) } }
@fn scatter = tinytorch::op::scatterOpCpuImpl<float>
@assume_asserts
@req -8 <= dim <= 8, self_.wf(*old(w)), index.iwf(*old(w)), gok(self_.shape@, axis(dim as int, self_.shape.len() as int), index.shape@), src.wf(*old(w)), src.numel >= index.numel, src.blk != self_.blk
@ens wrote(*old(w), *final(w), *self_, res),
    final(w).f@[res.blk] == scat(old(w).f@[self_.blk], self_.off as int, *old(w), self_.shape@, axis(dim as int, self_.shape.len() as int), *index, *src, index.numel as int)
@at entry
    let ghost s = self_.shape@;
    let ghost q = index.shape@;
    let ghost n = s.len() as int;
    let ghost dd = axis(dim as int, n);
    let ghost ax = dim as int;
    let ghost f0 = w.f@[self_.blk];
    let ghost off = self_.off as int;
    lemma_geo(*self_); lemma_geo(*index);
@loop 0
    n == q.len(), n <= 8, stride == sp(q, d + 1), indexStrides.len() == n, ndim == n, *indexShape == index.shape, q == index.shape@, -1 <= d < n,
    forall|k: int| d < k < n ==> #[trigger] indexStrides@[k] == sp(q, k + 1)
@at loop0.begin
    assert(sp(q, d as int) == q[d as int] * sp(q, d + 1)); assert(0 <= sp(q, d as int) <= MAXN());
    assert(sp(q, d + 1) * q[d as int] == q[d as int] * sp(q, d + 1)) by (nonlinear_arith);
@loop 1 isolate
    n == q.len(), n <= 8, ndim == n, n == s.len(), indexStrides.len() == n, coord.len() == n, 0 <= dd < n, dim_9 == dd, dd == axis(ax, n), self_.geo(), s == self_.shape@, *strides == self_.strides, *selfShape == self_.shape, q == index.shape@, index.iwf(*old(w)), *index_11 == *index,
    idxPtr.b == index.blk, idxPtr.o == index.off, gok(s, dd, q), 0 <= i <= index.numel,
    forall|k: int| 0 <= k < n ==> #[trigger] indexStrides@[k] == sp(q, k + 1), w.i == old(w).i,
    frame1(w0, *w, ret.blk), fresh(*old(w), ret.blk) || ret.blk == self_.blk, ret.wf(*w), w0.i == old(w).i, forall|b: u64| b != ret.blk && #[trigger] old(w).f@.dom().contains(b) ==> w0.f@.dom().contains(b) && w0.f@[b] == old(w).f@[b], w.f@[ret.blk].len() == f0.len(), src.wf(*old(w)), src.numel >= index.numel, src.blk != self_.blk, ret.numel == sp(s, 0), ret.off == off, off + sp(s, 0) <= f0.len(), 0 <= off, retPtr.b == ret.blk, retPtr.o == off, srcPtr.b == src.blk, srcPtr.o == src.off,
    w.f@[ret.blk] == scat(f0, off, *old(w), s, dd, *index, *src, i as int),
    forall|x: int| 0 <= x < f0.len() && !(off <= x < off + sp(s, 0)) ==> #[trigger] w.f@[ret.blk][x] == f0[x]
@at loop1.begin
    let ghost x0 = index.iat(*old(w), i as int);
    lemma_geo(*self_); lemma_geo(*index); lemma_numel_pos(q, 0); lemma_mod_unique(i as int, sp(q, 0), 0, i as int);
@loop 2
    n == q.len(), n <= 8, ndim == n, coord.len() == n, indexStrides.len() == n, 0 <= d <= n, remain == (i as int) % sp(q, d as int), 0 <= remain, 0 <= i < sp(q, 0),
    forall|k: int| 0 <= k < n ==> #[trigger] indexStrides@[k] == sp(q, k + 1),
    nonneg(q), forall|k: int| 0 <= k <= n ==> #[trigger] sp(q, k) > 0,
    forall|k: int| 0 <= k < d ==> #[trigger] coord@[k] == crate::coord(q, i as int, k)
@at loop2.begin
    lemma_digit(q, i as int, d as int); assert(sp(q, d as int) > 0 && sp(q, d + 1) > 0);
@at loop3.before
    let ghost g = gvec(q, s, dd, i as int, x0 as int);
    assert forall|k: int| 0 <= k < n implies 0 <= #[trigger] g[k] < s[k] && coord@[k] == g[k] by { if k != dd { lemma_digit(q, i as int, k); assert(q[k] <= s[k]); assert(0 <= s[k] <= MAXN()); } }
    lemma_pdot_all(s, self_.strides@, g);
@loop 3
    0 <= d <= n, n == ndim, n <= 8, n == s.len(), n == self_.strides.len(), coord.len() == n, strides.len() == n, *strides == self_.strides, offset == pdot(g, self_.strides@, d as int), forall|k: int| 0 <= k < n ==> #[trigger] coord@[k] == g[k],
    forall|k: int| 0 <= k <= n ==> 0 <= #[trigger] pdot(g, self_.strides@, k) <= MAXN()
@at loop3.begin
    assert(0 <= pdot(g, self_.strides@, d as int) <= MAXN()); assert(0 <= pdot(g, self_.strides@, d + 1) <= MAXN());
    assert(pdot(g, self_.strides@, d + 1) == pdot(g, self_.strides@, d as int) + g[d as int] * self_.strides@[d as int]);
    assert(coord@[d as int] == g[d as int]);
@at loop1.end
    assert(w.f@[ret.blk] =~= scat(f0, off, *old(w), s, dd, *index, *src, i + 1));
@at before /let mut retPtr/
    let ghost w0 = *w;
@fn scatter_in = tinytorch::op::scatterOpInplaceCpuImpl<float>
@assume_asserts
@req -8 <= dim <= 8, old(self_).wf(*old(w)), index.iwf(*old(w)), gok(old(self_).shape@, axis(dim as int, old(self_).shape.len() as int), index.shape@), src.wf(*old(w)), src.numel >= index.numel, src.blk != old(self_).blk
@ens wrote(*old(w), *final(w), *old(self_), *final(self_)),
    final(w).f@[final(self_).blk] == scat(old(w).f@[old(self_).blk], old(self_).off as int, *old(w), old(self_).shape@, axis(dim as int, old(self_).shape.len() as int), *index, *src, index.numel as int)
@at entry
    let ghost s = old(self_).shape@;
    let ghost q = index.shape@;
    let ghost n = s.len() as int;
    let ghost dd = axis(dim as int, n);
    let ghost ax = dim as int;
    let ghost f0 = w.f@[self_.blk];
    let ghost off = self_.off as int;
    lemma_geo(*self_); lemma_geo(*index);
@loop 0
    n == q.len(), n <= 8, stride == sp(q, d + 1), indexStrides.len() == n, ndim == n, *indexShape == index.shape, q == index.shape@, -1 <= d < n,
    forall|k: int| d < k < n ==> #[trigger] indexStrides@[k] == sp(q, k + 1)
@at loop0.begin
    assert(sp(q, d as int) == q[d as int] * sp(q, d + 1)); assert(0 <= sp(q, d as int) <= MAXN());
    assert(sp(q, d + 1) * q[d as int] == q[d as int] * sp(q, d + 1)) by (nonlinear_arith);
@loop 1 isolate
    n == q.len(), n <= 8, ndim == n, n == s.len(), indexStrides.len() == n, coord.len() == n, 0 <= dd < n, dim_8 == dd, dd == axis(ax, n), old(self_).geo(), s == old(self_).shape@, *strides == old(self_).strides, *selfShape == old(self_).shape, q == index.shape@, index.iwf(*old(w)), *index_10 == *index,
    idxPtr.b == index.blk, idxPtr.o == index.off, gok(s, dd, q), 0 <= i <= index.numel,
    forall|k: int| 0 <= k < n ==> #[trigger] indexStrides@[k] == sp(q, k + 1), w.i == old(w).i,
    *self_ == t1, t1.shape == old(self_).shape, t1.strides == old(self_).strides,
    frame1(w0, *w, t1.blk), fresh(*old(w), t1.blk) || t1.blk == old(self_).blk, t1.wf(*w), w0.i == old(w).i, forall|b: u64| b != t1.blk && #[trigger] old(w).f@.dom().contains(b) ==> w0.f@.dom().contains(b) && w0.f@[b] == old(w).f@[b], w.f@[t1.blk].len() == f0.len(), src.wf(*old(w)), src.numel >= index.numel, src.blk != old(self_).blk, t1.numel == sp(s, 0), t1.off == off, off + sp(s, 0) <= f0.len(), 0 <= off, selfPtr.b == t1.blk, selfPtr.o == off, srcPtr.b == src.blk, srcPtr.o == src.off,
    w.f@[t1.blk] == scat(f0, off, *old(w), s, dd, *index, *src, i as int),
    forall|x: int| 0 <= x < f0.len() && !(off <= x < off + sp(s, 0)) ==> #[trigger] w.f@[t1.blk][x] == f0[x]
@at loop1.begin
    let ghost x0 = index.iat(*old(w), i as int);
    lemma_geo(*self_); lemma_geo(*index); lemma_numel_pos(q, 0); lemma_mod_unique(i as int, sp(q, 0), 0, i as int);
@loop 2
    n == q.len(), n <= 8, ndim == n, coord.len() == n, indexStrides.len() == n, 0 <= d <= n, remain == (i as int) % sp(q, d as int), 0 <= remain, 0 <= i < sp(q, 0),
    forall|k: int| 0 <= k < n ==> #[trigger] indexStrides@[k] == sp(q, k + 1),
    nonneg(q), forall|k: int| 0 <= k <= n ==> #[trigger] sp(q, k) > 0,
    forall|k: int| 0 <= k < d ==> #[trigger] coord@[k] == crate::coord(q, i as int, k)
@at loop2.begin
    lemma_digit(q, i as int, d as int); assert(sp(q, d as int) > 0 && sp(q, d + 1) > 0);
@at loop3.before
    let ghost g = gvec(q, s, dd, i as int, x0 as int);
    assert forall|k: int| 0 <= k < n implies 0 <= #[trigger] g[k] < s[k] && coord@[k] == g[k] by { if k != dd { lemma_digit(q, i as int, k); assert(q[k] <= s[k]); assert(0 <= s[k] <= MAXN()); } }
    lemma_pdot_all(s, old(self_).strides@, g);
@loop 3
    0 <= d <= n, n == ndim, n <= 8, n == s.len(), n == old(self_).strides.len(), coord.len() == n, strides.len() == n, *strides == old(self_).strides, offset == pdot(g, old(self_).strides@, d as int), forall|k: int| 0 <= k < n ==> #[trigger] coord@[k] == g[k],
    forall|k: int| 0 <= k <= n ==> 0 <= #[trigger] pdot(g, old(self_).strides@, k) <= MAXN()
@at loop3.begin
    assert(0 <= pdot(g, old(self_).strides@, d as int) <= MAXN()); assert(0 <= pdot(g, old(self_).strides@, d + 1) <= MAXN());
    assert(pdot(g, old(self_).strides@, d + 1) == pdot(g, old(self_).strides@, d as int) + g[d as int] * old(self_).strides@[d as int]);
    assert(coord@[d as int] == g[d as int]);
@at loop1.end
    assert(w.f@[self_.blk] =~= scat(f0, off, *old(w), s, dd, *index, *src, i + 1));
@at before /let mut selfPtr/
    let ghost w0 = *w;
    let ghost t1 = *self_;
@raw
pub proof fn lemma_lead_zero(s: Seq<i64>, c: Seq<i64>, m: int, n: int)
    requires 0 <= m <= n, forall|k: int| m <= k < n ==> #[trigger] c[k] == 0
    ensures lead(s, c, n) == lead(s, c, m)
    decreases n - m
{ if m < n { lemma_lead_zero(s, c, m, n - 1); assert(c[n - 1] == 0); assert(c[n - 1] * sp(s, n) == 0) by (nonlinear_arith) requires c[n - 1] == 0; } }
/// the leading coordinates as a number
pub open spec fn hd(s: Seq<i64>, c: Seq<i64>, k: int) -> int decreases k { if k <= 0 { 0 } else { hd(s, c, k - 1) * s[k - 1] + c[k - 1] } }
pub proof fn lemma_hd(s: Seq<i64>, c: Seq<i64>, k: int)
    requires 0 <= k <= s.len()
    ensures lead(s, c, k) == hd(s, c, k) * sp(s, k)
    decreases k
{
    if k > 0 {
        lemma_hd(s, c, k - 1);
        let h = hd(s, c, k - 1); let m = s[k - 1] as int; let q = sp(s, k); let x = c[k - 1] as int;
        assert(sp(s, k - 1) == m * q);
        assert(h * (m * q) + x * q == (h * m + x) * q) by (nonlinear_arith);
    }
}
pub proof fn lemma_lead_tail(s: Seq<i64>, c: Seq<i64>, n: int, k: int)
    requires nonneg(s), n == s.len(), inrange(s, c, n), 0 <= k <= n
    ensures 0 <= lead(s, c, n) - lead(s, c, k) < sp(s, k)
    decreases n - k
{
    if k < n {
        lemma_lead_tail(s, c, n, k + 1); lemma_sp_nonneg(s, k + 1);
        let p = c[k] as int; let q = sp(s, k + 1); let m = s[k] as int;
        assert(sp(s, k) == m * q); assert(lead(s, c, k + 1) == lead(s, c, k) + p * q); assert(0 <= c[k] < s[k]);
        assert(0 <= p * q && p * q + q <= m * q) by (nonlinear_arith) requires 0 <= p < m, q >= 0;
    }
}
/// the coordinates of the element at offset lead(c) are c
pub proof fn lemma_lead_coord(s: Seq<i64>, c: Seq<i64>, n: int, k: int)
    requires nonneg(s), n == s.len(), inrange(s, c, n), 0 <= k < n
    ensures coord(s, lead(s, c, n), k) == c[k]
{
    lemma_lead_tail(s, c, n, k + 1); lemma_hd(s, c, k + 1); lemma_sp_nonneg(s, k + 1); lemma_sp_nonneg(s, k + 1);
    let x = lead(s, c, n); let q = sp(s, k + 1); let h = hd(s, c, k + 1);
    lemma_mod_unique(x, q, h, x - h * q);
    assert(0 <= c[k] < s[k]);
    lemma_mod_unique(h, s[k] as int, hd(s, c, k), c[k] as int);
}
/// coordinates of the source of element i: those of the result, with the axis coordinate looked up in the index
pub open spec fn selvec(w: World, s: Seq<i64>, d: int, r: Seq<i64>, ix: Tensor, i: int) -> Seq<i64>
{ Seq::new(s.len(), |k: int| if k == d { fx(ix.iat(w, coord(r, i, d)) as int, s[d] as int) as i64 } else { coord(r, i, k) as i64 }) }
pub open spec fn selpos(w: World, s: Seq<i64>, d: int, r: Seq<i64>, ix: Tensor, i: int) -> int { lead(s, selvec(w, s, d, r, ix, i), s.len() as int) }
@fn index_select = tinytorch::op::indexSelectOpCpuImpl<float>
@assume_asserts
@req -8 <= dim <= 8, self_.wf(*old(w)), index.iwf(*old(w)),
    ({ let d = axis(dim as int, self_.shape.len() as int); 0 <= d < self_.shape.len() ==> fits(self_.shape@.update(d, index.numel)) && forall|j: int| 0 <= j < index.numel ==> -self_.shape@[d] <= #[trigger] index.iat(*old(w), j) < self_.shape@[d] })
@ens ({ let d = axis(dim as int, self_.shape.len() as int);
      &&& 0 <= d < self_.shape.len() && res.shape@ == self_.shape@.update(d, index.numel)
      &&& forall|x: int| 0 <= x < res.numel ==> #[trigger] final(w).f@[res.blk][x] == self_.at(*old(w), selpos(*old(w), self_.shape@, d, res.shape@, *index, x)) }),
    res.wf(*final(w)), fresh(*old(w), res.blk), res.off == 0, frame1(*old(w), *final(w), res.blk)
@at entry
    let ghost s = self_.shape@;
    let ghost n = s.len() as int;
    let ghost dd = axis(dim as int, n);
    lemma_geo(*self_); lemma_geo(*index);
@at before /tensor_empty/
    let ghost r = retShape@;
    let ghost m = index.numel;
    assert(r == s.update(dd, m)); assert(nonneg(r)); lemma_fits(r); assert(m == 0 ==> true);
@at after /let mut ret\b/
    lemma_sp_nonneg(r, 0);
    if sp(r, 0) > 0 { lemma_numel_pos(r, 0); }
    assert(forall|k: int| 0 <= k < n ==> ret.strides@[k] == sp(r, k + 1));
@at after /let mut counter/
    assert(ret.numel > 0 ==> inrange(r, counter@, n) && lead(r, counter@, n) == 0) by {
        if ret.numel > 0 { lemma_numel_pos(r, 0); lemma_lead_zero(r, counter@, 0, n); }
    }
@loop 0 isolate
    n == s.len(), n <= 8, ndim == n, s == self_.shape@, 0 <= dd < n, dim == dd, r == s.update(dd, m), m == index.numel, r == ret.shape@, nonneg(r), fits(r), self_.wf(*old(w)), index.iwf(*old(w)), ret.wf(*w), ret.off == 0, fresh(*old(w), ret.blk), frame1(*old(w), *w, ret.blk), w.f@[ret.blk].len() == ret.numel,
    forall|j: int| 0 <= j < m ==> -s[dd] <= #[trigger] index.iat(*old(w), j) < s[dd],
    selfPtr.b == self_.blk, selfPtr.o == self_.off, retPtr.b == ret.blk, retPtr.o == 0, indexPtr.b == index.blk, indexPtr.o == index.off, 0 <= i <= ret.numel,
    counter.len() == n, i < ret.numel ==> inrange(r, counter@, n) && lead(r, counter@, n) == i,
    forall|x: int| 0 <= x < i ==> #[trigger] w.f@[ret.blk][x] == self_.at(*old(w), selpos(*old(w), s, dd, r, *index, x))
@at loop0.begin
    let ghost c = counter@;
    let ghost g = selvec(*old(w), s, dd, r, *index, i as int);
    let ghost w1 = *w;
    lemma_geo(*self_); lemma_geo(*index); lemma_geo(ret); lemma_numel_pos(r, 0);
    assert forall|k: int| 0 <= k < n implies #[trigger] c[k] == coord(r, i as int, k) && 0 <= c[k] < r[k] by { lemma_lead_coord(r, c, n, k); }
    assert forall|k: int| 0 <= k < n implies 0 <= #[trigger] g[k] < s[k] by { assert(0 <= c[k] < r[k] && c[k] == coord(r, i as int, k)); assert(0 <= s[k] <= MAXN()); if k == dd { assert(-s[dd] <= index.iat(*old(w), c[k] as int) < s[dd]); } }
    lemma_pdot_all(s, self_.strides@, g); lemma_pdot_all(r, ret.strides@, c);
@loop 1
    n <= 8, n == ndim, n == s.len(), s == self_.shape@, dim == dd, 0 <= dd < n, 0 <= d <= n, counter@ == c, c.len() == n, *w == w1, w1.i == old(w).i, self_.geo(), index.iwf(*old(w)), indexPtr.b == index.blk, indexPtr.o == index.off, m == index.numel, r.len() == n, r[dd] == m,
    selfOffset == pdot(g, self_.strides@, d as int), g == selvec(*old(w), s, dd, r, *index, i as int),
    forall|k: int| 0 <= k < n ==> #[trigger] c[k] == coord(r, i as int, k) && 0 <= c[k] < r[k],
    forall|k: int| 0 <= k < n ==> 0 <= #[trigger] g[k] < s[k],
    forall|k: int| 0 <= k <= n ==> 0 <= #[trigger] pdot(g, self_.strides@, k) <= MAXN(),
    forall|j: int| 0 <= j < m ==> -s[dd] <= #[trigger] index.iat(*old(w), j) < s[dd]
@at loop1.begin
    let ghost k = d as int;
    assert(c[k] == coord(r, i as int, k) && 0 <= c[k] < r[k]); assert(0 <= g[k] < s[k]); assert(c[dd] == coord(r, i as int, dd) && 0 <= c[dd] < r[dd]);
    assert(0 <= pdot(g, self_.strides@, k) <= MAXN() && 0 <= pdot(g, self_.strides@, k + 1) <= MAXN());
    assert(pdot(g, self_.strides@, k + 1) == pdot(g, self_.strides@, k) + g[k] * self_.strides@[k]);
    assert(-s[dd] <= index.iat(*old(w), c[dd] as int) < s[dd]); lemma_geo(*self_); assert(s[dd] <= MAXN());
    assert(k != dd ==> g[k] == c[k]); assert(k == dd ==> g[k] == fx(index.iat(*old(w), c[k] as int) as int, s[dd] as int));
@loop 2
    n <= 8, n == ndim, 0 <= d <= n, counter@ == c, c.len() == n, ret.geo(), ret.strides.len() == n, outOffset == pdot(c, ret.strides@, d as int),
    forall|k: int| 0 <= k <= n ==> 0 <= #[trigger] pdot(c, ret.strides@, k) <= MAXN()
@at loop2.begin
    assert(0 <= pdot(c, ret.strides@, d as int) <= MAXN() && 0 <= pdot(c, ret.strides@, d + 1) <= MAXN());
    assert(pdot(c, ret.strides@, d + 1) == pdot(c, ret.strides@, d as int) + c[d as int] * ret.strides@[d as int]);
@at loop3.before
    assert(outOffset == i);
    assert(sp(r, n) == 1);
    assert(w.f@[ret.blk][i as int] == self_.at(*old(w), selpos(*old(w), s, dd, r, *index, i as int)));
    let ghost w2 = *w;
@at loop3.unbroken
    lead(r, counter@, d + 1) + sp(r, d + 1) == i + 1, forall|k: int| d < k < n ==> #[trigger] counter@[k] == 0, forall|k: int| 0 <= k <= d ==> 0 <= #[trigger] counter@[k] < r[k],
    -1 <= d < n
@loop 3 isolate
    n <= 8, n == ndim, n == s.len(), r == s.update(dd, m), m == index.numel, 0 <= dd < n, dim == dd, self_.geo(), s == self_.shape@, counter.len() == n, nonneg(r), fits(r), ret.numel == sp(r, 0), 0 <= i < ret.numel, forall|k: int| 0 <= k < n ==> #[trigger] r[k] > 0,
    -1 <= d < n
@at loop3.ensures
    i + 1 < ret.numel ==> inrange(r, counter@, n) && lead(r, counter@, n) == i + 1,
@at loop3.begin
    let ghost c1 = counter@;
    lemma_fits(r); assert(0 <= r[d as int] <= MAXN()); assert(0 <= c1[d as int] < r[d as int]);
    assert(c1[d as int] + 1 <= MAXN());
    assert(lead(r, c1, d + 1) == lead(r, c1, d as int) + c1[d as int] * sp(r, d + 1));
    assert(sp(r, d as int) == r[d as int] * sp(r, d + 1));
@at before /if \(counter/
    lemma_lead_eq(r, c1, counter@, d as int);
    assert(lead(r, counter@, d + 1) == lead(r, counter@, d as int) + counter@[d as int] * sp(r, d + 1));
    assert((c1[d as int] + 1) * sp(r, d + 1) == c1[d as int] * sp(r, d + 1) + sp(r, d + 1)) by (nonlinear_arith);
    lemma_lead_zero(r, counter@, d + 1, n);
    assert(r[d as int] == (if d == dim { index.numel } else { s[d as int] }));
@at loop3.end
    lemma_lead_eq(r, c1, counter@, d as int);
