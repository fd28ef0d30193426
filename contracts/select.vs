@tu
#include "Operation/OpSamplingCpu.h"
namespace tinytorch::op {
template Tensor cumsumOpCpuImpl<float>(const Tensor& self, int64_t dim);
template TensorPair sortOpCpuImpl<float>(const Tensor& self, int64_t dim, bool descending);
template TensorPair topkOpCpuImpl<float>(const Tensor& self, int64_t k, int64_t dim, bool largest, bool sorted);
template Tensor multinomialOpCpuImpl<float>(const Tensor& self, int64_t numSamples, bool replacement);
}
@prelude base float nd tensor
@opt type=TensorPair=>(Tensor, Tensor)
@opt type=tinytorch::TensorPair=>(Tensor, Tensor)
@opt type=std::function<bool (const std::pair<float, long> &, const std::pair<float, long> &)>=>Cmp
@opt type=std::function<bool (const std::pair<T, int64_t> &, const std::pair<T, int64_t> &)>=>Cmp
@opt copytype=Cmp
@opt type=__gnu_cxx::__normal_iterator<float *, std::vector<float>>=>i64
@opt call=sort/3=>! std_sort(&mut $W0, $K0, $K1, $L2)
@opt call=partial_sort/4=>! std_partial_sort(&mut $W0, $K0, $K1, $K2, $L3)
@opt call=partial_sum/3=>! std_partial_sum(&$W0, $K0, $K1, &mut $W2, $K2)
@opt call=upper_bound/3=>= std_upper_bound(&$W0, $K0, $K1, $2)
@opt call=distance/2=>($1 - $K0)
@opt type=std::default_random_engine=>Gen
@opt type=std::uniform_real_distribution<float>=>Uni
@opt copytype=Gen Uni
@opt globalref=Gen
@opt call=tinytorch::RandomGeneratorCPU::getGenerator/0=>gen_get()
@opt call=ctor Uni/2=>Uni::new($0, $1)
@opt call=operator()/2=>$0.draw($m1)
@opt call=ctor Cmp/0=>cmp_none()
@opt call=ctor Cmp/1=>$L0
@raw
pub type Cmp = Ghost<spec_fn((F, i64), (F, i64)) -> bool>;
#[verifier::external_body]
pub fn cmp_none() -> (r: Cmp) { unimplemented!() }
@include cells.inc
@include gen.inc
/// every float and index block of w0 is as it was
pub open spec fn kept2(w0: World, w1: World) -> bool {
    w1.b == w0.b && (forall|b: u64| #[trigger] w0.f@.dom().contains(b) ==> w1.f@.dom().contains(b) && w1.f@[b] == w0.f@[b]) && (forall|b: u64| #[trigger] w0.i@.dom().contains(b) ==> w1.i@.dom().contains(b) && w1.i@[b] == w0.i@[b])
}
pub open spec fn okdim(t: Tensor, dim: int) -> bool { -t.shape.len() <= dim < t.shape.len() }
/// cells visited before position i of slice (o, in)
pub open spec fn upto(c: R3, o: int, j: int, d: int) -> bool { done3(c, o, j) || (c.o == o && c.i == j && c.d < d) }
pub open spec fn srow(o: int, D: int, I: int, c: R3) -> int { o + c.o * (D * I) + c.i }
/// sum of the first t elements of the slice at b with step st
pub open spec fn psum(m: Seq<F>, b: int, st: int, t: int) -> F decreases t { if t <= 0 { sf_int(0) } else { sf_add(psum(m, b, st, t - 1), m[b + (t - 1) * st]) } }
pub open spec fn csv(m: Seq<F>, o: int, D: int, I: int, c: R3) -> F { psum(m, srow(o, D, I, c), I, c.d + 1) }
/// the slice's elements with their positions
pub open spec fn slc(m: Seq<F>, b: int, st: int, n: int) -> Seq<(F, i64)> { Seq::new(n as nat, |d: int| (m[b + d * st], d as i64)) }
pub type Gc = spec_fn((F, i64), (F, i64)) -> bool;
pub open spec fn gtf() -> Gc { |a: (F, i64), b: (F, i64)| sf_gt(a.0, b.0) }
pub open spec fn ltf() -> Gc { |a: (F, i64), b: (F, i64)| sf_lt(a.0, b.0) }
/// strict weak order on the elements of s (floats: no NaN among them)
pub open spec fn swo(g: Gc, s: Seq<(F, i64)>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> !g(#[trigger] s[i], s[i])
    &&& forall|i: int, j: int, k: int| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len() && g(#[trigger] s[i], #[trigger] s[j]) && g(s[j], #[trigger] s[k]) ==> g(s[i], s[k])
    &&& forall|i: int, j: int, k: int| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len() && !g(#[trigger] s[i], #[trigger] s[j]) && !g(s[j], #[trigger] s[k]) ==> !g(s[i], s[k])
}
pub open spec fn ordered(g: Gc, s: Seq<(F, i64)>, k: int) -> bool { forall|i: int, j: int| 0 <= i < j < k ==> !g(#[trigger] s[j], #[trigger] s[i]) }
/// no element from position k on comes before one of the first k
pub open spec fn extremal(g: Gc, s: Seq<(F, i64)>, k: int) -> bool { forall|i: int, j: int| 0 <= i < k && k <= j < s.len() ==> !g(#[trigger] s[j], #[trigger] s[i]) }
/// what std::sort leaves when it sorts the first k elements of s, and std::partial_sort: functions of the sequence and the order
pub uninterp spec fn sorted_(s: Seq<(F, i64)>, k: int, g: Gc) -> Seq<(F, i64)>;
pub uninterp spec fn psorted(s: Seq<(F, i64)>, k: int, g: Gc) -> Seq<(F, i64)>;
pub axiom fn axiom_sorted(s: Seq<(F, i64)>, k: int, g: Gc)
    requires 0 <= k <= s.len()
    ensures sorted_(s, k, g).len() == s.len(), sorted_(s, k, g).subrange(0, k).to_multiset() == s.subrange(0, k).to_multiset(), sorted_(s, k, g).subrange(k, s.len() as int) == s.subrange(k, s.len() as int), swo(g, s) ==> ordered(g, sorted_(s, k, g), k);
pub axiom fn axiom_psorted(s: Seq<(F, i64)>, k: int, g: Gc)
    requires 0 <= k <= s.len()
    ensures psorted(s, k, g).len() == s.len(), psorted(s, k, g).to_multiset() == s.to_multiset(), swo(g, s) ==> ordered(g, psorted(s, k, g), k) && extremal(g, psorted(s, k, g), k);
pub open spec fn same_order(g: Gc, h: Gc) -> bool { forall|a: (F, i64), b: (F, i64)| #[trigger] h(a, b) == g(a, b) }
#[verifier::external_body]
pub fn std_sort(v: &mut Vec<(F, i64)>, b: i64, e: i64, g: Cmp)
    requires b == 0, 0 <= e <= old(v).len()
    ensures final(v).len() == old(v).len(), forall|h: Gc| same_order(g@, h) ==> final(v)@ == #[trigger] sorted_(old(v)@, e as int, h)
{ unimplemented!() }
#[verifier::external_body]
pub fn std_partial_sort(v: &mut Vec<(F, i64)>, b: i64, m: i64, e: i64, g: Cmp)
    requires b == 0, 0 <= m <= e, e == old(v).len()
    ensures final(v).len() == old(v).len(), forall|h: Gc| same_order(g@, h) ==> final(v)@ == #[trigger] psorted(old(v)@, m as int, h)
{ unimplemented!() }
pub open spec fn ord(up: bool) -> Gc { if up { gtf() } else { ltf() } }
pub open spec fn sfin(m: Seq<F>, b: int, st: int, n: int, desc: bool) -> Seq<(F, i64)> { sorted_(slc(m, b, st, n), n, ord(desc)) }
pub open spec fn tfin(m: Seq<F>, b: int, st: int, n: int, k: int, lg: bool, sd: bool) -> Seq<(F, i64)> { let p = psorted(slc(m, b, st, n), k, ord(lg)); if sd { sorted_(p, k, ord(lg)) } else { p } }
/// every entry pairs a position of the slice with the element there, and no position comes twice
pub open spec fn maps_back(p: Seq<(F, i64)>, m: Seq<F>, b: int, st: int, n: int) -> bool {
    &&& forall|d: int| 0 <= d < p.len() ==> 0 <= (#[trigger] p[d]).1 < n && p[d].0 == m[b + p[d].1 * st]
    &&& forall|d: int, e: int| 0 <= d < e < p.len() ==> (#[trigger] p[d]).1 != (#[trigger] p[e]).1
}
pub proof fn lemma_back(p: Seq<(F, i64)>, m: Seq<F>, b: int, st: int, n: int)
    requires 0 <= n <= MAXN(), p.to_multiset() == slc(m, b, st, n).to_multiset()
    ensures maps_back(p, m, b, st, n), p.len() == n
{
    let s = slc(m, b, st, n);
    p.to_multiset_ensures(); s.to_multiset_ensures();
    assert(s.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { assert(s[i].1 == i && s[j].1 == j); } }
    s.lemma_multiset_has_no_duplicates(); p.lemma_multiset_has_no_duplicates_conv();
    assert forall|d: int| 0 <= d < p.len() implies 0 <= (#[trigger] p[d]).1 < n && p[d].0 == m[b + p[d].1 * st] by {
        assert(p.to_multiset().count(p[d]) > 0) by { assert(p.contains(p[d])); }
        assert(s.contains(p[d]));
        let e = choose|e: int| 0 <= e < s.len() && s[e] == p[d];
        assert(s[e].1 == e);
    }
    assert forall|d: int, e: int| 0 <= d < e < p.len() implies (#[trigger] p[d]).1 != (#[trigger] p[e]).1 by {
        if p[d].1 == p[e].1 { assert(p[d] == p[e]); }
    }
}
/// C18 sort: the result of a slice maps back to it and is in the requested order
pub proof fn lemma_sort(m: Seq<F>, b: int, st: int, n: int, desc: bool)
    requires 0 <= n <= MAXN()
    ensures sfin(m, b, st, n, desc).len() == n, maps_back(sfin(m, b, st, n, desc), m, b, st, n),
        swo(ord(desc), slc(m, b, st, n)) ==> forall|i: int, j: int| 0 <= i < j < n ==> (if desc { !sf_gt(#[trigger] sfin(m, b, st, n, desc)[j].0, #[trigger] sfin(m, b, st, n, desc)[i].0) } else { !sf_lt(sfin(m, b, st, n, desc)[j].0, sfin(m, b, st, n, desc)[i].0) })
{
    let s = slc(m, b, st, n); let p = sfin(m, b, st, n, desc);
    axiom_sorted(s, n, ord(desc));
    assert(p.subrange(0, n) =~= p); assert(s.subrange(0, n) =~= s);
    lemma_back(p, m, b, st, n);
    if swo(ord(desc), s) { assert forall|i: int, j: int| 0 <= i < j < n implies (if desc { !sf_gt(#[trigger] p[j].0, #[trigger] p[i].0) } else { !sf_lt(p[j].0, p[i].0) }) by { assert(!ord(desc)(p[j], p[i])); } }
}
/// C18 top-k: k entries that map back, none of the others comes before one of them; in order when asked
pub proof fn lemma_topk(m: Seq<F>, b: int, st: int, n: int, k: int, lg: bool, sd: bool)
    requires 0 < k <= n <= MAXN()
    ensures tfin(m, b, st, n, k, lg, sd).len() == n, maps_back(tfin(m, b, st, n, k, lg, sd), m, b, st, n),
        swo(ord(lg), slc(m, b, st, n)) ==> extremal(ord(lg), tfin(m, b, st, n, k, lg, sd), k) && ordered(ord(lg), tfin(m, b, st, n, k, lg, sd), k)
{
    let g = ord(lg); let s = slc(m, b, st, n); let p = psorted(s, k, g); let q = tfin(m, b, st, n, k, lg, sd);
    axiom_psorted(s, k, g); axiom_sorted(p, k, g);
    lemma_back(p, m, b, st, n);
    if sd {
        let a = q.subrange(0, k); let c = p.subrange(0, k); let r = p.subrange(k, n);
        assert(q =~= a + r); assert(p =~= c + r);
        vstd::seq_lib::lemma_multiset_commutative(a, r); vstd::seq_lib::lemma_multiset_commutative(c, r);
        assert(q.to_multiset() == p.to_multiset());
        lemma_back(q, m, b, st, n);
        if swo(g, s) {
            lemma_swo(g, s, p);
            assert forall|i: int, j: int| 0 <= i < k && k <= j < q.len() implies !g(#[trigger] q[j], #[trigger] q[i]) by {
                a.to_multiset_ensures(); c.to_multiset_ensures();
                assert(a.contains(a[i])); assert(a.to_multiset().count(a[i]) > 0); assert(c.contains(a[i]));
                let e = choose|e: int| 0 <= e < c.len() && c[e] == a[i];
                assert(q[j] == r[j - k] && p[j] == r[j - k]); assert(!g(p[j], p[e]));
            }
        }
    }
}
pub proof fn lemma_swo(g: Gc, s: Seq<(F, i64)>, p: Seq<(F, i64)>)
    requires swo(g, s), p.to_multiset() == s.to_multiset()
    ensures swo(g, p)
{
    p.to_multiset_ensures(); s.to_multiset_ensures();
    assert forall|i: int| 0 <= i < p.len() implies exists|e: int| 0 <= e < s.len() && s[e] == #[trigger] p[i] by { assert(p.contains(p[i])); assert(p.to_multiset().count(p[i]) > 0); assert(s.contains(p[i])); }
    assert forall|i: int| 0 <= i < p.len() implies !g(#[trigger] p[i], p[i]) by { let e = choose|e: int| 0 <= e < s.len() && s[e] == p[i]; assert(!g(s[e], s[e])); }
    assert forall|i: int, j: int, k: int| 0 <= i < p.len() && 0 <= j < p.len() && 0 <= k < p.len() && g(#[trigger] p[i], #[trigger] p[j]) && g(p[j], #[trigger] p[k]) implies g(p[i], p[k]) by {
        let a = choose|e: int| 0 <= e < s.len() && s[e] == p[i]; let b = choose|e: int| 0 <= e < s.len() && s[e] == p[j]; let c = choose|e: int| 0 <= e < s.len() && s[e] == p[k]; assert(g(s[a], s[b]) && g(s[b], s[c]));
    }
    assert forall|i: int, j: int, k: int| 0 <= i < p.len() && 0 <= j < p.len() && 0 <= k < p.len() && !g(#[trigger] p[i], #[trigger] p[j]) && !g(p[j], #[trigger] p[k]) implies !g(p[i], p[k]) by {
        let a = choose|e: int| 0 <= e < s.len() && s[e] == p[i]; let b = choose|e: int| 0 <= e < s.len() && s[e] == p[j]; let c = choose|e: int| 0 <= e < s.len() && s[e] == p[k]; assert(!g(s[a], s[b]) && !g(s[b], s[c]));
    }
}
pub proof fn lemma_sub(o: int, O: int, D: int, I: int, s: Seq<i64>, n: int)
    requires 0 <= o < O, 0 <= n < s.len(), nonneg(s), fits(s), O == outer(s, n), D == s[n], I == inner(s, n)
    ensures 0 <= o * D <= MAXN(), (o * D) * I == o * (D * I), 0 <= o * (D * I), 0 <= D * I, o * (D * I) + D * I <= O * (D * I), 0 <= O * (D * I) <= MAXN()
{
    lemma_od(o, O, D, I, s, n); lemma_axis(s, n); lemma_fits(s);
    assert(0 <= D * I) by (nonlinear_arith) requires D >= 0, I >= 0;
    let q = D * I;
    assert(0 <= o * q && o * q + q <= O * q) by (nonlinear_arith) requires 0 <= o < O, q >= 0;
    assert(0 <= sp(s, 0) <= MAXN());
}
@fn cumsum = tinytorch::op::cumsumOpCpuImpl<float>
@assume_asserts
@req
self_.wf(*old(w)), -MAXN() <= dim <= MAXN(),
@ens
okdim(*self_, dim as int), res.wf(*final(w)), res.shape@ == self_.shape@, res.off == 0, keeps(*old(w), *final(w)), fresh(*old(w), res.blk),
({ let n = nrm(dim as int, self_.shape.len() as int); let D = self_.shape[n] as int; let I = inner(self_.shape@, n);
 forall|y: int| 0 <= y < res.numel ==> #[trigger] final(w).f@[res.blk][y] == csv(old(w).f@[self_.blk], self_.off as int, D, I, cell(D, I, y)) }),
@at entry
lemma_geo(*self_); lemma_fits(self_.shape@);
let ghost dim0 = dim as int; let ghost m0 = old(w).f@[self_.blk]; let ghost so = self_.off as int;
@at before /tensor_empty\(/
let ghost nd = nrm(dim0, self_.shape.len() as int); let ghost O = outer(self_.shape@, nd); let ghost D = self_.shape[nd] as int; let ghost I = inner(self_.shape@, nd);
lemma_axis(self_.shape@, nd); lemma_cells(O, D, I);
assert(self_.numel == O * (D * I));
@at loop0.before
assert(pr(self_.shape@, 0, 0) == 1);
@loop 0
outer == pr(self_.shape@, 0, i as int), dim == nd,
@at loop0.begin
lemma_pr_last(self_.shape@, 0, i as int); assert(0 <= pr(self_.shape@, 0, i + 1) <= MAXN());
@at loop1.before
assert(pr(self_.shape@, dim + 1, dim + 1) == 1);
@loop 1
inner == pr(self_.shape@, dim + 1, i as int),
@at loop1.begin
lemma_pr_last(self_.shape@, dim + 1, i as int); assert(0 <= pr(self_.shape@, dim + 1, i + 1) <= MAXN());
@loop 2
outer == O, inner == I, n == D, frame1(*old(w), *w, ret.blk), w.f@[ret.blk].len() == self_.numel,
forall|y: int| 0 <= y < self_.numel && done3(cell(D, I, y), o as int, 0) ==> #[trigger] w.f@[ret.blk][y] == csv(m0, so, D, I, cell(D, I, y)),
@at loop2.begin
lemma_sub(o as int, O, D, I, self_.shape@, nd);
@loop 3
frame1(*old(w), *w, ret.blk), w.f@[ret.blk].len() == self_.numel,
forall|y: int| 0 <= y < self_.numel && done3(cell(D, I, y), o as int, in_ as int) ==> #[trigger] w.f@[ret.blk][y] == csv(m0, so, D, I, cell(D, I, y)),
@at loop3.begin
let ghost b0 = so + o * (D * I) + in_;
@loop 4
frame1(*old(w), *w, ret.blk), w.f@[ret.blk].len() == self_.numel, sum == psum(m0, b0, I, i as int),
forall|y: int| 0 <= y < self_.numel && upto(cell(D, I, y), o as int, in_ as int, i as int) ==> #[trigger] w.f@[ret.blk][y] == csv(m0, so, D, I, cell(D, I, y)),
@at loop4.begin
let ghost cc = R3 { o: o as int, d: i as int, i: in_ as int };
lemma_addr3(O, D, I, cc); assert(w.f@[self_.blk] == m0);
assert(psum(m0, b0, I, i + 1) == sf_add(psum(m0, b0, I, i as int), m0[b0 + i * I]));
@fn sort = tinytorch::op::sortOpCpuImpl<float>
@assume_asserts
@req
self_.wf(*old(w)), -MAXN() <= dim <= MAXN(),
@ens
okdim(*self_, dim as int), res.0.wf(*final(w)), res.1.iwf(*final(w)), res.0.shape@ == self_.shape@, res.1.shape@ == self_.shape@, res.0.off == 0, res.1.off == 0, kept2(*old(w), *final(w)), fresh(*old(w), res.0.blk), fresh(*old(w), res.1.blk),
({ let n = nrm(dim as int, self_.shape.len() as int); let D = self_.shape[n] as int; let I = inner(self_.shape@, n);
 &&& forall|y: int| 0 <= y < self_.numel ==> #[trigger] final(w).f@[res.0.blk][y] == sfin(old(w).f@[self_.blk], srow(self_.off as int, D, I, cell(D, I, y)), I, D, descending)[cell(D, I, y).d].0
 &&& forall|y: int| 0 <= y < self_.numel ==> #[trigger] final(w).i@[res.1.blk][y] == sfin(old(w).f@[self_.blk], srow(self_.off as int, D, I, cell(D, I, y)), I, D, descending)[cell(D, I, y).d].1 }),
@at entry
lemma_geo(*self_); lemma_fits(self_.shape@);
let ghost dim0 = dim as int; let ghost m0 = old(w).f@[self_.blk]; let ghost so = self_.off as int;
@at before /tensor_empty\(/
let ghost nd = nrm(dim0, self_.shape.len() as int); let ghost O = outer(self_.shape@, nd); let ghost D = self_.shape[nd] as int; let ghost I = inner(self_.shape@, nd);
lemma_axis(self_.shape@, nd); lemma_cells(O, D, I);
assert(self_.numel == O * (D * I));
@at loop0.before
assert(pr(self_.shape@, 0, 0) == 1);
@loop 0
outer == pr(self_.shape@, 0, i as int), dim == nd,
@at loop0.begin
lemma_pr_last(self_.shape@, 0, i as int); assert(0 <= pr(self_.shape@, 0, i + 1) <= MAXN());
@at loop1.before
assert(pr(self_.shape@, dim + 1, dim + 1) == 1);
@loop 1
inner == pr(self_.shape@, dim + 1, i as int),
@at loop1.begin
lemma_pr_last(self_.shape@, dim + 1, i as int); assert(0 <= pr(self_.shape@, dim + 1, i + 1) <= MAXN());
@loop 2
outer == O, inner == I, n == D, kept2(*old(w), *w), w.f@.dom().contains(values.blk), w.i@.dom().contains(indices.blk), w.f@[values.blk].len() == self_.numel, w.i@[indices.blk].len() == self_.numel,
forall|y: int| 0 <= y < self_.numel && done3(cell(D, I, y), o as int, 0) ==> #[trigger] w.f@[values.blk][y] == sfin(m0, srow(so, D, I, cell(D, I, y)), I, D, descending)[cell(D, I, y).d].0,
forall|y: int| 0 <= y < self_.numel && done3(cell(D, I, y), o as int, 0) ==> #[trigger] w.i@[indices.blk][y] == sfin(m0, srow(so, D, I, cell(D, I, y)), I, D, descending)[cell(D, I, y).d].1,
@at loop2.begin
lemma_sub(o as int, O, D, I, self_.shape@, nd);
@loop 3
kept2(*old(w), *w), w.f@.dom().contains(values.blk), w.i@.dom().contains(indices.blk), w.f@[values.blk].len() == self_.numel, w.i@[indices.blk].len() == self_.numel,
forall|y: int| 0 <= y < self_.numel && done3(cell(D, I, y), o as int, in_ as int) ==> #[trigger] w.f@[values.blk][y] == sfin(m0, srow(so, D, I, cell(D, I, y)), I, D, descending)[cell(D, I, y).d].0,
forall|y: int| 0 <= y < self_.numel && done3(cell(D, I, y), o as int, in_ as int) ==> #[trigger] w.i@[indices.blk][y] == sfin(m0, srow(so, D, I, cell(D, I, y)), I, D, descending)[cell(D, I, y).d].1,
@at loop3.begin
let ghost b0 = so + o * (D * I) + in_;
assert(w.f@[self_.blk] == m0);
let ghost fin = sfin(m0, b0, I, D, descending);
@loop 4
vec.len() == D, forall|d: int| 0 <= d < i ==> #[trigger] vec@[d] == (m0[b0 + d * I], d as i64),
@at loop4.begin
lemma_addr3(O, D, I, R3 { o: o as int, d: i as int, i: in_ as int });
@at loop4.after
assert(vec@ =~= slc(m0, b0, I, D));
assert(sorted_(vec@, D, ord(descending)) == fin);
@at loop5.before
assert(vec@ == fin);
@loop 5
vec@ == fin, fin.len() == D, kept2(*old(w), *w), w.f@.dom().contains(values.blk), w.i@.dom().contains(indices.blk), w.f@[values.blk].len() == self_.numel, w.i@[indices.blk].len() == self_.numel,
forall|y: int| 0 <= y < self_.numel && upto(cell(D, I, y), o as int, in_ as int, i as int) ==> #[trigger] w.f@[values.blk][y] == sfin(m0, srow(so, D, I, cell(D, I, y)), I, D, descending)[cell(D, I, y).d].0,
forall|y: int| 0 <= y < self_.numel && upto(cell(D, I, y), o as int, in_ as int, i as int) ==> #[trigger] w.i@[indices.blk][y] == sfin(m0, srow(so, D, I, cell(D, I, y)), I, D, descending)[cell(D, I, y).d].1,
@at loop5.begin
lemma_addr3(O, D, I, R3 { o: o as int, d: i as int, i: in_ as int });
@fn topk = tinytorch::op::topkOpCpuImpl<float>
@assume_asserts
@req
self_.wf(*old(w)), -MAXN() <= dim <= MAXN(), -MAXN() <= k <= MAXN(),
@ens
okdim(*self_, dim as int), res.0.wf(*final(w)), res.1.iwf(*final(w)), 0 < k <= self_.shape[nrm(dim as int, self_.shape.len() as int)], res.0.shape@ == self_.shape@.update(nrm(dim as int, self_.shape.len() as int), k), res.1.shape@ == res.0.shape@, res.0.off == 0, res.1.off == 0, kept2(*old(w), *final(w)), fresh(*old(w), res.0.blk), fresh(*old(w), res.1.blk),
({ let n = nrm(dim as int, self_.shape.len() as int); let D = self_.shape[n] as int; let I = inner(self_.shape@, n); let N = res.0.numel as int;
 &&& forall|y: int| 0 <= y < N ==> #[trigger] final(w).f@[res.0.blk][y] == tfin(old(w).f@[self_.blk], srow(self_.off as int, D, I, cell(k as int, I, y)), I, D, k as int, largest, sorted)[cell(k as int, I, y).d].0
 &&& forall|y: int| 0 <= y < N ==> #[trigger] final(w).i@[res.1.blk][y] == tfin(old(w).f@[self_.blk], srow(self_.off as int, D, I, cell(k as int, I, y)), I, D, k as int, largest, sorted)[cell(k as int, I, y).d].1 }),
@at entry
lemma_geo(*self_); lemma_fits(self_.shape@);
let ghost dim0 = dim as int; let ghost m0 = old(w).f@[self_.blk]; let ghost so = self_.off as int;
@at before /tensor_empty\(/
let ghost nd = nrm(dim0, self_.shape.len() as int); let ghost O = outer(self_.shape@, nd); let ghost D = self_.shape[nd] as int; let ghost I = inner(self_.shape@, nd);
let ghost K = k as int; let ghost N = O * (K * I); let ghost s1 = self_.shape@.update(nd, k);
lemma_axis(self_.shape@, nd); lemma_cells(O, K, I);
lemma_axis_upd(self_.shape@, nd, k); lemma_axis(s1, nd);
assert(self_.numel == O * (D * I)); assert(retShape@ == s1); lemma_fits(s1);
@at loop0.before
assert(pr(self_.shape@, 0, 0) == 1);
@loop 0
outerSize == pr(self_.shape@, 0, i as int), dim == nd,
@at loop0.begin
lemma_pr_last(self_.shape@, 0, i as int); assert(0 <= pr(self_.shape@, 0, i + 1) <= MAXN());
@at loop1.before
assert(pr(self_.shape@, dim + 1, dim + 1) == 1);
@loop 1
innerSize == pr(self_.shape@, dim + 1, i as int),
@at loop1.begin
lemma_pr_last(self_.shape@, dim + 1, i as int); assert(0 <= pr(self_.shape@, dim + 1, i + 1) <= MAXN());
@loop 2
outerSize == O, innerSize == I, n == D, same_order(cmp@, ord(largest)), kept2(*old(w), *w), w.f@.dom().contains(values.blk), w.i@.dom().contains(indices.blk), w.f@[values.blk].len() == N, w.i@[indices.blk].len() == N,
forall|y: int| 0 <= y < N && done3(cell(k as int, I, y), o as int, 0) ==> #[trigger] w.f@[values.blk][y] == tfin(m0, srow(so, D, I, cell(k as int, I, y)), I, D, k as int, largest, sorted)[cell(k as int, I, y).d].0,
forall|y: int| 0 <= y < N && done3(cell(k as int, I, y), o as int, 0) ==> #[trigger] w.i@[indices.blk][y] == tfin(m0, srow(so, D, I, cell(k as int, I, y)), I, D, k as int, largest, sorted)[cell(k as int, I, y).d].1,
@at loop2.begin
lemma_sub(o as int, O, D, I, self_.shape@, nd); lemma_sub(o as int, O, K, I, s1, nd);
@loop 3
same_order(cmp@, ord(largest)),
kept2(*old(w), *w), w.f@.dom().contains(values.blk), w.i@.dom().contains(indices.blk), w.f@[values.blk].len() == N, w.i@[indices.blk].len() == N,
forall|y: int| 0 <= y < N && done3(cell(k as int, I, y), o as int, in_ as int) ==> #[trigger] w.f@[values.blk][y] == tfin(m0, srow(so, D, I, cell(k as int, I, y)), I, D, k as int, largest, sorted)[cell(k as int, I, y).d].0,
forall|y: int| 0 <= y < N && done3(cell(k as int, I, y), o as int, in_ as int) ==> #[trigger] w.i@[indices.blk][y] == tfin(m0, srow(so, D, I, cell(k as int, I, y)), I, D, k as int, largest, sorted)[cell(k as int, I, y).d].1,
@at loop3.begin
let ghost b0 = so + o * (D * I) + in_;
assert(w.f@[self_.blk] == m0);
let ghost fin = tfin(m0, b0, I, D, K, largest, sorted);
@loop 4
same_order(cmp@, ord(largest)),
vec.len() == D, forall|d: int| 0 <= d < i ==> #[trigger] vec@[d] == (m0[b0 + d * I], d as i64),
@at loop4.begin
lemma_addr3(O, D, I, R3 { o: o as int, d: i as int, i: in_ as int });
@at loop4.after
assert(vec@ =~= slc(m0, b0, I, D));
let ghost sl = slc(m0, b0, I, D);
axiom_psorted(sl, K, ord(largest)); axiom_sorted(psorted(sl, K, ord(largest)), K, ord(largest));
@at loop5.before
assert(vec@ == fin);
@loop 5
vec@ == fin, fin.len() == D, kept2(*old(w), *w), w.f@.dom().contains(values.blk), w.i@.dom().contains(indices.blk), w.f@[values.blk].len() == N, w.i@[indices.blk].len() == N,
forall|y: int| 0 <= y < N && upto(cell(k as int, I, y), o as int, in_ as int, i as int) ==> #[trigger] w.f@[values.blk][y] == tfin(m0, srow(so, D, I, cell(k as int, I, y)), I, D, k as int, largest, sorted)[cell(k as int, I, y).d].0,
forall|y: int| 0 <= y < N && upto(cell(k as int, I, y), o as int, in_ as int, i as int) ==> #[trigger] w.i@[indices.blk][y] == tfin(m0, srow(so, D, I, cell(k as int, I, y)), I, D, k as int, largest, sorted)[cell(k as int, I, y).d].1,
@at loop5.begin
lemma_addr3(O, K, I, R3 { o: o as int, d: i as int, i: in_ as int });
assert((o * K + i) * I == o * K * I + i * I) by (nonlinear_arith);
@raw
// facts of IEEE arithmetic the cumulative distribution rests on; they hold for every value, infinities and NaN included
pub open spec fn z0() -> F { sf_int(0) }
pub axiom fn axiom_zero_add(x: F, z: F, r: F) ensures sf_eq(z, z0()) && sf_lt(r, sf_add(x, z)) ==> sf_lt(r, x);
pub axiom fn axiom_zero_draw(d: F, t: F, z: F) ensures sf_le(sf_lit(0.0real), d) && sf_gt(t, z0()) && sf_eq(z, z0()) ==> !sf_lt(sf_mul(d, t), z);
pub axiom fn axiom_add_nonpos(x: F, y: F) ensures !sf_gt(x, z0()) && !sf_gt(y, z0()) ==> !sf_gt(sf_add(x, y), z0());
pub axiom fn axiom_pos_nonzero(x: F) ensures sf_gt(x, z0()) ==> !sf_eq(x, z0());
pub axiom fn axiom_zero_eq() ensures sf_eq(z0(), z0()), sf_le(sf_lit(0.0real), sf_lit(1.0real));
pub open spec fn cums(p: Seq<F>, k: int) -> F decreases k { if k <= 0 { p[0] } else { sf_add(cums(p, k - 1), p[k]) } }
/// std::partial_sum
#[verifier::external_body]
pub fn std_partial_sum(p: &Vec<F>, b: i64, e: i64, c: &mut Vec<F>, o: i64)
    requires b == 0, e == p.len(), o == 0, old(c).len() >= p.len()
    ensures final(c).len() == old(c).len(), forall|k: int| 0 <= k < p.len() ==> #[trigger] final(c)@[k] == cums(p@, k), forall|k: int| p.len() <= k < old(c).len() ==> #[trigger] final(c)@[k] == old(c)@[k]
{ unimplemented!() }
/// std::upper_bound: the two comparisons its bisection ends on (true for any sequence, sorted or not)
#[verifier::external_body]
pub fn std_upper_bound(c: &Vec<F>, b: i64, e: i64, x: F) -> (r: i64)
    requires b == 0, e == c.len()
    ensures 0 <= r <= c.len(), r < c.len() ==> sf_lt(x, c@[r as int]), r > 0 ==> !sf_lt(x, c@[r - 1])
{ unimplemented!() }
pub proof fn lemma_cums_pos(p: Seq<F>, k: int)
    requires 0 <= k < p.len(), sf_gt(cums(p, k), z0())
    ensures exists|e: int| 0 <= e <= k && sf_gt(#[trigger] p[e], z0())
    decreases k
{
    if k > 0 {
        axiom_add_nonpos(cums(p, k - 1), p[k]);
        if !sf_gt(p[k], z0()) { lemma_cums_pos(p, k - 1); }
    }
}
/// the position drawn for one sample: one of the n, of non-zero weight
pub open spec fn drawn(m: Seq<F>, b: int, n: int, x: int) -> bool { 0 <= x < n && !sf_eq(m[b + x], z0()) }
@fn multinomial = tinytorch::op::multinomialOpCpuImpl<float>
@assume_asserts
@req
self_.wf(*old(w)), 0 <= numSamples <= MAXN(), self_.shape.len() == 2 ==> fits(seq![self_.shape[0], numSamples]),
@ens
self_.shape.len() == 1 || self_.shape.len() == 2, res.iwf(*final(w)), res.off == 0, kept2(*old(w), *final(w)), fresh(*old(w), res.blk),
res.shape@ == if self_.shape.len() == 2 { seq![self_.shape[0], numSamples] } else { seq![numSamples] },
({ let two = self_.shape.len() == 2; let n = if two { self_.shape[1] as int } else { self_.shape[0] as int }; let B = if two { self_.shape[0] as int } else { 1 };
 n > 0 ==> {
 &&& forall|b: int, s: int| 0 <= b < B && 0 <= s < numSamples ==> drawn(old(w).f@[self_.blk], self_.off + b * n, n, #[trigger] final(w).i@[res.blk][b * numSamples + s] as int)
 &&& !replacement ==> forall|b: int, s: int, t: int| 0 <= b < B && 0 <= s < t < numSamples ==> #[trigger] final(w).i@[res.blk][b * numSamples + s] != #[trigger] final(w).i@[res.blk][b * numSamples + t]
 } }),
@at entry
lemma_geo(*self_); lemma_fits(self_.shape@);
let ghost m0 = old(w).f@[self_.blk]; let ghost so = self_.off as int; let ghost NS = numSamples as int;
@at before /let mut retShape/
let ghost two = self_.shape.len() == 2;
let ghost B = batch as int; let ghost N = n as int;
lemma_two(self_.shape@); lemma_two(seq![batch, numSamples]); lemma_two(seq![numSamples]);
assert(self_.numel == B * N);
@at before /tensor_empty_i\(/
assert(two ==> retShape@ =~= seq![batch, numSamples]); assert(!two ==> retShape@ =~= seq![numSamples]);
@loop 0
n == N, N > 0, ret.numel == B * NS, w.i@.dom().contains(ret.blk), w.i@[ret.blk].len() == B * NS, frame1i(*old(w), *w, ret.blk), dist.a == sf_lit(0.0real), dist.b == sf_lit(1.0real),
forall|c: int, s: int| 0 <= c < b && 0 <= s < NS ==> drawn(m0, so + c * N, N, #[trigger] w.i@[ret.blk][c * NS + s] as int),
!replacement ==> forall|c: int, s: int, t: int| 0 <= c < b && 0 <= s < t < NS ==> #[trigger] w.i@[ret.blk][c * NS + s] != #[trigger] w.i@[ret.blk][c * NS + t],
@at loop0.begin
lemma_row(b as int, B, N); lemma_row(b as int, B, NS);
let ghost b0 = so + b * N;
let ghost wb = w.i@[ret.blk];
@at loop0.end
assert forall|c: int, s: int| 0 <= c < b + 1 && 0 <= s < NS implies drawn(m0, so + c * N, N, #[trigger] w.i@[ret.blk][c * NS + s] as int) by {
    if c < b { lemma_row(c, b as int, NS); assert(w.i@[ret.blk][c * NS + s] == wb[c * NS + s]); }
}
if !replacement {
    assert forall|c: int, s: int, t: int| 0 <= c < b + 1 && 0 <= s < t < NS implies #[trigger] w.i@[ret.blk][c * NS + s] != #[trigger] w.i@[ret.blk][c * NS + t] by {
        if c < b { lemma_row(c, b as int, NS); assert(w.i@[ret.blk][c * NS + s] == wb[c * NS + s]); assert(w.i@[ret.blk][c * NS + t] == wb[c * NS + t]); }
    }
}
@loop 1
prob.len() == N, forall|k: int| 0 <= k < i ==> #[trigger] prob@[k] == m0[b0 + k],
@loop 2
prob.len() == N, forall|k: int| 0 <= k < i ==> #[trigger] prob@[k] == m0[b0 + k],
@at loop3.before
assert(forall|k: int| 0 <= k < N ==> #[trigger] prob@[k] == m0[b0 + k]);
@loop 3
prob.len() == N, w.i@.dom().contains(ret.blk), w.i@[ret.blk].len() == B * NS, frame1i(*old(w), *w, ret.blk), dist.a == sf_lit(0.0real), dist.b == sf_lit(1.0real),
forall|x: int| 0 <= x < b * NS ==> #[trigger] w.i@[ret.blk][x] == wb[x],
forall|k: int| 0 <= k < N ==> #[trigger] prob@[k] == m0[b0 + k] || prob@[k] == z0(),
forall|t: int| 0 <= t < s ==> drawn(m0, b0, N, #[trigger] w.i@[ret.blk][b * NS + t] as int),
!replacement ==> forall|t: int| 0 <= t < s ==> prob@[#[trigger] w.i@[ret.blk][b * NS + t] as int] == z0(),
!replacement ==> forall|t: int, u: int| 0 <= t < u < s ==> #[trigger] w.i@[ret.blk][b * NS + t] != #[trigger] w.i@[ret.blk][b * NS + u],
@at loop3.begin
axiom_zero_eq();
let ghost pg = prob@;
@at before /let mut r: F/
let ghost dd = uni_val(dist.a, dist.b, (dist.st, generator.st));
@at before /let mut idx: i64/
lemma_cums_pos(prob@, N - 1);
if it < N {
    if it == 0 { axiom_zero_draw(dd, total, prob@[0]); } else { axiom_zero_add(cums(prob@, it - 1), prob@[it as int], r); }
}
@loop 4
prob@ == pg, 0 <= idx <= N, first_4 ==> idx == N, !first_4 ==> idx < N,
forall|e: int| idx < e < N ==> !sf_gt(#[trigger] prob@[e], z0()),
@dec idx
@at loop4.after
axiom_pos_nonzero(prob@[idx as int]);
@at before /let v_\d+ = idx/
assert(0 <= idx < N && !sf_eq(prob@[idx as int], z0()));
@raw
pub proof fn lemma_two(s: Seq<i64>)
    requires s.len() == 1 || s.len() == 2
    ensures s.len() == 1 ==> sp(s, 0) == s[0] && np(s, 0) == nz(s[0] as int), s.len() == 2 ==> sp(s, 0) == s[0] * s[1] && np(s, 0) == nz(s[0] as int) * nz(s[1] as int)
{
    assert(sp(s, s.len() as int) == 1); assert(np(s, s.len() as int) == 1);
    if s.len() == 2 { assert(sp(s, 1) == s[1] * sp(s, 2)); assert(np(s, 1) == nz(s[1] as int) * np(s, 2)); assert(sp(s, 0) == s[0] * sp(s, 1)); assert(np(s, 0) == nz(s[0] as int) * np(s, 1)); }
    else { assert(sp(s, 0) == s[0] * sp(s, 1)); assert(np(s, 0) == nz(s[0] as int) * np(s, 1)); }
}
