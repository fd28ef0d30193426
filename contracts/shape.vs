@tu
#include "Tensor/TensorImpl.cpp"
@opt type=tinytorch::TensorImpl=>TImpl
@opt type=TensorImpl=>TImpl
@opt struct=TensorImpl
@opt w=none
@prelude base nd
@raw
pub struct TImpl { pub shape_: Vec<i64>, pub strides_: Vec<i64>, pub numel_: i64, pub storageOffset_: i64, pub blk: u64 }
/// invariant of every tensor: extents, contiguous row-major strides, element count
pub open spec fn tgeo(t: TImpl) -> bool
{ t.shape_.len() <= 8 && nonneg(t.shape_@) && fits(t.shape_@) && rowmajor(t.shape_@, t.strides_@) && t.numel_ == sp(t.shape_@, 0) }
/// same elements, same row-major order: storage, offset and count are untouched (row-major strides are in tgeo)
pub open spec fn same_elems(a: TImpl, b: TImpl) -> bool { a.numel_ == b.numel_ && a.storageOffset_ == b.storageOffset_ && a.blk == b.blk }
pub open spec fn ninf(q: Seq<i64>, k: int) -> int decreases k { if k <= 0 { 0 } else { ninf(q, k - 1) + (if q[k - 1] == -1 { 1int } else { 0 }) } }
/// product of the extents given (those that are not -1) among the first k
pub open spec fn pq(q: Seq<i64>, k: int) -> int decreases k { if k <= 0 { 1 } else { pq(q, k - 1) * (if q[k - 1] == -1 { 1 } else { q[k - 1] as int }) } }
pub open spec fn q_ok(q: Seq<i64>, n: int) -> bool {
    let l = q.len() as int;
    &&& forall|k: int| 0 <= k < l ==> q[k] >= -1
    &&& ninf(q, l) <= 1
    &&& if ninf(q, l) == 1 { pq(q, l) > 0 && n % pq(q, l) == 0 } else { pq(q, l) == n }
}
pub open spec fn q_tgt(q: Seq<i64>, n: int) -> Seq<i64> { Seq::new(q.len(), |k: int| if q[k] == -1 { (n / pq(q, q.len() as int)) as i64 } else { q[k] }) }
pub proof fn lemma_pq(q: Seq<i64>, k: int)
    requires 0 <= k <= q.len(), forall|j: int| 0 <= j < k ==> q[j] >= -1, fits(q)
    ensures 0 <= pq(q, k) <= MAXN(), 0 <= ninf(q, k) <= k,
        pq(q, k) * np(q, k) <= np(q, 0),
    decreases k
{
    lemma_np_mono(q, 0, k);
    if k > 0 {
        lemma_pq(q, k - 1);
        let x = if q[k - 1] == -1 { 1 } else { q[k - 1] as int }; let a = pq(q, k - 1); let y = np(q, k);
        lemma_np_mono(q, k, k);
        assert(0 <= a * x && (a * x) * y <= a * (nz(q[k - 1] as int) * y)) by (nonlinear_arith) requires 0 <= a, 0 <= x <= nz(q[k - 1] as int), y >= 1;
        assert(a * x <= (a * x) * y) by (nonlinear_arith) requires 0 <= a * x, y >= 1;
    }
}
/// ninf is monotone, and zero or one inferred entry determine the product
pub proof fn lemma_ninf0(q: Seq<i64>, k: int)
    requires 0 <= k <= q.len()
    ensures (ninf(q, k) == 0) == (forall|j: int| 0 <= j < k ==> q[j] != -1), ninf(q, k) >= 0
    decreases k
{ if k > 0 { lemma_ninf0(q, k - 1); } }
pub proof fn lemma_tgt0(q: Seq<i64>, t: Seq<i64>, k: int)
    requires 0 <= k <= q.len(), t.len() == q.len(), forall|j: int| 0 <= j < k ==> q[j] != -1 && t[j] == q[j]
    ensures pr(t, 0, k) == pq(q, k)
    decreases k
{ if k > 0 { lemma_tgt0(q, t, k - 1); lemma_pr_last(t, 0, k - 1); } }
pub proof fn lemma_tgt1(q: Seq<i64>, t: Seq<i64>, k: int, i: int)
    requires 0 <= i < k <= q.len(), t.len() == q.len(), q[i] == -1, forall|j: int| 0 <= j < k && j != i ==> q[j] != -1 && t[j] == q[j]
    ensures pr(t, 0, k) == pq(q, k) * t[i], ninf(q, k) == 1
    decreases k
{
    lemma_pr_last(t, 0, k - 1);
    if i < k - 1 { lemma_tgt1(q, t, k - 1, i); assert(pq(q, k - 1) * t[i] * t[k - 1] == pq(q, k - 1) * t[k - 1] * t[i]) by (nonlinear_arith); }
    else { lemma_tgt0(q, t, k - 1); lemma_ninf0(q, k - 1); }
}
pub proof fn lemma_ninf_le(q: Seq<i64>, a: int, b: int)
    requires 0 <= a <= b <= q.len()
    ensures ninf(q, a) <= ninf(q, b)
    decreases b - a
{ if a < b { lemma_ninf_le(q, a, b - 1); } }
/// np of a sequence that agrees with q where given and is x at one inferred place
pub proof fn lemma_np_point(q: Seq<i64>, t: Seq<i64>, k: int)
    requires 0 <= k <= q.len(), t.len() == q.len(), forall|j: int| k <= j < q.len() ==> nz(t[j] as int) == nz(q[j] as int)
    ensures np(t, k) == np(q, k)
    decreases q.len() - k
{ if k < q.len() { lemma_np_point(q, t, k + 1); } }
pub proof fn lemma_fits_pos(t: Seq<i64>, k: int)
    requires 0 <= k <= t.len(), nonneg(t), sp(t, k) > 0
    ensures np(t, k) == sp(t, k)
    decreases t.len() - k
{ lemma_numel_pos(t, k); if k < t.len() { lemma_fits_pos(t, k + 1); } }

@fn compute_strides = tinytorch::TensorImpl::computeStrides
@w none
@req
nonneg(shape@), fits(shape@), shape.len() <= 8,
@ens
rowmajor(shape@, final(strides)@),
@loop 0
strides.len() == shape.len(), -1 <= i < shape.len(), stride == sp(shape@, i + 1), forall|k: int| i < k < shape.len() ==> strides@[k] == sp(shape@, k + 1),
@at loop0.begin
lemma_fits(shape@);
assert(0 <= sp(shape@, i as int) <= MAXN());
assert(0 <= sp(shape@, i as int + 1) <= MAXN());
assert(sp(shape@, i as int) == shape@[i as int] * sp(shape@, i + 1));
assert(sp(shape@, i as int + 1) * shape@[i as int] == sp(shape@, i as int)) by (nonlinear_arith) requires sp(shape@, i as int) == shape@[i as int] * sp(shape@, i as int + 1);
@fn compute_numel = tinytorch::TensorImpl::computeNumel
@req
nonneg(shape@), fits(shape@), shape.len() <= 8,
@ens
*final(numel) == sp(shape@, 0), *final(numel) == pr(shape@, 0, shape.len() as int), *final(numel) <= MAXN(),
@loop 0
*numel == pr(shape@, 0, k_0 as int),
@at loop0.begin
lemma_fits(shape@); lemma_pr_last(shape@, 0, k_0 as int); assert(0 <= pr(shape@, 0, k_0 as int + 1) <= MAXN());
@at exit
lemma_fits(shape@); lemma_pr_sp(shape@, 0, shape.len() as int);
assert(sp(shape@, shape.len() as int) == 1);
assert(pr(shape@, 0, shape.len() as int) * 1 == pr(shape@, 0, shape.len() as int));
@fn reshape_ = tinytorch::TensorImpl::reshape_
@req
tgeo(*old(this)), shape.len() <= 8, fits(shape@),
@ens
tgeo(*final(this)), same_elems(*old(this), *final(this)),
q_ok(shape@, old(this).numel_ as int) ==> final(this).shape_@ == q_tgt(shape@, old(this).numel_ as int),
!q_ok(shape@, old(this).numel_ as int) ==> *final(this) == *old(this),
@at entry
lemma_fits(this.shape_@);
assert(sp(this.shape_@, 0) == this.numel_);
lemma_sp_np(Seq::<i64>::empty(), 0);
let ghost q = shape@;
let ghost n0 = this.numel_ as int;
@loop 0
*this == *old(this), cnt == pq(shape@, i as int), -1 <= inferredIdx < i, retShape.len() == shape.len(), 0 <= cnt,
inferredIdx == -1 ==> ninf(shape@, i as int) == 0,
inferredIdx >= 0 ==> ninf(shape@, i as int) == 1 && shape@[inferredIdx as int] == -1,
forall|k: int| 0 <= k < i ==> shape@[k] >= -1 && retShape@[k] == (if shape@[k] == -1 { 0 } else { shape@[k] as int }),
forall|k: int| 0 <= k < i && k != inferredIdx ==> shape@[k] != -1,
@at loop0.begin
lemma_pq(shape@, i as int);
lemma_ninf_le(shape@, i as int + 1, shape.len() as int);
if shape@[i as int] >= -1 { lemma_pq(shape@, i as int + 1); }
@at before /compute_numel\(/
lemma_pq(q, q.len() as int);
if inferredIdx >= 0 {
let c = cnt as int; let m = retShape@[inferredIdx as int] as int;
assert(c * m == n0 && 0 <= m) by (nonlinear_arith) requires c > 0, n0 >= 0, n0 % c == 0, m == n0 / c;
lemma_tgt1(q, retShape@, q.len() as int, inferredIdx as int);
lemma_pr_sp(retShape@, 0, q.len() as int);
if n0 > 0 { lemma_fits_pos(retShape@, 0); }
else { assert(m == 0) by (nonlinear_arith) requires c > 0, c * m == 0, m >= 0; lemma_np_point(q, retShape@, 0); }
} else {
lemma_tgt0(q, retShape@, q.len() as int); lemma_pr_sp(retShape@, 0, q.len() as int); lemma_np_point(q, retShape@, 0);
}
assert(retShape@ =~= q_tgt(q, n0) || !q_ok(q, n0));
@raw
/// a shape without an inferred extent asks for exactly itself
pub proof fn lemma_explicit(q: Seq<i64>, n: int)
    requires nonneg(q), pr(q, 0, q.len() as int) == n
    ensures q_ok(q, n), q_tgt(q, n) =~= q
{ lemma_ninf0(q, q.len() as int); lemma_tgt0(q, q, q.len() as int); }
pub proof fn lemma_cat(s: Seq<i64>, t: Seq<i64>, k: int)
    requires 0 <= k <= s.len()
    ensures np(s + t, k) == np(s, k) * np(t, 0), sp(s + t, k) == sp(s, k) * sp(t, 0)
    decreases s.len() - k
{
    if k < s.len() {
        lemma_cat(s, t, k + 1); assert((s + t)[k] == s[k]);
        let x = nz(s[k] as int); let y = np(s, k + 1); let z = np(t, 0);
        assert(x * (y * z) == (x * y) * z) by (nonlinear_arith);
        let x2 = s[k] as int; let y2 = sp(s, k + 1); let z2 = sp(t, 0);
        assert(x2 * (y2 * z2) == (x2 * y2) * z2) by (nonlinear_arith);
    } else { lemma_shift(s, t, k); }
}
/// from position |s| on, s + t is t
pub proof fn lemma_shift(s: Seq<i64>, t: Seq<i64>, k: int)
    requires s.len() <= k
    ensures np(s + t, k) == np(t, k - s.len()), sp(s + t, k) == sp(t, k - s.len())
    decreases s.len() + t.len() - k
{ if k < s.len() + t.len() { lemma_shift(s, t, k + 1); assert((s + t)[k] == t[k - s.len()]); } }
pub proof fn lemma_one(x: i64)
    ensures np(seq![x], 0) == nz(x as int), sp(seq![x], 0) == x
{ let s = seq![x]; assert(np(s, 1) == 1); assert(sp(s, 1) == 1); assert(np(s, 0) == nz(s[0] as int) * np(s, 1)); assert(sp(s, 0) == s[0] * sp(s, 1)); }
pub proof fn lemma_nzmul(x: int, p: int, y: int, z: int)
    requires x >= 0, p >= 0, 1 <= y, nz(p) * y <= z
    ensures x * p >= 0, 1 <= nz(x * p) * y <= nz(x) * z
{
    assert(x * p >= 0) by (nonlinear_arith) requires x >= 0, p >= 0;
    let n = nz(x); let q = nz(p); let m = nz(x * p);
    assert(m <= n * q) by {
        if x == 0 || p == 0 { assert(x * p == 0) by (nonlinear_arith) requires x == 0 || p == 0; assert(n * q >= 1) by (nonlinear_arith) requires n >= 1, q >= 1; }
        else { assert(n == x && q == p); assert(x * p >= 1) by (nonlinear_arith) requires x >= 1, p >= 1; }
    }
    assert(1 <= m * y <= n * z) by (nonlinear_arith) requires 1 <= m <= n * q, 1 <= y, q * y <= z, n >= 1, q >= 1;
}
pub proof fn lemma_nzpr(s: Seq<i64>, a: int, b: int)
    requires nonneg(s), 0 <= a <= b <= s.len()
    ensures 1 <= nz(pr(s, a, b)) * np(s, b) <= np(s, a), pr(s, a, b) >= 0, np(s, b) >= 1
    decreases b - a
{
    lemma_np_mono(s, b, b);
    if a < b { lemma_nzpr(s, a + 1, b); lemma_nzmul(s[a] as int, pr(s, a + 1, b), np(s, b), np(s, a + 1)); }
    else { assert(nz(1) * np(s, b) == np(s, b)) by (nonlinear_arith) requires nz(1) == 1; }
}
/// s with the extents a..b replaced by mid, whose product is the same
pub open spec fn splice(s: Seq<i64>, a: int, b: int, mid: Seq<i64>) -> Seq<i64> { s.subrange(0, a) + mid + s.subrange(b, s.len() as int) }
pub proof fn lemma_splice(s: Seq<i64>, a: int, b: int, mid: Seq<i64>)
    requires nonneg(s), nonneg(mid), 0 <= a <= b <= s.len(), sp(mid, 0) == pr(s, a, b)
    ensures nonneg(splice(s, a, b, mid)), sp(splice(s, a, b, mid), 0) == sp(s, 0), pr(splice(s, a, b, mid), 0, splice(s, a, b, mid).len() as int) == sp(s, 0),
        np(splice(s, a, b, mid), 0) * nz(pr(s, a, b)) <= np(s, 0) * np(mid, 0),
        np(mid, 0) == nz(pr(s, a, b)) ==> np(splice(s, a, b, mid), 0) <= np(s, 0),
        np(splice(s, a, b, mid), 0) <= np(s, 0) * np(mid, 0), np(s, 0) >= 1, np(mid, 0) >= 1,
{
    let n = s.len() as int;
    let l = s.subrange(0, a); let r = s.subrange(b, n); let x = splice(s, a, b, mid);
    assert(s =~= l + s.subrange(a, n)); 
    lemma_cat(l, s.subrange(a, n), 0); lemma_cat(l + mid, r, 0); lemma_cat(l, mid, 0);
    lemma_shift(l, s.subrange(a, n), a); lemma_shift(s.subrange(0, b), r, b); assert(s =~= s.subrange(0, b) + r);
    lemma_pr_sp(s, a, b);
    lemma_nzpr(s, a, b); lemma_np_mono(s, 0, 0); lemma_np_mono(l, 0, 0); lemma_np_mono(mid, 0, 0);
    let L = sp(l, 0); let M = sp(mid, 0); let R = sp(r, 0);
    assert(sp(s, a) == M * R); assert(sp(s, 0) == L * (M * R)); assert(sp(x, 0) == (L * M) * R);
    assert((L * M) * R == L * (M * R)) by (nonlinear_arith);
    lemma_pr_sp(x, 0, x.len() as int); assert(sp(x, x.len() as int) == 1); assert(pr(x, 0, x.len() as int) * 1 == pr(x, 0, x.len() as int));
    let l2 = np(l, 0); let m2 = np(mid, 0); let r2 = np(r, 0); let z = nz(pr(s, a, b)); let A = np(s, a);
    assert(np(s, 0) == l2 * A); assert(r2 == np(s, b)); assert(z * r2 <= A); assert(np(x, 0) == (l2 * m2) * r2);
    assert(((l2 * m2) * r2) * z <= (l2 * A) * m2) by (nonlinear_arith) requires l2 >= 1, m2 >= 1, r2 >= 1, z >= 1, z * r2 <= A;
    assert((l2 * m2) * r2 <= (l2 * A) * m2) by (nonlinear_arith) requires l2 >= 1, m2 >= 1, r2 >= 1, z >= 1, z * r2 <= A;
    if m2 == z { assert((l2 * m2) * r2 <= l2 * A) by (nonlinear_arith) requires l2 >= 1, m2 >= 1, r2 >= 1, m2 * r2 <= A; }
    assert(nonneg(x)) by { assert forall|k: int| 0 <= k < x.len() implies x[k] >= 0 by { if k < a { assert(x[k] == s[k]); } else if k < a + mid.len() { assert(x[k] == mid[k - a]); } else { assert(x[k] == s[k - a - mid.len() + b]); } } }
}
pub open spec fn wrapd(d: int, n: int) -> int { if d < 0 { d + n } else { d } }
/// what a view operation that succeeds leaves: the given shape over the same elements in the same order
pub open spec fn viewed(a: TImpl, b: TImpl, q: Seq<i64>) -> bool { tgeo(b) && same_elems(a, b) && b.shape_@ == q }
@fn unsqueeze_ = tinytorch::TensorImpl::unsqueeze_
@req
tgeo(*old(this)), old(this).shape_.len() < 8,
@ens
-(old(this).shape_.len() as int) - 1 <= d <= old(this).shape_.len() ==> viewed(*old(this), *final(this), old(this).shape_@.insert(wrapd(d as int, old(this).shape_.len() as int + 1), 1)),
!(-(old(this).shape_.len() as int) - 1 <= d <= old(this).shape_.len()) ==> *final(this) == *old(this),
@at entry
let ghost s0 = this.shape_@; let ghost n = s0.len() as int;
@loop 0
*this == *old(this), retShape@ =~= s0.subrange(0, i as int), 0 <= i,
@loop 1
*this == *old(this), retShape@ =~= s0.subrange(0, d as int) + seq![1i64] + s0.subrange(d as int, i as int), 0 <= d <= i,
@at before /reshape_\(/
lemma_one(1); assert(pr(s0, d as int, d as int) == 1);
lemma_splice(s0, d as int, d as int, seq![1i64]);
assert(retShape@ =~= splice(s0, d as int, d as int, seq![1i64]));
assert(retShape@ =~= s0.insert(d as int, 1));
lemma_explicit(retShape@, this.numel_ as int);
@fn flatten_ = tinytorch::TensorImpl::flatten_
@req
tgeo(*old(this)), -0x4000_0000_0000_0000 <= startDim < 0x4000_0000_0000_0000, -0x4000_0000_0000_0000 <= endDim < 0x4000_0000_0000_0000,
@ens
({ let s = old(this).shape_@; let n = if s.len() == 0 { 1 } else { s.len() as int }; let a = wrapd(startDim as int, n); let b = wrapd(endDim as int, n) + 1;
   if 0 <= a < b <= n { viewed(*old(this), *final(this), if s.len() == 0 { seq![1i64] } else { splice(s, a, b, seq![pr(s, a, b) as i64]) }) } else { *final(this) == *old(this) } }),
@at entry
let ghost s0 = this.shape_@; let ghost n = s0.len() as int;
lemma_fits(s0);
@loop 0
*this == *old(this), retShape@ =~= s0.subrange(0, i as int), 0 <= i,
@loop 1
*this == *old(this), retShape@ =~= s0.subrange(0, startDim as int), flattenDims == pr(s0, startDim as int, i as int), i <= n || n == 0 && i == 0, 0 <= startDim <= i,
@at loop1.begin
lemma_pr_last(s0, startDim as int, i as int); assert(0 <= pr(s0, startDim as int, i + 1) <= MAXN());
@loop 2
*this == *old(this), retShape@ =~= s0.subrange(0, startDim as int) + seq![flattenDims] + (if n == 0 { Seq::<i64>::empty() } else { s0.subrange(endDim + 1, i as int) }), endDim + 1 <= i, i <= n || n == 0,
@at before /reshape_\(/
lemma_one(flattenDims);
if n > 0 {
lemma_splice(s0, startDim as int, endDim + 1, seq![flattenDims]);
assert(retShape@ =~= splice(s0, startDim as int, endDim + 1, seq![flattenDims]));
} else { assert(flattenDims == 1); assert(retShape@ =~= seq![1i64]); assert(sp(s0, 0) == 1); lemma_pr_sp(retShape@, 0, 1); assert(pr(retShape@, 0, 1) == 1) by { reveal_with_fuel(pr, 3); reveal_with_fuel(sp, 3); } }
lemma_explicit(retShape@, this.numel_ as int);
@fn squeeze_ = tinytorch::TensorImpl::squeeze_(int64_t)
@req
tgeo(*old(this)),
@ens
({ let s = old(this).shape_@; let n = s.len() as int; let a = wrapd(d as int, n);
   if 0 <= a < n && s[a] == 1 { viewed(*old(this), *final(this), s.remove(a)) } else { *final(this) == *old(this) } }),
@at entry
let ghost s0 = this.shape_@; let ghost n = s0.len() as int;
@loop 0
*this == *old(this), retShape@ =~= s0.subrange(0, i as int), 0 <= i,
@loop 1
*this == *old(this), retShape@ =~= s0.subrange(0, d as int) + s0.subrange(d + 1, i as int), 0 <= d < i <= n,
@at before /reshape_\(/
assert(pr(s0, d as int, d + 1) == 1) by { reveal_with_fuel(pr, 3); }
lemma_splice(s0, d as int, d + 1, Seq::<i64>::empty());
assert(retShape@ =~= splice(s0, d as int, d + 1, Seq::<i64>::empty()));
assert(retShape@ =~= s0.remove(d as int));
lemma_explicit(retShape@, this.numel_ as int);
@raw
/// the inferred shape has the requested count
pub proof fn lemma_tgt_ok(q: Seq<i64>, n: int)
    requires q_ok(q, n), 0 <= n <= MAXN(), fits(q)
    ensures nonneg(q_tgt(q, n)), sp(q_tgt(q, n), 0) == n, n > 0 ==> np(q_tgt(q, n), 0) == n, n == 0 ==> np(q_tgt(q, n), 0) == np(q, 0)
{
    let t = q_tgt(q, n); let l = q.len() as int;
    lemma_pq(q, l); lemma_ninf0(q, l);
    if ninf(q, l) == 0 { lemma_tgt0(q, t, l); lemma_np_point(q, t, 0); }
    else {
        let i = choose|i: int| 0 <= i < l && q[i] == -1;
        lemma_only(q, l, i);
        let c = pq(q, l); let m = n / c;
        assert(c * m == n && 0 <= m <= n) by (nonlinear_arith) requires c > 0, n >= 0, n % c == 0, m == n / c;
        assert(t[i] == m);
        lemma_tgt1(q, t, l, i);
        assert forall|k: int| 0 <= k < l implies t[k] >= 0 by { if k != i { assert(q[k] != -1); } }
        if n == 0 { assert(m == 0) by (nonlinear_arith) requires c > 0, c * m == 0, m >= 0; lemma_np_point(q, t, 0); }
    }
    lemma_pr_sp(t, 0, l); assert(sp(t, l) == 1); assert(pr(t, 0, l) * 1 == pr(t, 0, l));
    if n > 0 { lemma_fits_pos(t, 0); }
}
pub proof fn lemma_only(q: Seq<i64>, k: int, i: int)
    requires 0 <= i < k <= q.len(), ninf(q, k) <= 1, q[i] == -1
    ensures forall|j: int| 0 <= j < k && j != i ==> q[j] != -1, ninf(q, k) == 1
    decreases k
{
    lemma_ninf0(q, k - 1);
    if i < k - 1 { lemma_only(q, k - 1, i); } 
}
@fn unflatten_ = tinytorch::TensorImpl::unflatten_
@attr #[verifier::spinoff_prover]
@req
tgeo(*old(this)), shape.len() + old(this).shape_.len() <= 9, np(old(this).shape_@, 0) * np(shape@, 0) <= MAXN(), -0x4000_0000_0000_0000 <= d < 0x4000_0000_0000_0000,
@ens
({ let s = old(this).shape_@; let n = s.len() as int; let a = wrapd(d as int, n);
   if 0 <= a < n && q_ok(shape@, s[a] as int) { viewed(*old(this), *final(this), splice(s, a, a + 1, q_tgt(shape@, s[a] as int))) } else { *final(this) == *old(this) } }),
@at entry
let ghost s0 = this.shape_@; let ghost n = s0.len() as int; let ghost q = shape@;
lemma_fits(s0);
lemma_np_mono(s0, 0, 0); lemma_np_mono(q, 0, 0);
assert(np(q, 0) <= MAXN()) by (nonlinear_arith) requires np(s0, 0) >= 1, np(q, 0) >= 1, np(s0, 0) * np(q, 0) <= MAXN();
let ghost dd = wrapd(d as int, n); let ghost t = if 0 <= dd < n { q_tgt(q, s0[dd] as int) } else { q };
@loop 0
*this == *old(this), retShape@ =~= s0.subrange(0, i as int), 0 <= i,
@loop 1
*this == *old(this), unflattenDims == pq(q, i as int), 0 <= unflattenDims, retShape.len() == d + i, retShape@.subrange(0, d as int) =~= s0.subrange(0, d as int), 0 <= d < n,
inferredIdx == -1 || d <= inferredIdx < d + i,
inferredIdx == -1 ==> ninf(q, i as int) == 0,
inferredIdx >= 0 ==> ninf(q, i as int) == 1 && q[inferredIdx - d] == -1,
forall|k: int| 0 <= k < i ==> q[k] >= -1,
forall|k: int| 0 <= k < i ==> #[trigger] retShape@[d + k] == (if q[k] == -1 { 0 } else { q[k] as int }),
forall|k: int| 0 <= k < i && k != inferredIdx - d ==> q[k] != -1,
@at loop1.begin
lemma_pq(q, i as int);
lemma_ninf_le(q, i as int + 1, q.len() as int);
if q[i as int] >= -1 { lemma_pq(q, i as int + 1); }
let ghost pre = retShape@;
@at loop1.end
assert(retShape@.subrange(0, pre.len() as int) =~= pre);
assert forall|k: int| 0 <= k <= i implies #[trigger] retShape@[d + k] == (if q[k] == -1 { 0 } else { q[k] as int }) by { if k < i { assert(retShape@[d + k] == retShape@.subrange(0, pre.len() as int)[d + k]); assert(retShape@[d + k] == pre[d + k]); } else { assert(d + k == pre.len()); } }
assert(retShape@.subrange(0, d as int) =~= pre.subrange(0, d as int));
@at loop2.before
lemma_pq(q, q.len() as int);
if q_ok(q, s0[d as int] as int) {
if inferredIdx >= 0 { lemma_only(q, q.len() as int, inferredIdx - d);
assert forall|k: int| 0 <= k < q.len() implies retShape@[d + k] == #[trigger] t[k] by { }
}
assert(retShape@ =~= s0.subrange(0, d as int) + t) by {
assert forall|k: int| 0 <= k < d + q.len() implies #[trigger] retShape@[k] == (s0.subrange(0, d as int) + t)[k] by { if k < d { assert(retShape@[k] == retShape@.subrange(0, d as int)[k]); } else { assert(retShape@[d + (k - d)] == t[k - d]); } }
}
}
@loop 2
*this == *old(this), q_ok(q, s0[d as int] as int), retShape@ =~= s0.subrange(0, d as int) + t + s0.subrange(d + 1, i as int), d + 1 <= i <= n,
@at before /reshape_\(/
lemma_tgt_ok(q, s0[d as int] as int);
assert(pr(s0, d as int, d + 1) == s0[d as int]) by { reveal_with_fuel(pr, 3); }
lemma_splice(s0, d as int, d + 1, t);
assert(retShape@ =~= splice(s0, d as int, d + 1, t));
assert(fits(retShape@)) by {
if s0[d as int] > 0 { } else { }
}
lemma_explicit(retShape@, this.numel_ as int);
