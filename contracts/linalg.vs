@tu
#include "Operation/OpLinalg.cpp"
#include "Operation/OpLinalgCpu.cpp"
namespace tinytorch::op {
template Tensor dotOpCpuImpl<float>(const Tensor& self, const Tensor& other);
template Tensor matmulOpImplDetail<float>(const Tensor &a, const Tensor &b, bool transA, bool transB);
template Tensor matmulOpImpl<float>(const Tensor &a, const Tensor &b, bool transA, bool transB);
}
@prelude base float nd tensor
@opt field=Device.index=>($this.x as i8)
@raw
/// x0*y0 + x1*y1 + ... in index order, starting from zero
pub open spec fn dotv(m: Seq<F>, o: int, u: Seq<F>, q: int, n: int) -> F decreases n
{ if n <= 0 { sf_int(0) } else { sf_add(dotv(m, o, u, q, n - 1), sf_mul(m[o + n - 1], u[q + n - 1])) } }
@fn dot_all = tinytorch::op::dotOpCpuImpl<float>
@req
self_.wf(*old(w)), other.wf(*old(w)), other.numel == self_.numel,
@ens
res.wf(*final(w)), res.shape@ == Seq::<i64>::empty(), keeps(*old(w), *final(w)),
res.at(*final(w), 0) == dotv(old(w).f@[self_.blk], self_.off as int, old(w).f@[other.blk], other.off as int, self_.numel as int),
@loop 0
*w == *old(w), ret == dotv(w.f@[self_.blk], self_.off as int, w.f@[other.blk], other.off as int, i as int),
@raw
/// element (i, j) of a matrix of r rows and c columns stored at o, or of the transpose of a stored c x r matrix
pub open spec fn el(m: Seq<F>, o: int, r: int, c: int, tr: bool, i: int, j: int) -> F { if tr { m[o + j * r + i] } else { m[o + i * c + j] } }
/// the matrices a (m x k) and b (k x n) of one product
pub struct MM { pub a: Seq<F>, pub ao: int, pub b: Seq<F>, pub bo: int, pub m: int, pub k: int, pub n: int, pub ta: bool, pub tb: bool }
/// sum over p < t of a(i,p) * b(p,j), in order of p
pub open spec fn mmsum(x: MM, i: int, j: int, t: int) -> F decreases t
{ if t <= 0 { sf_int(0) } else { sf_add(mmsum(x, i, j, t - 1), sf_mul(el(x.a, x.ao, x.m, x.k, x.ta, i, t - 1), el(x.b, x.bo, x.k, x.n, x.tb, t - 1, j))) } }
/// element q of the row-major product
pub open spec fn mmat(x: MM, q: int) -> F { mmsum(x, q / x.n, q % x.n, x.k) }
/// content of element q when rows < i are done, row i has p terms everywhere and one more in columns < j
pub open spec fn prog(x: MM, q: int, i: int, p: int, j: int) -> F
{ mmsum(x, q / x.n, q % x.n, if q < i * x.n { x.k } else if q < i * x.n + j { p + 1 } else if q < i * x.n + x.n { p } else { 0 }) }
pub proof fn lemma_mat(r: int, c: int, i: int, j: int)
    requires 0 <= i < r, 0 <= j < c
    ensures 0 <= i * c + j < r * c, 0 <= i * c <= r * c, 0 <= j * r + i < r * c, 0 <= j * r <= r * c, (i + 1) * c == i * c + c, i * c + c <= r * c
{
    assert(0 <= i * c && i * c + c <= r * c) by (nonlinear_arith) requires 0 <= i, i + 1 <= r, 0 <= c;
    assert(0 <= j * r && j * r + r <= r * c) by (nonlinear_arith) requires 0 <= j, j + 1 <= c, 0 <= r;
    assert((i + 1) * c == i * c + c) by (nonlinear_arith);
}
pub open spec fn mmof(w: World, a: Ptr, b: Ptr, m: int, k: int, n: int, ta: bool, tb: bool) -> MM { MM { a: w.f@[a.b], ao: a.o as int, b: w.f@[b.b], bo: b.o as int, m, k, n, ta, tb } }
@fn gemm = tinytorch::op::gemmCpuImpl<float>
@req
0 <= m, 0 <= k, 0 <= n, m * k <= MAXN(), k * n <= MAXN(), m * n <= MAXN(), m <= MAXN(), k <= MAXN(), n <= MAXN(),
old(w).f@.dom().contains(a.b), old(w).f@.dom().contains(b.b), old(w).f@.dom().contains(c.b), c.b != a.b, c.b != b.b,
0 <= a.o, a.o + m * k <= old(w).f@[a.b].len() <= MAXN(), 0 <= b.o, b.o + k * n <= old(w).f@[b.b].len() <= MAXN(), 0 <= c.o, c.o + m * n <= old(w).f@[c.b].len() <= MAXN(),
@ens
frame1(*old(w), *final(w), c.b), final(w).f@[c.b].len() == old(w).f@[c.b].len(),
forall|x: int| 0 <= x < old(w).f@[c.b].len() ==> #[trigger] final(w).f@[c.b][x] == (if c.o <= x < c.o + m * n { mmat(mmof(*old(w), a, b, m as int, k as int, n as int, transA, transB), x - c.o) } else { old(w).f@[c.b][x] }),
@at entry
let ghost g = mmof(*old(w), a, b, m as int, k as int, n as int, transA, transB);
let ghost S = m * n;
assert(0 <= m * n && 0 <= m * k && 0 <= k * n) by (nonlinear_arith) requires 0 <= m, 0 <= n, 0 <= k;
@loop 0
frame1(*old(w), *w, c.b), w.f@[c.b].len() == old(w).f@[c.b].len(),
forall|x: int| 0 <= x < w.f@[c.b].len() ==> #[trigger] w.f@[c.b][x] == (if c.o <= x < c.o + S { prog(g, x - c.o, i as int, 0, 0) } else { old(w).f@[c.b][x] }),
@at loop0.before
assert(0 * n == 0);
@at loop0.begin
assert(n > 0 ==> 0 <= i * n && i * n + n <= S) by { if n > 0 { lemma_mat(m as int, n as int, i as int, 0); } }
assert(n == 0 ==> i * n == 0) by (nonlinear_arith);
assert((i + 1) * n == i * n + n) by (nonlinear_arith);
@loop 1
frame1(*old(w), *w, c.b), w.f@[c.b].len() == old(w).f@[c.b].len(),
forall|x: int| 0 <= x < w.f@[c.b].len() ==> #[trigger] w.f@[c.b][x] == (if c.o <= x < c.o + S { prog(g, x - c.o, i as int, p as int, 0) } else { old(w).f@[c.b][x] }),
@at loop1.begin
lemma_mat(m as int, k as int, i as int, p as int);
@loop 2
frame1(*old(w), *w, c.b), w.f@[c.b].len() == old(w).f@[c.b].len(),
forall|x: int| 0 <= x < w.f@[c.b].len() ==> #[trigger] w.f@[c.b][x] == (if c.o <= x < c.o + S { prog(g, x - c.o, i as int, p as int, j as int) } else { old(w).f@[c.b][x] }),
@at loop2.begin
lemma_mat(k as int, n as int, p as int, j as int);
lemma_mat(m as int, n as int, i as int, j as int);
lemma_mod_unique(i * n + j, n as int, i as int, j as int);
assert(mmsum(g, i as int, j as int, p + 1) == sf_add(mmsum(g, i as int, j as int, p as int), sf_mul(el(g.a, g.ao, g.m, g.k, g.ta, i as int, p as int), el(g.b, g.bo, g.k, g.n, g.tb, p as int, j as int))));
@raw
/// s padded on the left to r entries with x
pub open spec fn padl(s: Seq<i64>, r: int, x: i64) -> Seq<i64> { Seq::new(r as nat, |k: int| if k < r - s.len() { x } else { s[k - (r - s.len())] }) }
pub open spec fn imax(a: int, b: int) -> int { if a > b { a } else { b } }
@fn pad_shape = tinytorch::op::makePaddedShape
@w none
@req
shape.len() <= 8, 0 <= targetDim <= 8,
@ens
res@ == padl(shape@, imax(shape.len() as int, targetDim as int), 1),
@loop 0
result.len() == imax(shape.len() as int, targetDim as int), offset == result.len() - shape.len(),
forall|k: int| 0 <= k < result.len() ==> #[trigger] result@[k] == (if k < offset || k >= offset + i { 1 } else { shape@[k - offset] }),
@at exit
assert(result@ =~= padl(shape@, imax(shape.len() as int, targetDim as int), 1));
@fn pad_strides = tinytorch::op::makePaddedStrides
@w none
@req
strides.len() <= 8, 0 <= targetDim <= 8,
@ens
res@ == padl(strides@, imax(strides.len() as int, targetDim as int), 0),
@loop 0
result.len() == targetDim, offset == targetDim - strides.len(),
forall|k: int| 0 <= k < result.len() ==> #[trigger] result@[k] == (if k < offset || k >= offset + i { 0 } else { strides@[k - offset] }),
@at entry
assert(strides@ =~= padl(strides@, strides.len() as int, 0));
@at exit
assert(res@ =~= padl(strides@, imax(strides.len() as int, targetDim as int), 0));
@raw
pub open spec fn bok(x: int, y: int) -> bool { x == y || x == 1 || y == 1 }
pub open spec fn bdim(x: i64, y: i64) -> i64 { if x == 1 { y } else { x } }
/// the leading extents (all but the last skip) broadcast against each other
pub open spec fn compat(a: Seq<i64>, b: Seq<i64>, r: int, skip: int) -> bool { forall|k: int| 0 <= k < r - skip ==> bok(#[trigger] padl(a, r, 1)[k] as int, padl(b, r, 1)[k] as int) }
@fn broadcast_shape = tinytorch::op::broadcastShape
@w none
@req
t0.len() <= 8, t1.len() <= 8, 0 <= skipLast <= t0.len(), skipLast <= t1.len(), t0.len() > 0 || t1.len() > 0,
@ens
({ let r = imax(t0.len() as int, t1.len() as int);
 if compat(t0@, t1@, r, skipLast as int) { res.len() == r && forall|k: int| 0 <= k < r - skipLast ==> #[trigger] res@[k] == bdim(padl(t0@, r, 1)[k], padl(t1@, r, 1)[k]) } else { res.len() == 0 } }),
@loop 0
retShape.len() == imax(t0.len() as int, t1.len() as int), -1 <= idx0, -1 <= idx1, idx0 < t0.len() - skipLast, idx1 < t1.len() - skipLast,
idxRet - idx0 == retShape.len() - t0.len(), idxRet - idx1 == retShape.len() - t1.len(),
forall|k: int| idxRet < k < retShape.len() - skipLast ==> bok(#[trigger] padl(t0@, retShape.len() as int, 1)[k] as int, padl(t1@, retShape.len() as int, 1)[k] as int),
forall|k: int| idxRet < k < retShape.len() - skipLast ==> #[trigger] retShape@[k] == bdim(padl(t0@, retShape.len() as int, 1)[k], padl(t1@, retShape.len() as int, 1)[k]),
forall|k: int| 0 <= k <= idxRet ==> #[trigger] retShape@[k] == (if t0.len() > t1.len() { t0@[k - (retShape.len() - t0.len())] } else { t1@[k - (retShape.len() - t1.len())] }),
@dec idx0 + 1
@at loop0.begin
assert(padl(t0@, retShape.len() as int, 1)[idxRet as int] == t0@[idx0 as int]);
assert(padl(t1@, retShape.len() as int, 1)[idxRet as int] == t1@[idx1 as int]);
@raw
/// the operand shapes as matrices: a one-dimensional left operand is a row, a one-dimensional right operand a column
pub open spec fn asA(s: Seq<i64>) -> Seq<i64> { if s.len() == 1 { seq![1i64, s[0]] } else { s } }
pub open spec fn asB(s: Seq<i64>) -> Seq<i64> { if s.len() == 1 { seq![s[0], 1i64] } else { s } }
pub open spec fn rows(s: Seq<i64>, tr: bool) -> i64 { if tr { s[s.len() - 1] } else { s[s.len() - 2] } }
pub open spec fn cols(s: Seq<i64>, tr: bool) -> i64 { if tr { s[s.len() - 2] } else { s[s.len() - 1] } }
pub open spec fn mm_r(a: Seq<i64>, b: Seq<i64>) -> int { imax(asA(a).len() as int, asB(b).len() as int) }
/// the operands fit: inner extents equal, batch extents broadcast
pub open spec fn mm_ok(a: Seq<i64>, b: Seq<i64>, ta: bool, tb: bool) -> bool
{ cols(asA(a), ta && a.len() != 1) == rows(asB(b), tb && b.len() != 1) && compat(asA(a), asB(b), mm_r(a, b), 2) }
/// shape of the product before the added extents are dropped
pub open spec fn mm_full(a: Seq<i64>, b: Seq<i64>, ta: bool, tb: bool) -> Seq<i64> {
    let r = mm_r(a, b);
    Seq::new(r as nat, |k: int| if k < r - 2 { bdim(padl(asA(a), r, 1)[k], padl(asB(b), r, 1)[k]) } else if k == r - 2 { rows(asA(a), ta && a.len() != 1) } else { cols(asB(b), tb && b.len() != 1) })
}
pub open spec fn mm_shape(a: Seq<i64>, b: Seq<i64>, ta: bool, tb: bool) -> Seq<i64> {
    let f = mm_full(a, b, ta, tb); let r = f.len();
    let p = if a.len() == 1 { f.subrange(0, r - 2) } else { f.subrange(0, r - 1) };
    if b.len() == 1 { p } else { p.push(f[r - 1]) }
}
#[verifier::opaque]
pub open spec fn tdq(f: Seq<i64>, q: int, k: int) -> int { q / pr(f, k, f.len() - 2) }
/// element offset, in an operand of (padded) shape s, of the matrix that batch index q of the result (shape f) reads; dimensions k.. counted
pub open spec fn bat_off(f: Seq<i64>, s: Seq<i64>, q: int, k: int) -> int decreases f.len() - 2 - k
{ if k < 0 || k >= f.len() - 2 { 0 } else { (if s[k] != 1 { (tdq(f, q, k + 1) % (f[k] as int)) * sp(s, k + 1) } else { 0 }) + bat_off(f, s, q, k + 1) } }
pub open spec fn mm_of(a: Tensor, b: Tensor, ma: Seq<F>, mb: Seq<F>, ta: bool, tb: bool, q: int) -> MM {
    let f = mm_full(a.shape@, b.shape@, ta, tb); let r = f.len() as int;
    let A = asA(a.shape@); let B = asB(b.shape@);
    MM { a: ma, ao: a.off + bat_off(f, padl(A, r, 1), q, 0), b: mb, bo: b.off + bat_off(f, padl(B, r, 1), q, 0),
        m: f[r - 2] as int, k: cols(A, ta && a.shape.len() != 1) as int, n: f[r - 1] as int, ta: ta && a.shape.len() != 1, tb: tb && b.shape.len() != 1 }
}
/// element x of the product
#[verifier::opaque]
pub open spec fn mm_el(a: Tensor, b: Tensor, ma: Seq<F>, mb: Seq<F>, ta: bool, tb: bool, x: int) -> F {
    let f = mm_full(a.shape@, b.shape@, ta, tb); let r = f.len(); let s = f[r - 2] * f[r - 1];
    mmat(mm_of(a, b, ma, mb, ta, tb, x / s), x % s)
}
pub proof fn lemma_padl(s: Seq<i64>, r: int, k: int)
    requires s.len() <= r, 0 <= k <= r
    ensures sp(padl(s, r, 1), k) == (if k <= r - s.len() { sp(s, 0) } else { sp(s, k - (r - s.len())) }), nonneg(s) ==> nonneg(padl(s, r, 1))
    decreases r - k
{
    let P = padl(s, r, 1); let d = r - s.len();
    if k < r {
        lemma_padl(s, r, k + 1);
        assert(sp(P, k) == P[k] * sp(P, k + 1));
        if k < d { assert(1 * sp(P, k + 1) == sp(P, k + 1)); } else { assert(P[k] == s[k - d]); }
    } else if s.len() == 0 { }
}
/// the matrix a batch index selects lies inside the operand
pub proof fn lemma_bat(f: Seq<i64>, P: Seq<i64>, q: int, k: int)
    requires f.len() == P.len(), 0 <= k <= f.len() - 2, nonneg(P), fits(P), q >= 0, forall|d: int| 0 <= d < f.len() - 2 ==> #[trigger] f[d] > 0 && (P[d] == 1 || P[d] == f[d])
    ensures 0 <= bat_off(f, P, q, k), bat_off(f, P, q, k) + sp(P, f.len() - 2) <= sp(P, k) <= MAXN(),
        pr(f, k, f.len() - 2) > 0, k == f.len() - 2 ==> tdq(f, q, k) == q,
        k < f.len() - 2 ==> ({ let tmp = tdq(f, q, k + 1); let ix = tmp % (f[k] as int); f[k] > 0 && 0 <= ix < f[k] && tmp >= 0 && tmp / (f[k] as int) == tdq(f, q, k)
            && (P[k] != 1 ==> 0 <= ix * sp(P, k + 1) <= MAXN()) && bat_off(f, P, q, k) == (if P[k] != 1 { ix * sp(P, k + 1) } else { 0 }) + bat_off(f, P, q, k + 1) && 0 <= bat_off(f, P, q, k + 1) <= MAXN() })
    decreases f.len() - k
{
    reveal(tdq);
    let e = f.len() - 2;
    lemma_fits(P); assert(0 <= sp(P, k) <= MAXN()); assert(0 <= sp(P, e) <= MAXN());
    if k < e {
        lemma_bat(f, P, q, k + 1); assert(0 <= sp(P, k + 1) <= MAXN());
        let x = pr(f, k + 1, e); let fk = f[k] as int; let tmp = q / x; let ix = tmp % fk; let y = sp(P, k + 1); let b1 = bat_off(f, P, q, k + 1); let z = sp(P, e);
        assert(f[k] > 0);
        lemma_div_mod(q, fk, x);
        assert(pr(f, k, e) == fk * x);
        assert(fk * x > 0) by (nonlinear_arith) requires fk > 0, x > 0;
        assert(tmp >= 0) by (nonlinear_arith) requires q >= 0, x > 0, tmp == q / x;
        assert(tmp / fk == q / (fk * x)) by (nonlinear_arith) requires fk > 0, x > 0, q >= 0, tmp == q / x;
        assert(0 <= ix < fk) by (nonlinear_arith) requires fk > 0, ix == tmp % fk;
        assert(sp(P, k) == P[k] * y);
        if P[k] != 1 { assert(0 <= ix * y && ix * y + y <= fk * y) by (nonlinear_arith) requires 0 <= ix, ix + 1 <= fk, y >= 0; }
        else { assert(1 * y == y); }
    } else { assert(bat_off(f, P, q, k) == 0); assert(pr(f, k, e) == 1); assert(q / 1 == q); }
}
pub proof fn lemma_pr_pos(s: Seq<i64>, e: int)
    requires nonneg(s), 0 <= e <= s.len(), pr(s, 0, e) > 0
    ensures forall|d: int| 0 <= d < e ==> #[trigger] s[d] > 0
    decreases e
{
    if e > 0 {
        lemma_pr_last(s, 0, e - 1); lemma_pr_nonneg(s, 0, e - 1);
        assert(pr(s, 0, e - 1) > 0 && s[e - 1] > 0) by (nonlinear_arith) requires pr(s, 0, e - 1) >= 0, s[e - 1] >= 0, pr(s, 0, e - 1) * s[e - 1] > 0;
        lemma_pr_pos(s, e - 1);
    }
}
pub open spec fn mm_S(f: Seq<i64>) -> int { f[f.len() - 2] * f[f.len() - 1] }
/// all the size facts of one product
pub proof fn lemma_mm(a: Tensor, b: Tensor, ta: bool, tb: bool)
    requires a.geo(), b.geo(), a.shape.len() > 0, b.shape.len() > 0, mm_ok(a.shape@, b.shape@, ta, tb), fits(mm_full(a.shape@, b.shape@, ta, tb))
    ensures ({ let f = mm_full(a.shape@, b.shape@, ta, tb); let r = f.len(); let A = asA(a.shape@); let B = asB(b.shape@); let PA = padl(A, r as int, 1); let PB = padl(B, r as int, 1);
        let m = f[r - 2]; let n = f[r - 1]; let k = cols(A, ta && a.shape.len() != 1);
        &&& 2 <= r <= 8 && nonneg(f) && sp(f, 0) == pr(f, 0, r - 2) * mm_S(f) && 0 <= mm_S(f) <= MAXN() && 0 <= pr(f, 0, r - 2) <= MAXN()
        &&& pr(f, 0, r - 1) == pr(f, 0, r - 2) * m && 0 <= pr(f, 0, r - 1) <= MAXN() && 0 <= sp(f, 0) <= MAXN()
        &&& nonneg(PA) && nonneg(PB) && fits(PA) && fits(PB) && sp(PA, 0) == a.numel && sp(PB, 0) == b.numel
        &&& sp(PA, r - 2) == m * k && sp(PB, r - 2) == k * n && 0 <= m <= MAXN() && 0 <= n <= MAXN() && 0 <= k <= MAXN()
        &&& 0 <= m * k <= MAXN() && 0 <= k * n <= MAXN() && 0 <= m * n <= MAXN()
        &&& forall|d: int| 0 <= d < r - 2 ==> (PA[d] == 1 || PA[d] == #[trigger] f[d]) && (PB[d] == 1 || PB[d] == f[d])
        &&& r == 2 ==> pr(f, 0, 0) == 1 && m * k == a.numel && k * n == b.numel
    })
{
    let f = mm_full(a.shape@, b.shape@, ta, tb); let r = f.len() as int; let A = asA(a.shape@); let B = asB(b.shape@); let PA = padl(A, r, 1); let PB = padl(B, r, 1);
    lemma_asA(a.shape@); lemma_asB(b.shape@);
    lemma_padl(A, r, 0); lemma_padl(A, r, r - 2); lemma_padl(B, r, 0); lemma_padl(B, r, r - 2);
    lemma_padl_np(A, r, 0); lemma_padl_np(B, r, 0);
    assert(nonneg(f)) by { assert forall|d: int| 0 <= d < r implies f[d] >= 0 by { assert(PA[d] >= 0 && PB[d] >= 0); assert(rows(A, ta && a.shape.len() != 1) >= 0 && cols(B, tb && b.shape.len() != 1) >= 0); } }
    lemma_fits(f); lemma_pr_sp(f, 0, r - 2); lemma_pr_last(f, 0, r - 2); lemma_sp2(f); lemma_sp2(A); lemma_sp2(B);
    assert(0 <= sp(f, 0) <= MAXN()); assert(0 <= sp(f, r - 2) <= MAXN()); assert(0 <= pr(f, 0, r - 2) <= MAXN()); assert(0 <= pr(f, 0, r - 1) <= MAXN());
    lemma_fits(PA); lemma_fits(PB); lemma_fits(A); lemma_fits(B);
    assert(0 <= sp(PA, r - 2) <= MAXN()); assert(0 <= sp(PB, r - 2) <= MAXN());
    assert forall|d: int| 0 <= d < r - 2 implies (PA[d] == 1 || PA[d] == #[trigger] f[d]) && (PB[d] == 1 || PB[d] == f[d]) by { assert(bok(PA[d] as int, PB[d] as int)); }
    assert(0 <= f[r - 2] <= MAXN() && 0 <= f[r - 1] <= MAXN());
    let a0 = A[A.len() - 2] as int; let a1 = A[A.len() - 1] as int; let b0 = B[B.len() - 2] as int; let b1 = B[B.len() - 1] as int;
    assert(0 <= a0 <= MAXN() && 0 <= a1 <= MAXN() && 0 <= b0 <= MAXN() && 0 <= b1 <= MAXN());
    assert(a0 * a1 == a1 * a0 && b0 * b1 == b1 * b0) by (nonlinear_arith);
    let m = f[r - 2] as int; let n = f[r - 1] as int; let k = cols(A, ta && a.shape.len() != 1) as int;
    assert(m == rows(A, ta && a.shape.len() != 1) && n == cols(B, tb && b.shape.len() != 1) && k == rows(B, tb && b.shape.len() != 1));
    assert(m * k == a0 * a1); assert(k * n == b0 * b1);
}
pub proof fn lemma_sp2(s: Seq<i64>)
    requires s.len() >= 2
    ensures sp(s, s.len() - 2) == s[s.len() - 2] * s[s.len() - 1]
{
    let r = s.len() as int;
    assert(sp(s, r) == 1); assert(sp(s, r - 1) == s[r - 1] * sp(s, r)); assert(s[r - 1] * 1 == s[r - 1]); assert(sp(s, r - 2) == s[r - 2] * sp(s, r - 1));
}
pub proof fn lemma_padl_np(s: Seq<i64>, r: int, k: int)
    requires s.len() <= r, 0 <= k <= r
    ensures np(padl(s, r, 1), k) == (if k <= r - s.len() { np(s, 0) } else { np(s, k - (r - s.len())) })
    decreases r - k
{
    let P = padl(s, r, 1); let d = r - s.len();
    if k < r { lemma_padl_np(s, r, k + 1); if k < d { assert(1 * np(P, k + 1) == np(P, k + 1)); } else { assert(P[k] == s[k - d]); } }
}
pub proof fn lemma_asA(s: Seq<i64>)
    requires s.len() > 0, nonneg(s), fits(s), s.len() <= 8
    ensures nonneg(asA(s)), fits(asA(s)), sp(asA(s), 0) == sp(s, 0), 2 <= asA(s).len() <= 8
{
    let A = asA(s);
    if s.len() == 1 {
        lemma_sp_push(seq![1i64], s[0], 0); lemma_np_push(seq![1i64], s[0], 0); assert(seq![1i64].push(s[0]) =~= A);
        assert(sp(seq![1i64], 1) == 1); assert(sp(seq![1i64], 0) == 1 * sp(seq![1i64], 1)); assert(np(seq![1i64], 1) == 1); assert(np(seq![1i64], 0) == 1 * np(seq![1i64], 1));
        assert(sp(s, 1) == 1); assert(sp(s, 0) == s[0] * sp(s, 1)); assert(np(s, 1) == 1); assert(np(s, 0) == nz(s[0] as int) * np(s, 1));
        assert(sp(seq![1i64], 0) == 1 && np(seq![1i64], 0) == 1);
        assert(1 * s[0] == s[0] * 1 && 1 * nz(s[0] as int) == nz(s[0] as int) * 1);
    }
}
pub proof fn lemma_asB(s: Seq<i64>)
    requires s.len() > 0, nonneg(s), fits(s), s.len() <= 8
    ensures nonneg(asB(s)), fits(asB(s)), sp(asB(s), 0) == sp(s, 0), 2 <= asB(s).len() <= 8
{
    let A = asB(s);
    if s.len() == 1 {
        lemma_sp_push(s, 1, 0); lemma_np_push(s, 1, 0); assert(s.push(1) =~= A); assert(sp(s, 0) * 1 == sp(s, 0)); assert(np(s, 0) * 1 == np(s, 0));
    }
}
/// dropping the added extents (which are one) keeps the element count
pub proof fn lemma_mm_shape(a: Seq<i64>, b: Seq<i64>, ta: bool, tb: bool)
    requires a.len() > 0, b.len() > 0, a.len() <= 8, b.len() <= 8, nonneg(mm_full(a, b, ta, tb)), fits(mm_full(a, b, ta, tb))
    ensures ({ let f = mm_full(a, b, ta, tb); let s = mm_shape(a, b, ta, tb); nonneg(s) && fits(s) && s.len() <= f.len() && sp(s, 0) == sp(f, 0) })
{
    let f = mm_full(a, b, ta, tb); let r = f.len() as int; let s = mm_shape(a, b, ta, tb); let g = f.subrange(0, r - 2); let h = f.subrange(0, r - 1);
    assert(h =~= g.push(f[r - 2])); assert(f =~= h.push(f[r - 1]));
    lemma_np_push(g, f[r - 2], 0); lemma_np_push(h, f[r - 1], 0); lemma_sp_push(g, f[r - 2], 0); lemma_sp_push(h, f[r - 1], 0);
    let p = if a.len() == 1 { g } else { h };
    lemma_np_push(p, f[r - 1], 0); lemma_sp_push(p, f[r - 1], 0);
    if a.len() == 1 { assert(f[r - 2] == 1); assert(sp(g, 0) * 1 == sp(g, 0)); assert(np(g, 0) * 1 == np(g, 0)); }
    if b.len() == 1 { assert(f[r - 1] == 1); assert(sp(p, 0) * 1 == sp(p, 0)); assert(np(p, 0) * 1 == np(p, 0)); assert(sp(h, 0) * 1 == sp(h, 0)); assert(np(h, 0) * 1 == np(h, 0)); }
    assert forall|k: int| 0 <= k < s.len() implies s[k] >= 0 by { assert(f[if k < r { k } else { r - 1 }] >= 0); assert(f[r - 1] >= 0); }
}
pub proof fn lemma_batch_el(a: Tensor, b: Tensor, ma: Seq<F>, mb: Seq<F>, ta: bool, tb: bool, q: int)
    requires mm_S(mm_full(a.shape@, b.shape@, ta, tb)) >= 0
    ensures ({ let S = mm_S(mm_full(a.shape@, b.shape@, ta, tb)); forall|x: int| q * S <= x < q * S + S ==> #[trigger] mm_el(a, b, ma, mb, ta, tb, x) == mmat(mm_of(a, b, ma, mb, ta, tb, q), x - q * S) })
{
    reveal(mm_el);
    let S = mm_S(mm_full(a.shape@, b.shape@, ta, tb));
    assert forall|x: int| q * S <= x < q * S + S implies #[trigger] mm_el(a, b, ma, mb, ta, tb, x) == mmat(mm_of(a, b, ma, mb, ta, tb, q), x - q * S) by { lemma_mod_unique(x, S, q, x - q * S); }
}
pub proof fn lemma_strides(shape: Seq<i64>, strides: Seq<i64>, c: Seq<i64>, r: int, i: int)
    requires rowmajor(shape, strides), shape.len() > 0, c == asA(shape) || c == asB(shape), 0 <= i < r - 2, c.len() <= r
    ensures padl(c, r, 1)[i] != 1 ==> padl(strides, r, 0)[i] == sp(padl(c, r, 1), i + 1), strides.len() == shape.len()
{ lemma_padl(c, r, i + 1); }
/// what the batch loops use
pub open spec fn bctx(f: Seq<i64>, P: Seq<i64>) -> bool { f.len() == P.len() && nonneg(P) && fits(P) && forall|d: int| 0 <= d < f.len() - 2 ==> #[trigger] f[d] > 0 && (P[d] == 1 || P[d] == f[d]) }
@fn matmul_detail = tinytorch::op::matmulOpImplDetail<float>
@assume_asserts
@req
a.wf(*old(w)), b.wf(*old(w)), a.shape.len() > 0, b.shape.len() > 0, a.dt == 0, b.dt == 0,
mm_ok(a.shape@, b.shape@, transA, transB) ==> fits(mm_full(a.shape@, b.shape@, transA, transB)),
@ens
mm_ok(a.shape@, b.shape@, transA, transB),
res.wf(*final(w)), keeps(*old(w), *final(w)),
res.shape@ == mm_shape(a.shape@, b.shape@, transA, transB),
forall|x: int| 0 <= x < res.numel ==> res.at(*final(w), x) == #[trigger] mm_el(*a, *b, old(w).f@[a.blk], old(w).f@[b.blk], transA, transB, x),
@at entry
let ghost ta0 = transA; let ghost tb0 = transB;
let ghost f = mm_full(a.shape@, b.shape@, ta0, tb0);
let ghost r = f.len() as int;
let ghost PA = padl(asA(a.shape@), r, 1);
let ghost PB = padl(asB(b.shape@), r, 1);
let ghost S = mm_S(f);
@at before /let mut effectiveADim1/
assert(shapeA@ =~= asA(a.shape@)); assert(shapeB@ =~= asB(b.shape@));
@at before /let te_/
assert(retShape@ =~= f);
lemma_mm(*a, *b, ta0, tb0);
@at loop0.before
assert(pr(f, 0, 0) == 1);
@loop 0
batchSize == pr(f, 0, i as int), retShape@ == f, retDimCnt == r,
@at loop0.begin
lemma_pr_last(f, 0, i as int);
lemma_fits(f); assert(0 <= pr(f, 0, i + 1) <= MAXN());
@loop 1 isolate
batch_init1 == 0, a.wf(*old(w)), b.wf(*old(w)), a.shape.len() > 0, b.shape.len() > 0, a.dt == 0, b.dt == 0, mm_ok(a.shape@, b.shape@, ta0, tb0), fits(f),
f == mm_full(a.shape@, b.shape@, ta0, tb0), 2 < r <= 8, r == f.len(), PA == padl(asA(a.shape@), r, 1), PB == padl(asB(b.shape@), r, 1), S == mm_S(f),
m == f[r - 2], n == f[r - 1], k == cols(asA(a.shape@), ta0 && a.shape.len() != 1), transA == (ta0 && a.shape.len() != 1), transB == (tb0 && b.shape.len() != 1),
aShape@ == PA, bShape@ == PB, aStrides@ == padl(a.strides@, r, 0), bStrides@ == padl(b.strides@, r, 0), batchSize == pr(f, 0, r - 2), batchSize >= 0,
retTensor.geo(), retTensor.shape@ == f, retTensor.off == 0, retTensor.dt == 0, !old(w).f@.dom().contains(retTensor.blk), w.f@.dom().contains(retTensor.blk), retPtr.b == retTensor.blk, retPtr.o == 0, selfPtr.b == a.blk, selfPtr.o == a.off, otherPtr.b == b.blk, otherPtr.o == b.off,
frame1(*old(w), *w, retTensor.blk), w.f@[retTensor.blk].len() == retTensor.numel, retShape@ == f, retDimCnt == r,
forall|x: int| 0 <= x < batch * S ==> #[trigger] w.f@[retTensor.blk][x] == mm_el(*a, *b, old(w).f@[a.blk], old(w).f@[b.blk], ta0, tb0, x),
@at loop1.before
assert(0 * S == 0);
@at loop1.begin
lemma_mm(*a, *b, ta0, tb0); lemma_pr_pos(f, r - 2);
lemma_bat(f, PA, batch as int, 0); lemma_bat(f, PB, batch as int, 0);
lemma_row(batch as int, batchSize as int, S);
assert(batch * m <= batchSize * m && 0 <= batch * m) by (nonlinear_arith) requires 0 <= batch <= batchSize, m >= 0;
assert((batch * m) * n == batch * (m * n)) by (nonlinear_arith);
@loop 2 isolate
retDimCnt == r, 2 < r <= 8, f.len() == r, bctx(f, PA), bctx(f, PB), batch >= 0, PA == padl(asA(a.shape@), r, 1), PB == padl(asB(b.shape@), r, 1), a.geo(), b.geo(), a.shape.len() > 0, b.shape.len() > 0, asA(a.shape@).len() <= r, asB(b.shape@).len() <= r,
-1 <= i <= r - 3, tmp == tdq(f, batch as int, i + 1), tmp >= 0, aOffset == bat_off(f, PA, batch as int, i + 1), bOffset == bat_off(f, PB, batch as int, i + 1),
retShape@ == f, aShape@ == PA, bShape@ == PB, aStrides@ == padl(a.strides@, r, 0), bStrides@ == padl(b.strides@, r, 0),
@at loop2.before
lemma_bat(f, PA, batch as int, r - 2);
@at loop2.begin
lemma_bat(f, PA, batch as int, i as int); lemma_bat(f, PB, batch as int, i as int);
lemma_strides(a.shape@, a.strides@, asA(a.shape@), r, i as int); lemma_strides(b.shape@, b.strides@, asB(b.shape@), r, i as int);
let ghost ix = tdq(f, batch as int, i + 1) % (f[i as int] as int);
let ghost pa = sp(PA, i + 1); let ghost pb = sp(PB, i + 1);
assert(PA[i as int] != 1 ==> aStrides[i as int] == pa && 0 <= ix * pa <= MAXN());
assert(PB[i as int] != 1 ==> bStrides[i as int] == pb && 0 <= ix * pb <= MAXN());
@at before /if \(aShape/
assert(index == ix && tmp == tdq(f, batch as int, i as int));
@at loop2.after
let ghost g = mm_of(*a, *b, old(w).f@[a.blk], old(w).f@[b.blk], ta0, tb0, batch as int);
let ghost w1 = *w;
assert(aOffset == bat_off(f, PA, batch as int, 0) && bOffset == bat_off(f, PB, batch as int, 0));
assert(retTensor.off + (batch * m) * n == batch * S);
assert(0 <= aOffset && aOffset + m * k <= a.numel && 0 <= bOffset && bOffset + k * n <= b.numel);
assert(mmof(*w, Ptr { b: a.blk, o: (a.off + aOffset) as i64 }, Ptr { b: b.blk, o: (b.off + bOffset) as i64 }, m as int, k as int, n as int, transA, transB) == g);
@at loop1.end
lemma_batch_el(*a, *b, old(w).f@[a.blk], old(w).f@[b.blk], ta0, tb0, batch as int);
assert forall|x: int| batch * S <= x < batch * S + S implies #[trigger] w.f@[retTensor.blk][x] == mm_el(*a, *b, old(w).f@[a.blk], old(w).f@[b.blk], ta0, tb0, x) by {}
assert((batch + 1) * S == batch * S + S) by (nonlinear_arith);
@loop 3
outShape@ == f.subrange(0, i as int), retShape@ == f, retDimCnt == r,
@at loop3.end
assert(outShape@ =~= f.subrange(0, i + 1));
@at before /tensor_reshape_/
assert(outShape@ =~= mm_shape(a.shape@, b.shape@, ta0, tb0));
lemma_mm_shape(a.shape@, b.shape@, ta0, tb0);
@at exit
assert(f =~= f.subrange(0, r - 1).push(f[r - 1]));
if r == 2 {
    lemma_batch_el(*a, *b, old(w).f@[a.blk], old(w).f@[b.blk], ta0, tb0, 0);
    assert(bat_off(f, PA, 0, 0) == 0 && bat_off(f, PB, 0, 0) == 0); assert(0 * S == 0);
    assert forall|x: int| 0 <= x < S implies #[trigger] w.f@[retTensor.blk][x] == mm_el(*a, *b, old(w).f@[a.blk], old(w).f@[b.blk], ta0, tb0, x) by { }
    assert(1 * S == S);
}
assert(forall|x: int| 0 <= x < sp(f, 0) ==> #[trigger] w.f@[retTensor.blk][x] == mm_el(*a, *b, old(w).f@[a.blk], old(w).f@[b.blk], ta0, tb0, x));
assert(retTensor.numel == sp(f, 0));
@fn matmul = tinytorch::op::matmulOpImpl<float>
@assume_asserts
@req
a.wf(*old(w)), b.wf(*old(w)), a.shape.len() > 0, b.shape.len() > 0, a.dt == 0, b.dt == 0,
mm_ok(a.shape@, b.shape@, transA, transB) ==> fits(mm_full(a.shape@, b.shape@, transA, transB)),
@ens
mm_ok(a.shape@, b.shape@, transA, transB),
res.wf(*final(w)), keeps(*old(w), *final(w)),
res.shape@ == mm_shape(a.shape@, b.shape@, transA, transB),
forall|x: int| 0 <= x < res.numel ==> res.at(*final(w), x) == #[trigger] mm_el(*a, *b, old(w).f@[a.blk], old(w).f@[b.blk], transA, transB, x),
@at entry
let ghost f = mm_full(a.shape@, b.shape@, transA, transB);
let ghost S = mm_S(f);
@at before /let te_/
lemma_mm(*a, *b, transA, transB);
assert(Seq::<i64>::empty().push(m).push(n) =~= f); assert(mm_shape(a.shape@, b.shape@, transA, transB) =~= f);
lemma_sp2(f); lemma_batch_el(*a, *b, old(w).f@[a.blk], old(w).f@[b.blk], transA, transB, 0);
assert(0 * S == 0 && 1 * S == S); assert(sp(f, 0) == S);
@at exit
if f.len() == 2 { assert(bat_off(f, padl(asA(a.shape@), 2, 1), 0, 0) == 0 && bat_off(f, padl(asB(b.shape@), 2, 1), 0, 0) == 0); }
@at after /let mut retTensor/
assert(retTensor.numel == S);
