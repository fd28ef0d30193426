// ---------------------------------------------------------------- n-dimensional index arithmetic (specs and lemmas)
/// product of s[k..]
pub open spec fn sp(s: Seq<i64>, k: int) -> int decreases s.len() - k
{ if k < 0 || k >= s.len() { 1 } else { s[k] * sp(s, k + 1) } }
/// product of s[a..b]
pub open spec fn pr(s: Seq<i64>, a: int, b: int) -> int decreases b - a
{ if a >= b { 1 } else { s[a] * pr(s, a + 1, b) } }
pub open spec fn nonneg(s: Seq<i64>) -> bool { forall|k: int| 0 <= k < s.len() ==> s[k] >= 0 }
pub open spec fn pos(s: Seq<i64>) -> bool { forall|k: int| 0 <= k < s.len() ==> s[k] > 0 }
/// row-major (contiguous) strides of shape s
pub open spec fn rowmajor(s: Seq<i64>, st: Seq<i64>) -> bool
{ st.len() == s.len() && forall|k: int| 0 <= k < s.len() ==> st[k] == sp(s, k + 1) }
/// coordinate d of linear (row-major) index i in shape s
pub open spec fn coord(s: Seq<i64>, i: int, d: int) -> int { (i / sp(s, d + 1)) % (s[d] as int) }

pub proof fn lemma_sp_nonneg(s: Seq<i64>, k: int)
    requires nonneg(s), 0 <= k
    ensures sp(s, k) >= 0
    decreases s.len() - k
{ if k < s.len() { lemma_sp_nonneg(s, k + 1); assert(s[k] * sp(s, k + 1) >= 0) by (nonlinear_arith) requires s[k] >= 0, sp(s, k + 1) >= 0; } }
pub proof fn lemma_sp_pos(s: Seq<i64>, k: int)
    requires pos(s), 0 <= k
    ensures sp(s, k) >= 1
    decreases s.len() - k
{ if k < s.len() { lemma_sp_pos(s, k + 1); assert(s[k] * sp(s, k + 1) >= 1) by (nonlinear_arith) requires s[k] >= 1, sp(s, k + 1) >= 1; } }
/// a non-empty tensor has positive extents
pub proof fn lemma_numel_pos(s: Seq<i64>, k: int)
    requires nonneg(s), 0 <= k, sp(s, k) > 0
    ensures forall|d: int| k <= d < s.len() ==> s[d] > 0, forall|d: int| k <= d <= s.len() ==> #[trigger] sp(s, d) > 0
    decreases s.len() - k
{
    if k < s.len() {
        lemma_sp_nonneg(s, k + 1);
        assert(s[k] > 0 && sp(s, k + 1) > 0) by (nonlinear_arith) requires s[k] >= 0, sp(s, k + 1) >= 0, s[k] * sp(s, k + 1) > 0;
        lemma_numel_pos(s, k + 1);
        assert forall|d: int| k <= d <= s.len() implies #[trigger] sp(s, d) > 0 by { if d == k {} else {} }
    }
}
/// sp(s, d) <= sp(s, k) for k <= d when all extents are positive
pub proof fn lemma_sp_mono(s: Seq<i64>, k: int, d: int)
    requires pos(s), 0 <= k <= d <= s.len()
    ensures sp(s, d) <= sp(s, k), 1 <= sp(s, d)
    decreases d - k
{
    lemma_sp_pos(s, d);
    if k < d { lemma_sp_mono(s, k + 1, d); lemma_sp_pos(s, k + 1); assert(s[k] * sp(s, k + 1) >= sp(s, k + 1)) by (nonlinear_arith) requires s[k] >= 1, sp(s, k + 1) >= 1; }
}
pub proof fn lemma_pr_sp(s: Seq<i64>, a: int, b: int)
    requires 0 <= a <= b <= s.len()
    ensures sp(s, a) == pr(s, a, b) * sp(s, b)
    decreases b - a
{
    if a < b { lemma_pr_sp(s, a + 1, b); assert(s[a] * (pr(s, a + 1, b) * sp(s, b)) == (s[a] * pr(s, a + 1, b)) * sp(s, b)) by (nonlinear_arith); }
}
pub proof fn lemma_pr_split(s: Seq<i64>, a: int, m: int, b: int)
    requires a <= m <= b
    ensures pr(s, a, b) == pr(s, a, m) * pr(s, m, b)
    decreases m - a
{
    if a < m { lemma_pr_split(s, a + 1, m, b); assert(s[a] * (pr(s, a + 1, m) * pr(s, m, b)) == (s[a] * pr(s, a + 1, m)) * pr(s, m, b)) by (nonlinear_arith); }
}
pub proof fn lemma_pr_nonneg(s: Seq<i64>, a: int, b: int)
    requires nonneg(s), 0 <= a, b <= s.len()
    ensures pr(s, a, b) >= 0
    decreases b - a
{ if a < b { lemma_pr_nonneg(s, a + 1, b); assert(s[a] * pr(s, a + 1, b) >= 0) by (nonlinear_arith) requires s[a] >= 0, pr(s, a + 1, b) >= 0; } }
pub proof fn lemma_pr_last(s: Seq<i64>, a: int, b: int)
    requires 0 <= a <= b < s.len()
    ensures pr(s, a, b + 1) == pr(s, a, b) * s[b]
    decreases b - a
{ if a < b { lemma_pr_last(s, a + 1, b); assert(s[a] * (pr(s, a + 1, b) * s[b]) == (s[a] * pr(s, a + 1, b)) * s[b]) by (nonlinear_arith); }
  else { assert(pr(s, a + 1, b + 1) == 1); assert(pr(s, a, b) == 1); assert(pr(s, a, b + 1) == s[a] * pr(s, a + 1, b + 1)); } }
pub proof fn lemma_pr_eq(s: Seq<i64>, t: Seq<i64>, a: int, b: int)
    requires forall|k: int| a <= k < b ==> s[k] == t[k]
    ensures pr(s, a, b) == pr(t, a, b)
    decreases b - a
{ if a < b { lemma_pr_eq(s, t, a + 1, b); } }
pub proof fn lemma_sp_eq(s: Seq<i64>, t: Seq<i64>, a: int)
    requires s.len() == t.len(), 0 <= a, forall|k: int| a <= k < s.len() ==> s[k] == t[k]
    ensures sp(s, a) == sp(t, a)
    decreases s.len() - a
{ if a < s.len() { lemma_sp_eq(s, t, a + 1); } }

/// the step of the digit extraction loop: (i % sp(s,d)) / sp(s,d+1) is coordinate d; (i % sp(s,d)) % sp(s,d+1) == i % sp(s,d+1)
pub proof fn lemma_digit(s: Seq<i64>, i: int, d: int)
    requires nonneg(s), 0 <= d < s.len(), sp(s, d) > 0, i >= 0
    ensures (i % sp(s, d)) / sp(s, d + 1) == coord(s, i, d), (i % sp(s, d)) % sp(s, d + 1) == i % sp(s, d + 1),
        0 <= coord(s, i, d) < s[d], sp(s, d + 1) > 0, s[d] > 0
{
    lemma_sp_nonneg(s, d + 1);
    let n = s[d] as int; let q = sp(s, d + 1);
    assert(n > 0 && q > 0) by (nonlinear_arith) requires n >= 0, q >= 0, n * q > 0;
    lemma_div_mod(i, n, q);
}
/// (i % (n*q)) / q == (i / q) % n   and   (i % (n*q)) % q == i % q
pub proof fn lemma_div_mod(i: int, n: int, q: int)
    requires n > 0, q > 0
    ensures (i % (n * q)) / q == (i / q) % n, (i % (n * q)) % q == i % q, 0 <= (i / q) % n < n
{
    let a = i / q; let r = i % q; let b = a / n; let c = a % n;
    assert(i == a * q + r && 0 <= r < q) by (nonlinear_arith) requires q > 0, a == i / q, r == i % q;
    assert(a == b * n + c && 0 <= c < n) by (nonlinear_arith) requires n > 0, b == a / n, c == a % n;
    assert(i == b * (n * q) + (c * q + r)) by (nonlinear_arith) requires i == a * q + r, a == b * n + c;
    assert(0 <= c * q + r < n * q) by (nonlinear_arith) requires 0 <= c < n, 0 <= r < q, q > 0;
    assert(n * q > 0) by (nonlinear_arith) requires n > 0, q > 0;
    lemma_mod_unique(i, n * q, b, c * q + r);
    lemma_mod_unique(c * q + r, q, c, r);
}
pub proof fn lemma_mod_unique(x: int, m: int, q: int, r: int)
    requires m > 0, x == q * m + r, 0 <= r < m
    ensures x / m == q, x % m == r
{
    assert(x / m == q && x % m == r) by (nonlinear_arith) requires m > 0, x == q * m + r, 0 <= r < m;
}
/// row-major offset of coordinate vector c (from dimension k on) with strides st
pub open spec fn dot(c: Seq<i64>, st: Seq<i64>, k: int) -> int decreases st.len() - k
{ if k < 0 || k >= st.len() { 0 } else { c[k] * st[k] + dot(c, st, k + 1) } }

// ---- representable extents: the product of the non-zero extents is below 2^60
pub open spec fn MAXN() -> int { 0x1000_0000_0000_0000 }
pub open spec fn nz(x: int) -> int { if x <= 0 { 1 } else { x } }
pub open spec fn np(s: Seq<i64>, k: int) -> int decreases s.len() - k
{ if k < 0 || k >= s.len() { 1 } else { nz(s[k] as int) * np(s, k + 1) } }
pub open spec fn fits(s: Seq<i64>) -> bool { np(s, 0) <= MAXN() }
pub proof fn lemma_np_mono(s: Seq<i64>, k: int, d: int)
    requires 0 <= k <= d <= s.len()
    ensures 1 <= np(s, d) <= np(s, k)
    decreases s.len() - k
{
    if k < s.len() {
        if k < d { lemma_np_mono(s, k + 1, d); } else { lemma_np_mono(s, k + 1, s.len() as int); lemma_np_mono(s, k + 1, k + 1); }
        let x = nz(s[k] as int); let y = np(s, k + 1);
        assert(x * y >= y && x * y >= 1) by (nonlinear_arith) requires x >= 1, y >= 1;
    }
}
pub proof fn lemma_sp_np(s: Seq<i64>, k: int)
    requires nonneg(s), 0 <= k <= s.len()
    ensures 0 <= sp(s, k) <= np(s, k)
    decreases s.len() - k
{
    if k < s.len() {
        lemma_sp_np(s, k + 1); lemma_np_mono(s, k + 1, k + 1);
        let x = nz(s[k] as int); let y = np(s, k + 1); let a = s[k] as int; let b = sp(s, k + 1);
        assert(0 <= a * b <= x * y) by (nonlinear_arith) requires 0 <= a <= x, 0 <= b <= y;
    }
}
pub proof fn lemma_pr_np(s: Seq<i64>, a: int, b: int)
    requires nonneg(s), 0 <= a, b <= s.len()
    ensures 0 <= pr(s, a, b), a <= s.len() ==> pr(s, a, b) <= np(s, a)
    decreases b - a
{
    if a < b {
        lemma_pr_np(s, a + 1, b); lemma_np_mono(s, a + 1, a + 1);
        let x = nz(s[a] as int); let y = np(s, a + 1); let c = s[a] as int; let e = pr(s, a + 1, b);
        assert(0 <= c * e <= x * y) by (nonlinear_arith) requires 0 <= c <= x, 0 <= e <= y;
    } else if a <= s.len() { lemma_np_mono(s, a, a); }
}
pub proof fn lemma_ext_np(s: Seq<i64>, k: int)
    requires nonneg(s), 0 <= k < s.len()
    ensures 0 <= s[k] <= np(s, 0)
{
    lemma_np_mono(s, k + 1, k + 1); lemma_np_mono(s, 0, k);
    let x = nz(s[k] as int); let y = np(s, k + 1);
    assert(x <= x * y) by (nonlinear_arith) requires x >= 1, y >= 1;
}
/// everything a kernel computes from extents is representable
pub proof fn lemma_fits(s: Seq<i64>)
    requires nonneg(s), fits(s)
    ensures forall|k: int| 0 <= k <= s.len() ==> 0 <= #[trigger] sp(s, k) <= MAXN(),
        forall|a: int, b: int| 0 <= a <= s.len() && b <= s.len() ==> 0 <= #[trigger] pr(s, a, b) <= MAXN(),
        forall|k: int| 0 <= k < s.len() ==> 0 <= #[trigger] s[k] <= MAXN(),
{
    assert forall|k: int| 0 <= k <= s.len() implies 0 <= #[trigger] sp(s, k) <= MAXN() by { lemma_sp_np(s, k); lemma_np_mono(s, 0, k); }
    assert forall|a: int, b: int| 0 <= a <= s.len() && b <= s.len() implies 0 <= #[trigger] pr(s, a, b) <= MAXN() by { lemma_pr_np(s, a, b); lemma_np_mono(s, 0, a); }
    assert forall|k: int| 0 <= k < s.len() implies 0 <= #[trigger] s[k] <= MAXN() by { lemma_ext_np(s, k); }
}
/// row i of n rows of length q
pub proof fn lemma_row(i: int, n: int, q: int)
    requires 0 <= i < n, q >= 0
    ensures 0 <= i * q, i * q + q <= n * q, (i + 1) * q == i * q + q
{
    assert(0 <= i * q && i * q + q <= n * q && (i + 1) * q == i * q + q) by (nonlinear_arith) requires 0 <= i < n, q >= 0;
}

// ---- one axis of a shape: outer x extent x inner
pub open spec fn outer(s: Seq<i64>, d: int) -> int { pr(s, 0, d) }
pub open spec fn inner(s: Seq<i64>, d: int) -> int { pr(s, d + 1, s.len() as int) }
pub proof fn lemma_axis(s: Seq<i64>, d: int)
    requires 0 <= d < s.len(), nonneg(s), fits(s)
    ensures sp(s, 0) == outer(s, d) * (s[d] * inner(s, d)), sp(s, d + 1) == inner(s, d), sp(s, d) == s[d] * inner(s, d),
        0 <= outer(s, d) <= MAXN(), 0 <= inner(s, d) <= MAXN(), 0 <= s[d] * inner(s, d) <= MAXN(), 0 <= sp(s, 0) <= MAXN(),
{
    let n = s.len() as int;
    lemma_fits(s); lemma_pr_sp(s, 0, d); lemma_pr_sp(s, d + 1, n); lemma_pr_sp(s, d, n);
    assert(sp(s, n) == 1); assert(sp(s, d) == s[d] * sp(s, d + 1));
    assert(0 <= sp(s, d) <= MAXN()); assert(0 <= sp(s, d + 1) <= MAXN());
}
pub proof fn lemma_np_upd(s: Seq<i64>, d: int, x: i64, k: int)
    requires 0 <= d < s.len(), 0 <= x, nz(x as int) <= nz(s[d] as int), 0 <= k <= s.len()
    ensures 1 <= np(s.update(d, x), k) <= np(s, k)
    decreases s.len() - k
{
    if k < s.len() {
        lemma_np_upd(s, d, x, k + 1);
        let t = s.update(d, x);
        let a = nz(t[k] as int); let b = nz(s[k] as int); let y = np(t, k + 1); let z = np(s, k + 1);
        assert(1 <= a * y <= b * z) by (nonlinear_arith) requires 1 <= a <= b, 1 <= y <= z;
    }
}
/// replacing the extent of axis d by x (at most the old one)
pub proof fn lemma_axis_upd(s: Seq<i64>, d: int, x: i64)
    requires 0 <= d < s.len(), nonneg(s), fits(s), 0 <= x, nz(x as int) <= nz(s[d] as int)
    ensures fits(s.update(d, x)), nonneg(s.update(d, x)), outer(s.update(d, x), d) == outer(s, d), inner(s.update(d, x), d) == inner(s, d),
        sp(s.update(d, x), 0) == outer(s, d) * (x * inner(s, d)), 0 <= x * inner(s, d) <= MAXN(),
{
    lemma_np_upd(s, d, x, 0);
    lemma_pr_eq(s, s.update(d, x), 0, d); lemma_pr_eq(s, s.update(d, x), d + 1, s.len() as int);
    lemma_axis(s.update(d, x), d);
}
/// k-th element of rows of length rb taken from rows of length sb starting at column off
pub open spec fn block_src(k: int, rb: int, sb: int, off: int) -> int { (k / rb) * sb + off + k % rb }
pub proof fn lemma_block(o: int, rb: int, sb: int, off: int)
    requires rb >= 0
    ensures forall|k: int| o * rb <= k < o * rb + rb ==> #[trigger] block_src(k, rb, sb, off) == o * sb + off + (k - o * rb)
{
    assert forall|k: int| o * rb <= k < o * rb + rb implies #[trigger] block_src(k, rb, sb, off) == o * sb + off + (k - o * rb) by {
        lemma_mod_unique(k, rb, o, k - o * rb);
    }
}
/// byte counts: (4*a)*b bytes are a*b floats
pub proof fn lemma_bytes(a: int, b: int)
    requires 0 <= a, 0 <= b, a * b <= MAXN()
    ensures (4 * a) * b == 4 * (a * b), (4 * (a * b)) % 4 == 0, (4 * (a * b)) / 4 == a * b, 0 <= a * b
{
    assert((4 * a) * b == 4 * (a * b)) by (nonlinear_arith);
    assert(0 <= a * b) by (nonlinear_arith) requires 0 <= a, 0 <= b;
}
pub proof fn lemma_np_push(s: Seq<i64>, x: i64, k: int)
    requires 0 <= k <= s.len()
    ensures np(s.push(x), k) == np(s, k) * nz(x as int)
    decreases s.len() - k
{
    if k < s.len() { lemma_np_push(s, x, k + 1); assert(s.push(x)[k] == s[k]); assert(nz(s[k] as int) * (np(s, k + 1) * nz(x as int)) == (nz(s[k] as int) * np(s, k + 1)) * nz(x as int)) by (nonlinear_arith); }
    else { assert(np(s.push(x), k + 1) == 1); assert(np(s, k) == 1); assert(np(s.push(x), k) == nz(s.push(x)[k] as int) * np(s.push(x), k + 1)); }
}
pub proof fn lemma_sp_push(s: Seq<i64>, x: i64, k: int)
    requires 0 <= k <= s.len()
    ensures sp(s.push(x), k) == sp(s, k) * x
    decreases s.len() - k
{
    if k < s.len() { lemma_sp_push(s, x, k + 1); assert(s.push(x)[k] == s[k]); assert(s[k] * (sp(s, k + 1) * x) == (s[k] * sp(s, k + 1)) * x) by (nonlinear_arith); }
    else { assert(sp(s.push(x), k + 1) == 1); assert(sp(s, k) == 1); assert(sp(s.push(x), k) == s.push(x)[k] * sp(s.push(x), k + 1)); }
}
