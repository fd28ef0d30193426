pub open spec fn nrm(d: int, n: int) -> int { if d < 0 { d + n } else { d } }
/// the slice an element lies in (o, i) and its position d along the axis; D extent of the axis, I elements after it
pub struct R3 { pub o: int, pub d: int, pub i: int }
#[verifier::opaque]
pub open spec fn cell(D: int, I: int, x: int) -> R3 { let r = x / I; R3 { i: x % I, d: r % D, o: r / D } }
pub open spec fn addr(D: int, I: int, c: R3) -> int { c.o * (D * I) + c.i + c.d * I }
pub open spec fn in3(O: int, D: int, I: int, c: R3) -> bool { 0 <= c.o < O && 0 <= c.d < D && 0 <= c.i < I }
pub open spec fn done3(c: R3, o: int, i: int) -> bool { c.o < o || (c.o == o && c.i < i) }
pub proof fn lemma_addr3(O: int, D: int, I: int, c: R3)
    requires in3(O, D, I, c)
    ensures 0 <= addr(D, I, c) < O * (D * I), cell(D, I, addr(D, I, c)) == c, 0 <= c.o * (D * I), c.o * (D * I) + D * I <= O * (D * I), 0 <= c.d * I, c.d * I + I <= D * I, (c.d + 1) * I == c.d * I + I
{
    reveal(cell);
    let r = c.o * D + c.d; let x = r * I + c.i;
    lemma_row(c.d, D, I); lemma_row(c.o, O, D * I);
    assert(x == addr(D, I, c)) by (nonlinear_arith) requires x == (c.o * D + c.d) * I + c.i, addr(D, I, c) == c.o * (D * I) + c.i + c.d * I;
    lemma_mod_unique(x, I, r, c.i); lemma_mod_unique(r, D, c.o, c.d);
}
pub proof fn lemma_cell(O: int, D: int, I: int, x: int)
    requires 0 <= x < O * (D * I), D >= 0, I >= 0
    ensures in3(O, D, I, cell(D, I, x)), addr(D, I, cell(D, I, x)) == x
{
    reveal(cell);
    let r = x / I; let c = cell(D, I, x);
    assert(O * (D * I) == (O * D) * I) by (nonlinear_arith);
    lemma_cut(x, O * D, I); lemma_cut(r, O, D);
    assert(r * I == c.o * (D * I) + c.d * I) by (nonlinear_arith) requires r == c.o * D + c.d;
}
pub proof fn lemma_cut(x: int, n: int, m: int)
    requires 0 <= x < n * m, m >= 0
    ensures m > 0, 0 <= x / m < n, 0 <= x % m < m, (x / m) * m + x % m == x
{
    assert(m > 0) by (nonlinear_arith) requires 0 <= x < n * m, m >= 0;
    assert(x == (x / m) * m + x % m && 0 <= x % m < m && x / m >= 0) by (nonlinear_arith) requires m > 0, x >= 0;
    let a = x / m;
    assert(a < n) by (nonlinear_arith) requires a * m <= x, x < n * m, m > 0;
}
pub proof fn lemma_cells(O: int, D: int, I: int)
    requires D >= 0, I >= 0
    ensures forall|x: int| 0 <= x < O * (D * I) ==> in3(O, D, I, #[trigger] cell(D, I, x)) && addr(D, I, cell(D, I, x)) == x
{ assert forall|x: int| 0 <= x < O * (D * I) implies in3(O, D, I, #[trigger] cell(D, I, x)) && addr(D, I, cell(D, I, x)) == x by { lemma_cell(O, D, I, x); } }
pub open spec fn base0(o: int, D: int, I: int, i: int) -> int { o * (D * I) + i }
/// partial products the code forms on the way
pub proof fn lemma_od(o: int, O: int, D: int, I: int, s: Seq<i64>, n: int)
    requires 0 <= o < O, 0 <= n < s.len(), nonneg(s), fits(s), O == outer(s, n), D == s[n], I == inner(s, n)
    ensures 0 <= o * D <= MAXN(), (o * D) * I == o * (D * I), 0 <= D <= MAXN(), 0 <= I <= MAXN()
{
    lemma_fits(s); lemma_pr_last(s, 0, n); assert(0 <= pr(s, 0, n + 1) <= MAXN());
    assert(0 <= o * D && o * D <= O * D) by (nonlinear_arith) requires 0 <= o <= O, D >= 0;
    assert((o * D) * I == o * (D * I)) by (nonlinear_arith);
    lemma_pr_np(s, n + 1, s.len() as int); assert(0 <= pr(s, n + 1, s.len() as int) <= MAXN());
}
