@tu
#include "Operation/OpLinalg.cpp"
#include "Operation/OpLinalgCpu.cpp"
namespace tinytorch::op {
template Tensor im2colOpCpuImpl<float>(const Tensor& self, Dim2D kernel, Dim2D stride, Dim2D padding);
template Tensor col2imOpCpuImpl<float>(const Tensor& self, const IntArrayView shape, Dim2D kernel, Dim2D stride, Dim2D padding);
}
@prelude base float nd tensor
@opt type=tinytorch::Dim2D=>Dim2D
@opt type=Dim2D=>Dim2D
@opt struct=Dim2D
@opt copytype=Dim2D
@raw
#[derive(Clone, Copy)]
pub struct Dim2D { pub h: i64, pub w_: i64 }
/// geometry of one unfolding: batch, channels, height, width, kernel, stride, padding, output extents
pub struct IM { pub n: int, pub c: int, pub h: int, pub w: int, pub kh: int, pub kw: int, pub sh: int, pub sw: int, pub ph: int, pub pw: int, pub oh: int, pub ow: int }
pub open spec fn im(s: Seq<i64>, k: Dim2D, st: Dim2D, p: Dim2D) -> IM {
    let d = if s.len() == 4 { 1int } else { 0 }; let h = s[d + 1] as int; let w = s[d + 2] as int;
    IM { n: if s.len() == 4 { s[0] as int } else { 1 }, c: s[d] as int, h, w, kh: k.h as int, kw: k.w_ as int, sh: st.h as int, sw: st.w_ as int, ph: p.h as int, pw: p.w_ as int,
        oh: (h + 2 * p.h - k.h) / (st.h as int) + 1, ow: (w + 2 * p.w_ - k.w_) / (st.w_ as int) + 1 }
}
/// windows fit, sizes representable
pub open spec fn im_ok(g: IM) -> bool {
    &&& 0 <= g.n <= MAXN() && 0 <= g.c <= MAXN() && 0 <= g.h <= MAXN() && 0 <= g.w <= MAXN()
    &&& 1 <= g.kh <= g.h + 2 * g.ph && 1 <= g.kw <= g.w + 2 * g.pw && 1 <= g.sh <= MAXN() && 1 <= g.sw <= MAXN() && 0 <= g.ph <= MAXN() && 0 <= g.pw <= MAXN()
    &&& g.oh * g.ow <= MAXN() && g.c * g.kh <= MAXN() && (g.c * g.kh) * g.kw <= MAXN() && g.n * (g.oh * g.ow) <= MAXN()
    &&& fits(seq![(g.n * (g.oh * g.ow)) as i64, ((g.c * g.kh) * g.kw) as i64])
}
/// position in the column matrix of (batch, window row, window column, channel, kernel row, kernel column)
pub open spec fn enc(g: IM, b: int, h: int, w: int, c: int, i: int, j: int) -> int
{ ((((b * g.oh + h) * g.ow + w) * g.c + c) * g.kh + i) * g.kw + j }
pub struct D6 { pub b: int, pub h: int, pub w: int, pub c: int, pub i: int, pub j: int }
#[verifier::opaque]
pub open spec fn dec(g: IM, x: int) -> D6 {
    let y = x / g.kw; let z = y / g.kh; let u = z / g.c; let v = u / g.ow;
    D6 { j: x % g.kw, i: y % g.kh, c: z % g.c, w: u % g.ow, h: v % g.oh, b: v / g.oh }
}
/// the element a window reads: zero outside the image
pub open spec fn pix(g: IM, m: Seq<F>, o: int, d: D6) -> F {
    let y = d.h * g.sh - g.ph + d.i; let x = d.w * g.sw - g.pw + d.j;
    if 0 <= y < g.h && 0 <= x < g.w { m[o + ((d.b * g.c + d.c) * g.h) * g.w + y * g.w + x] } else { sf_int(0) }
}
/// already written when the loops stand at (b, c, h, w, i, j)
pub open spec fn before(d: D6, b: int, c: int, h: int, w: int, i: int, j: int) -> bool {
    d.b < b || (d.b == b && (d.c < c || (d.c == c && (d.h < h || (d.h == h && (d.w < w || (d.w == w && (d.i < i || (d.i == i && d.j < j)))))))))
}
pub open spec fn in6(g: IM, d: D6) -> bool { 0 <= d.b < g.n && 0 <= d.h < g.oh && 0 <= d.w < g.ow && 0 <= d.c < g.c && 0 <= d.i < g.kh && 0 <= d.j < g.kw }
pub open spec fn total(g: IM) -> int { ((((g.n * g.oh) * g.ow) * g.c) * g.kh) * g.kw }
/// appending a digit keeps the number below the product
pub proof fn lemma_app(a: int, n: int, r: int, m: int)
    requires 0 <= a < n, 0 <= r < m
    ensures 0 <= a * m + r < n * m, 0 <= a * m, a * m + m <= n * m
{ assert(0 <= a * m && a * m + m <= n * m) by (nonlinear_arith) requires 0 <= a, a + 1 <= n, 0 <= m; }
/// and removing the last digit gives back a number below the product
pub proof fn lemma_rem(x: int, n: int, m: int)
    requires 0 <= x < n * m, m >= 0
    ensures m > 0, 0 <= x / m < n, 0 <= x % m < m, (x / m) * m + x % m == x
{
    assert(m > 0) by (nonlinear_arith) requires 0 <= x < n * m, m >= 0;
    assert(x == (x / m) * m + x % m && 0 <= x % m < m && x / m >= 0) by (nonlinear_arith) requires m > 0, x >= 0;
    let a = x / m;
    assert(a < n) by (nonlinear_arith) requires a * m <= x, x < n * m, m > 0;
}
pub proof fn lemma_enc(g: IM, d: D6)
    requires in6(g, d)
    ensures 0 <= enc(g, d.b, d.h, d.w, d.c, d.i, d.j) < total(g), dec(g, enc(g, d.b, d.h, d.w, d.c, d.i, d.j)) == d
{
    reveal(dec);
    let v = d.b * g.oh + d.h; let u = v * g.ow + d.w; let z = u * g.c + d.c; let y = z * g.kh + d.i; let x = y * g.kw + d.j;
    lemma_app(d.b, g.n, d.h, g.oh); lemma_app(v, g.n * g.oh, d.w, g.ow); lemma_app(u, (g.n * g.oh) * g.ow, d.c, g.c);
    lemma_app(z, ((g.n * g.oh) * g.ow) * g.c, d.i, g.kh); lemma_app(y, (((g.n * g.oh) * g.ow) * g.c) * g.kh, d.j, g.kw);
    lemma_mod_unique(x, g.kw, y, d.j); lemma_mod_unique(y, g.kh, z, d.i); lemma_mod_unique(z, g.c, u, d.c); lemma_mod_unique(u, g.ow, v, d.w); lemma_mod_unique(v, g.oh, d.b, d.h);
}
pub proof fn lemma_dec(g: IM, x: int)
    requires 0 <= x < total(g), g.kw >= 0, g.kh >= 0, g.c >= 0, g.ow >= 0, g.oh >= 0
    ensures in6(g, dec(g, x)), ({ let d = dec(g, x); enc(g, d.b, d.h, d.w, d.c, d.i, d.j) == x })
{
    reveal(dec);
    let y = x / g.kw; let z = y / g.kh; let u = z / g.c; let v = u / g.ow;
    lemma_rem(x, (((g.n * g.oh) * g.ow) * g.c) * g.kh, g.kw); lemma_rem(y, ((g.n * g.oh) * g.ow) * g.c, g.kh); lemma_rem(z, (g.n * g.oh) * g.ow, g.c);
    lemma_rem(u, g.n * g.oh, g.ow); lemma_rem(v, g.n, g.oh);
}
/// the address the code computes is that position
pub proof fn lemma_addr(g: IM, d: D6)
    requires in6(g, d)
    ensures ({ let r = d.b * (g.oh * g.ow) + d.h * g.ow + d.w; let W = (g.c * g.kh) * g.kw;
        &&& r * W + (d.c * g.kh) * g.kw + (d.i * g.kw + d.j) == enc(g, d.b, d.h, d.w, d.c, d.i, d.j)
        &&& 0 <= d.h * g.ow && d.h * g.ow + d.w < g.oh * g.ow && 0 <= d.b * (g.oh * g.ow) && d.b * (g.oh * g.ow) + g.oh * g.ow <= g.n * (g.oh * g.ow)
        &&& 0 <= r * W && r * W + W <= (g.n * (g.oh * g.ow)) * W && 0 <= (d.c * g.kh) * g.kw && 0 <= d.c * g.kh <= g.c * g.kh && (d.c * g.kh) * g.kw + g.kh * g.kw <= W
        &&& 0 <= d.i * g.kw && d.i * g.kw + d.j < g.kh * g.kw
        &&& total(g) == (g.n * (g.oh * g.ow)) * W })
{
    let r = d.b * (g.oh * g.ow) + d.h * g.ow + d.w; let K = g.kh * g.kw; let W = (g.c * g.kh) * g.kw; let v = d.b * g.oh + d.h; let u = v * g.ow + d.w;
    lemma_app(d.h, g.oh, d.w, g.ow); lemma_app(d.b, g.n, d.h * g.ow + d.w, g.oh * g.ow); 
    assert(W == g.c * K) by (nonlinear_arith) requires W == (g.c * g.kh) * g.kw, K == g.kh * g.kw;
    assert((d.c * g.kh) * g.kw == d.c * K) by (nonlinear_arith) requires K == g.kh * g.kw;
    assert(0 <= d.c * g.kh <= g.c * g.kh) by (nonlinear_arith) requires 0 <= d.c <= g.c, g.kh >= 0;
    lemma_app(d.i, g.kh, d.j, g.kw);
    lemma_app(d.c, g.c, d.i * g.kw + d.j, K);
    lemma_app(r, g.n * (g.oh * g.ow), d.c * K + (d.i * g.kw + d.j), W);
    assert(u == r) by (nonlinear_arith) requires u == (d.b * g.oh + d.h) * g.ow + d.w, r == d.b * (g.oh * g.ow) + d.h * g.ow + d.w;
    let z = u * g.c + d.c; let y = z * g.kh + d.i;
    assert(y * g.kw == z * K + d.i * g.kw) by (nonlinear_arith) requires y == z * g.kh + d.i, K == g.kh * g.kw;
    assert(z * K == r * W + d.c * K) by (nonlinear_arith) requires z == r * g.c + d.c, W == g.c * K;
    assert((g.n * g.oh) * g.ow == g.n * (g.oh * g.ow)) by (nonlinear_arith);
    let N = g.n * (g.oh * g.ow);
    assert(((N * g.c) * g.kh) * g.kw == N * W) by (nonlinear_arith) requires W == (g.c * g.kh) * g.kw;
}
/// sizes of the image and of one image row inside the input
pub proof fn lemma_im(t: Tensor, g: IM)
    requires t.geo(), t.shape.len() == 3 || t.shape.len() == 4, g.n == (if t.shape.len() == 4 { t.shape[0] as int } else { 1 }), ({ let d = t.shape.len() - 3; g.c == t.shape[d] && g.h == t.shape[d + 1] && g.w == t.shape[d + 2] })
    ensures t.numel == (g.n * g.c) * (g.h * g.w), 0 <= g.n * g.c <= MAXN(), 0 <= (g.n * g.c) * g.h <= MAXN(), 0 <= g.h * g.w <= MAXN(), ((g.n * g.c) * g.h) * g.w == t.numel, 0 <= g.n <= MAXN(), 0 <= g.c <= MAXN(), 0 <= g.h <= MAXN(), 0 <= g.w <= MAXN()
{
    lemma_geo(t); let s = t.shape@; let k = s.len() as int; lemma_fits(s);
    assert(pr(s, k, k) == 1 && sp(s, k) == 1); assert(pr(s, 0, 0) == 1);
    lemma_pr_last(s, 0, 0); lemma_pr_last(s, 0, 1); lemma_pr_last(s, 0, 2); if k == 4 { lemma_pr_last(s, 0, 3); }
    assert(1 * s[0] == s[0]);
    assert(0 <= pr(s, 0, 1) <= MAXN() && 0 <= pr(s, 0, 2) <= MAXN() && 0 <= pr(s, 0, 3) <= MAXN() && 0 <= pr(s, k - 2, k) <= MAXN());
    assert(pr(s, k - 2, k) == s[k - 2] * pr(s, k - 1, k)); assert(pr(s, k - 1, k) == s[k - 1] * pr(s, k, k)); assert(s[k - 1] * 1 == s[k - 1]);
    assert(1 * g.c == g.c);
    assert(((g.n * g.c) * g.h) * g.w == (g.n * g.c) * (g.h * g.w)) by (nonlinear_arith);
}
@fn im2col = tinytorch::op::im2colOpCpuImpl<float>
@assume_asserts
@req
self_.wf(*old(w)), self_.dt == 0, self_.shape.len() == 3 || self_.shape.len() == 4 ==> im_ok(im(self_.shape@, kernel, stride, padding)),
@ens
self_.shape.len() == 3 || self_.shape.len() == 4,
res.wf(*final(w)), keeps(*old(w), *final(w)),
({ let g = im(self_.shape@, kernel, stride, padding);
 res.shape@ == seq![(g.n * (g.oh * g.ow)) as i64, ((g.c * g.kh) * g.kw) as i64]
 && forall|x: int| 0 <= x < res.numel ==> res.at(*final(w), x) == pix(g, old(w).f@[self_.blk], self_.off as int, #[trigger] dec(g, x)) }),
@at entry
let ghost g = im(self_.shape@, kernel, stride, padding);
let ghost W = (g.c * g.kh) * g.kw;
let ghost m0 = old(w).f@[self_.blk];
let ghost so = self_.off as int;
lemma_geo(*self_);
@at before /let te_/
lemma_im(*self_, g); lemma_out(g);
assert(Seq::<i64>::empty().push((g.n * (g.oh * g.ow)) as i64).push(W as i64) =~= seq![(g.n * (g.oh * g.ow)) as i64, W as i64]);
@at loop0.before
lemma_two((g.n * (g.oh * g.ow)) as i64, W as i64);
lemma_tot(g);
assert forall|x: int| 0 <= x < total(g) implies in6(g, #[trigger] dec(g, x)) by { lemma_dec(g, x); }
@loop 0
frame1(*old(w), *w, ret.blk), w.f@[ret.blk].len() == ret.numel,
forall|x: int| 0 <= x < total(g) && before(dec(g, x), b as int, 0, 0, 0, 0, 0) ==> #[trigger] w.f@[ret.blk][x] == pix(g, m0, so, dec(g, x)),
@loop 1
frame1(*old(w), *w, ret.blk), w.f@[ret.blk].len() == ret.numel,
forall|x: int| 0 <= x < total(g) && before(dec(g, x), b as int, c as int, 0, 0, 0, 0) ==> #[trigger] w.f@[ret.blk][x] == pix(g, m0, so, dec(g, x)),
@at loop1.begin
lemma_app(b as int, g.n, c as int, g.c); lemma_row(b * g.c + c, g.n * g.c, g.h * g.w);
lemma_row(b * g.c + c, g.n * g.c, g.h);
assert(((b * g.c + c) * g.h) * g.w == (b * g.c + c) * (g.h * g.w)) by (nonlinear_arith);
@loop 2
frame1(*old(w), *w, ret.blk), w.f@[ret.blk].len() == ret.numel,
forall|x: int| 0 <= x < total(g) && before(dec(g, x), b as int, c as int, h as int, 0, 0, 0) ==> #[trigger] w.f@[ret.blk][x] == pix(g, m0, so, dec(g, x)),
@loop 3
frame1(*old(w), *w, ret.blk), w.f@[ret.blk].len() == ret.numel,
forall|x: int| 0 <= x < total(g) && before(dec(g, x), b as int, c as int, h as int, w_ as int, 0, 0) ==> #[trigger] w.f@[ret.blk][x] == pix(g, m0, so, dec(g, x)),
@at loop3.begin
lemma_addr(g, D6 { b: b as int, h: h as int, w: w_ as int, c: c as int, i: 0, j: 0 });
lemma_win(g.oh, g.h, g.kh, g.sh, g.ph, h as int); lemma_win(g.ow, g.w, g.kw, g.sw, g.pw, w_ as int);
@loop 4
frame1(*old(w), *w, ret.blk), w.f@[ret.blk].len() == ret.numel,
forall|x: int| 0 <= x < total(g) && before(dec(g, x), b as int, c as int, h as int, w_ as int, i as int, 0) ==> #[trigger] w.f@[ret.blk][x] == pix(g, m0, so, dec(g, x)),
@loop 5
frame1(*old(w), *w, ret.blk), w.f@[ret.blk].len() == ret.numel,
forall|x: int| 0 <= x < total(g) && before(dec(g, x), b as int, c as int, h as int, w_ as int, i as int, j as int) ==> #[trigger] w.f@[ret.blk][x] == pix(g, m0, so, dec(g, x)),
@at loop5.begin
let ghost d = D6 { b: b as int, h: h as int, w: w_ as int, c: c as int, i: i as int, j: j as int };
let ghost x0 = enc(g, b as int, h as int, w_ as int, c as int, i as int, j as int);
lemma_addr(g, d); lemma_enc(g, d);
let ghost y = hStride + i; let ghost xx = wStride + j;
assert(0 <= y < g.h && 0 <= xx < g.w ==> 0 <= y * g.w && y * g.w + xx < g.h * g.w) by { if 0 <= y < g.h && 0 <= xx < g.w { lemma_app(y, g.h, xx, g.w); } }
assert forall|x: int| 0 <= x < total(g) && x != x0 implies #[trigger] dec(g, x) != d by { lemma_dec(g, x); }
@at exit
assert(ret.numel == total(g));
@raw
/// windows start inside the padded image
pub proof fn lemma_win(oh: int, h: int, kh: int, sh: int, ph: int, y: int)
    requires oh == (h + 2 * ph - kh) / sh + 1, sh >= 1, h + 2 * ph - kh >= 0, 0 <= y < oh
    ensures 0 <= y * sh <= h + 2 * ph - kh
{
    let q = (h + 2 * ph - kh) / sh;
    assert(0 <= y * sh && y * sh <= q * sh) by (nonlinear_arith) requires 0 <= y <= q, sh >= 1;
    assert(q * sh <= h + 2 * ph - kh) by (nonlinear_arith) requires q == (h + 2 * ph - kh) / sh, sh >= 1, h + 2 * ph - kh >= 0;
}
pub proof fn lemma_out(g: IM)
    requires im_ok(g), g.oh == (g.h + 2 * g.ph - g.kh) / g.sh + 1, g.ow == (g.w + 2 * g.pw - g.kw) / g.sw + 1
    ensures 1 <= g.oh <= 4 * MAXN(), 1 <= g.ow <= 4 * MAXN(), 0 <= g.oh * g.ow, 0 <= g.n * (g.oh * g.ow), 0 <= g.c * g.kh, 0 <= (g.c * g.kh) * g.kw
{
    assert(0 <= (g.h + 2 * g.ph - g.kh) / g.sh <= g.h + 2 * g.ph - g.kh) by (nonlinear_arith) requires g.sh >= 1, g.h + 2 * g.ph - g.kh >= 0;
    assert(0 <= (g.w + 2 * g.pw - g.kw) / g.sw <= g.w + 2 * g.pw - g.kw) by (nonlinear_arith) requires g.sw >= 1, g.w + 2 * g.pw - g.kw >= 0;
    assert(0 <= g.oh * g.ow) by (nonlinear_arith) requires g.oh >= 0, g.ow >= 0;
    assert(0 <= g.n * (g.oh * g.ow)) by (nonlinear_arith) requires g.n >= 0, g.oh * g.ow >= 0;
    assert(0 <= g.c * g.kh) by (nonlinear_arith) requires g.c >= 0, g.kh >= 0;
    assert(0 <= (g.c * g.kh) * g.kw) by (nonlinear_arith) requires g.c * g.kh >= 0, g.kw >= 0;
}
pub proof fn lemma_two(a: i64, b: i64)
    ensures sp(seq![a, b], 0) == a * b
{ let s = seq![a, b]; assert(sp(s, 2) == 1); assert(sp(s, 1) == s[1] * sp(s, 2)); assert(sp(s, 0) == s[0] * sp(s, 1)); assert(b * 1 == b); }
pub proof fn lemma_tot(g: IM)
    ensures total(g) == (g.n * (g.oh * g.ow)) * ((g.c * g.kh) * g.kw)
{
    assert((g.n * g.oh) * g.ow == g.n * (g.oh * g.ow)) by (nonlinear_arith);
    let N = g.n * (g.oh * g.ow); let W = (g.c * g.kh) * g.kw;
    assert(((N * g.c) * g.kh) * g.kw == N * W) by (nonlinear_arith) requires W == (g.c * g.kh) * g.kw;
}
@raw
/// position of an image element
pub struct D4 { pub b: int, pub c: int, pub y: int, pub x: int }
#[verifier::opaque]
pub open spec fn ipos(g: IM, p: int) -> D4 { let r = p / g.w; let q = r / g.h; D4 { x: p % g.w, y: r % g.h, c: q % g.c, b: q / g.c } }
pub open spec fn ienc(g: IM, d: D4) -> int { ((d.b * g.c + d.c) * g.h) * g.w + d.y * g.w + d.x }
pub open spec fn in4(g: IM, d: D4) -> bool { 0 <= d.b < g.n && 0 <= d.c < g.c && 0 <= d.y < g.h && 0 <= d.x < g.w }
pub open spec fn itotal(g: IM) -> int { ((g.n * g.c) * g.h) * g.w }
pub proof fn lemma_ienc(g: IM, d: D4)
    requires in4(g, d)
    ensures 0 <= ienc(g, d) < itotal(g), ipos(g, ienc(g, d)) == d, 0 <= d.y * g.w
{
    reveal(ipos);
    let q = d.b * g.c + d.c; let r = q * g.h + d.y; let p = r * g.w + d.x;
    lemma_app(d.b, g.n, d.c, g.c); lemma_app(q, g.n * g.c, d.y, g.h); lemma_app(r, (g.n * g.c) * g.h, d.x, g.w); lemma_app(d.y, g.h, d.x, g.w);
    lemma_mod_unique(p, g.w, r, d.x); lemma_mod_unique(r, g.h, q, d.y); lemma_mod_unique(q, g.c, d.b, d.c);
    assert(r * g.w == (q * g.h) * g.w + d.y * g.w) by (nonlinear_arith) requires r == q * g.h + d.y;
}
pub proof fn lemma_ipos(g: IM, p: int)
    requires 0 <= p < itotal(g), g.w >= 0, g.h >= 0, g.c >= 0
    ensures in4(g, ipos(g, p)), ienc(g, ipos(g, p)) == p
{
    reveal(ipos);
    let r = p / g.w; let q = r / g.h; let d = ipos(g, p);
    lemma_rem(p, (g.n * g.c) * g.h, g.w); lemma_rem(r, g.n * g.c, g.h); lemma_rem(q, g.n, g.c);
    assert(r * g.w == (q * g.h) * g.w + d.y * g.w) by (nonlinear_arith) requires r == q * g.h + d.y;
}
/// does window (h, w) cover the element
pub open spec fn hit(g: IM, d: D4, h: int, w: int) -> bool { 0 <= d.y + g.ph - h * g.sh < g.kh && 0 <= d.x + g.pw - w * g.sw < g.kw }
/// sum, over the windows before (h, w) that cover the element, of the column entries for it
pub open spec fn foldw(g: IM, m: Seq<F>, o: int, d: D4, h: int, w: int) -> F decreases h, w
{
    if h < 0 || w < 0 { sf_int(0) }
    else if w > 0 { let u = w - 1; let z = foldw(g, m, o, d, h, u);
        if hit(g, d, h, u) { sf_add(z, m[o + enc(g, d.b, h, u, d.c, d.y + g.ph - h * g.sh, d.x + g.pw - u * g.sw)]) } else { z } }
    else if h > 0 { foldw(g, m, o, d, h - 1, g.ow) }
    else { sf_int(0) }
}
pub open spec fn upto(g: IM, m: Seq<F>, o: int, d: D4, b: int, c: int, h: int, w: int, i: int, j: int) -> F {
    if d.b < b || (d.b == b && d.c < c) { foldw(g, m, o, d, g.oh, 0) }
    else if d.b == b && d.c == c {
        let a = d.y + g.ph - h * g.sh; let e = d.x + g.pw - w * g.sw;
        if hit(g, d, h, w) && (a < i || (a == i && e < j)) { foldw(g, m, o, d, h, w + 1) } else { foldw(g, m, o, d, h, w) }
    } else { sf_int(0) }
}
@fn col2im = tinytorch::op::col2imOpCpuImpl<float>
@assume_asserts
@req
self_.wf(*old(w)), self_.dt == 0, shape.len() <= 8, nonneg(shape@), fits(shape@),
shape.len() == 3 || shape.len() == 4 ==> ({ let g = im(shape@, kernel, stride, padding); im_ok(g) && self_.numel == total(g) }),
@ens
shape.len() == 3 || shape.len() == 4,
res.wf(*final(w)), keeps(*old(w), *final(w)), res.shape@ == shape@,
({ let g = im(shape@, kernel, stride, padding);
 forall|p: int| 0 <= p < res.numel ==> res.at(*final(w), p) == foldw(g, old(w).f@[self_.blk], self_.off as int, #[trigger] ipos(g, p), g.oh, 0) }),
@at entry
let ghost g = im(shape@, kernel, stride, padding);
let ghost W = (g.c * g.kh) * g.kw;
let ghost m0 = old(w).f@[self_.blk];
let ghost so = self_.off as int;
lemma_geo(*self_);
@at before /tensor_zeros/
lemma_fits(shape@);
assert(0 <= shape[0] <= MAXN() && 0 <= shape[1] <= MAXN() && 0 <= shape[2] <= MAXN() && 0 <= shape[shape.len() - 1] <= MAXN());
lemma_out(g);
@at loop0.before
lemma_im(ret, g);
lemma_tot(g);
assert(itotal(g) == ret.numel);
assert forall|p: int| 0 <= p < itotal(g) implies in4(g, #[trigger] ipos(g, p)) by { lemma_ipos(g, p); }
@loop 0
frame1(*old(w), *w, ret.blk), w.f@[ret.blk].len() == ret.numel,
forall|p: int| 0 <= p < itotal(g) ==> #[trigger] w.f@[ret.blk][p] == upto(g, m0, so, ipos(g, p), b as int, 0, 0, 0, 0, 0),
@loop 1
frame1(*old(w), *w, ret.blk), w.f@[ret.blk].len() == ret.numel,
forall|p: int| 0 <= p < itotal(g) ==> #[trigger] w.f@[ret.blk][p] == upto(g, m0, so, ipos(g, p), b as int, c as int, 0, 0, 0, 0),
@at loop1.begin
lemma_app(b as int, g.n, c as int, g.c); lemma_row(b * g.c + c, g.n * g.c, g.h * g.w);
lemma_row(b * g.c + c, g.n * g.c, g.h);
assert(((b * g.c + c) * g.h) * g.w == (b * g.c + c) * (g.h * g.w)) by (nonlinear_arith);
@loop 2
frame1(*old(w), *w, ret.blk), w.f@[ret.blk].len() == ret.numel,
forall|p: int| 0 <= p < itotal(g) ==> #[trigger] w.f@[ret.blk][p] == upto(g, m0, so, ipos(g, p), b as int, c as int, h as int, 0, 0, 0),
@loop 3
frame1(*old(w), *w, ret.blk), w.f@[ret.blk].len() == ret.numel,
forall|p: int| 0 <= p < itotal(g) ==> #[trigger] w.f@[ret.blk][p] == upto(g, m0, so, ipos(g, p), b as int, c as int, h as int, w_ as int, 0, 0),
@at loop3.begin
lemma_addr(g, D6 { b: b as int, h: h as int, w: w_ as int, c: c as int, i: 0, j: 0 });
lemma_win(g.oh, g.h, g.kh, g.sh, g.ph, h as int); lemma_win(g.ow, g.w, g.kw, g.sw, g.pw, w_ as int);
@loop 4
frame1(*old(w), *w, ret.blk), w.f@[ret.blk].len() == ret.numel,
forall|p: int| 0 <= p < itotal(g) ==> #[trigger] w.f@[ret.blk][p] == upto(g, m0, so, ipos(g, p), b as int, c as int, h as int, w_ as int, i as int, 0),
@loop 5
frame1(*old(w), *w, ret.blk), w.f@[ret.blk].len() == ret.numel,
forall|p: int| 0 <= p < itotal(g) ==> #[trigger] w.f@[ret.blk][p] == upto(g, m0, so, ipos(g, p), b as int, c as int, h as int, w_ as int, i as int, j as int),
@at loop5.begin
let ghost d = D6 { b: b as int, h: h as int, w: w_ as int, c: c as int, i: i as int, j: j as int };
lemma_addr(g, d); lemma_enc(g, d);
let ghost y = hStride + i; let ghost xx = wStride + j;
let ghost e = D4 { b: b as int, c: c as int, y: y as int, x: xx as int };
let ghost p0 = ienc(g, e);
assert(0 <= y < g.h && 0 <= xx < g.w ==> in4(g, e) && 0 <= p0 < itotal(g) && ipos(g, p0) == e && 0 <= y * g.w && y * g.w + xx < g.h * g.w) by { if 0 <= y < g.h && 0 <= xx < g.w { lemma_ienc(g, e); lemma_app(y as int, g.h, xx as int, g.w); } }
assert forall|p: int| 0 <= p < itotal(g) && p != p0 implies #[trigger] ipos(g, p) != e by { lemma_ipos(g, p); }
