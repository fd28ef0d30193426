// C09: patch extraction, folding back, convolution, max pooling.  Oracle: direct definition of the windows.
#include "common.h"
struct Cfg { int64_t b, c, h, w; Dim2D k{1,1}, s{1,1}, p{0,0}; bool d4; };
static int64_t oh(const Cfg& f) { return (f.h - f.k.h + 2 * f.p.h) / f.s.h + 1; }
static int64_t ow(const Cfg& f) { return (f.w - f.k.w + 2 * f.p.w) / f.s.w + 1; }
static VI ish(const Cfg& f) { return f.d4 ? VI{f.b, f.c, f.h, f.w} : VI{f.c, f.h, f.w}; }
static double px(const Cfg& f, const Nd& a, int64_t b, int64_t c, int64_t y, int64_t x, double pad) { return y < 0 || y >= f.h || x < 0 || x >= f.w ? pad : a.v[(size_t)(((b * f.c + c) * f.h + y) * f.w + x)]; }
static void cfgs(const std::function<void(const Cfg&, uint64_t)>& fn) {
  uint64_t n = 0;
  for (int64_t h : {1, 2, 3, 4, 5}) for (int64_t w : {1, 2, 4, 5}) for (int64_t kh : {1, 2, 3}) for (int64_t kw : {1, 2, 3}) for (int64_t sh_ : {1, 2}) for (int64_t sw : {1, 2, 3}) for (int64_t ph : {0, 1}) for (int64_t pw : {0, 1, 2}) {
    if (h + 2 * ph < kh || w + 2 * pw < kw) continue;
    n++; if (!thorough() && (n * 2654435761u >> 7) % 5) continue;
    Cfg f; f.h = h; f.w = w; f.k = Dim2D(kh, kw); f.s = Dim2D(sh_, sw); f.p = Dim2D(ph, pw); f.b = 1 + (int64_t)(n % 3); f.c = 1 + (int64_t)((n / 3) % 3); f.d4 = n % 4 != 0; if (!f.d4) f.b = 1;
    fn(f, n);
  }
}
static void say(const char* op, const Cfg& f, const Nd& a) { input("%s of shape %s kernel %lldx%lld stride %lldx%lld padding %lldx%lld values %s", op, str(ish(f)).c_str(), (long long)f.k.h, (long long)f.k.w, (long long)f.s.h, (long long)f.s.w, (long long)f.p.h, (long long)f.p.w, strv(a.v, 20).c_str()); }
GROUP(im2col) {
  cfgs([&](const Cfg& f, uint64_t n) {
    Nd a = iota(ish(f)); say("im2col", f, a);
    Nd e({f.b * oh(f) * ow(f), f.c * f.k.h * f.k.w}); size_t q = 0;
    for (int64_t b = 0; b < f.b; b++) for (int64_t y = 0; y < oh(f); y++) for (int64_t x = 0; x < ow(f); x++) for (int64_t c = 0; c < f.c; c++) for (int64_t i = 0; i < f.k.h; i++) for (int64_t j = 0; j < f.k.w; j++)
      e.v[q++] = px(f, a, b, c, y * f.s.h - f.p.h + i, x * f.s.w - f.p.w + j, 0);
    Tensor t = n % 3 ? mk(a) : mkview(a); eq("im2col", op::im2col(t, f.k, f.s, f.p), e); unchanged("im2col-input", t, a);
  });
}
GROUP(col2im) {
  cfgs([&](const Cfg& f, uint64_t n) {
    Nd a = iota({f.b * oh(f) * ow(f), f.c * f.k.h * f.k.w}); say("col2im to", f, a);
    Nd e(ish(f)); size_t q = 0;
    for (int64_t b = 0; b < f.b; b++) for (int64_t y = 0; y < oh(f); y++) for (int64_t x = 0; x < ow(f); x++) for (int64_t c = 0; c < f.c; c++) for (int64_t i = 0; i < f.k.h; i++) for (int64_t j = 0; j < f.k.w; j++) {
      int64_t yy = y * f.s.h - f.p.h + i, xx = x * f.s.w - f.p.w + j; double v = a.v[q++];
      if (yy >= 0 && yy < f.h && xx >= 0 && xx < f.w) e.v[(size_t)(((b * f.c + c) * f.h + yy) * f.w + xx)] += v;
    }
    Tensor t = n % 3 ? mk(a) : mkview(a); eq("col2im", op::col2im(t, av(ish(f)), f.k, f.s, f.p), e); unchanged("col2im-input", t, a);
  });
}
GROUP(conv2d) {
  cfgs([&](const Cfg& f, uint64_t n) {
    if (!f.d4) return;
    Rng g(seed() * 31 + n); int64_t oc = 1 + (int64_t)(n % 3); Nd a = rndi(ish(f), g, -3, 3), w = rndi({oc, f.c, f.k.h, f.k.w}, g, -2, 2), b = rndi({oc}, g, -5, 5); bool hb = n & 1;
    say("conv2d", f, a);
    Nd e({f.b, oc, oh(f), ow(f)});
    each(e.s, [&](const VI& c) { double x = hb ? b.v[(size_t)c[1]] : 0; for (int64_t ch = 0; ch < f.c; ch++) for (int64_t i = 0; i < f.k.h; i++) for (int64_t j = 0; j < f.k.w; j++) x += w.at({c[1], ch, i, j}) * px(f, a, c[0], ch, c[2] * f.s.h - f.p.h + i, c[3] * f.s.w - f.p.w + j, 0); e.at(c) = x; });
    Tensor t = n % 3 ? mk(a) : mkview(a), wt = mk(w);
    eq("conv2d", function::conv2d(t, wt, hb ? mk(b) : Tensor(), f.s, f.p), e); unchanged("conv2d-input", t, a); unchanged("conv2d-weight", wt, w);
  });
}
GROUP(maxpool) {
  cfgs([&](const Cfg& f, uint64_t n) {
    Rng g(seed() * 37 + n); Nd a = n % 2 ? rndi(ish(f), g, -9, -1) : rndi(ish(f), g, -9, 9); if (n % 5 == 0) a = iota(ish(f));
    say("maxPool2d", f, a);
    Nd e(f.d4 ? VI{f.b, f.c, oh(f), ow(f)} : VI{f.c, oh(f), ow(f)}); size_t q = 0; const double I = -std::numeric_limits<double>::infinity();
    for (int64_t b = 0; b < f.b; b++) for (int64_t c = 0; c < f.c; c++) for (int64_t y = 0; y < oh(f); y++) for (int64_t x = 0; x < ow(f); x++) { double m = I; for (int64_t i = 0; i < f.k.h; i++) for (int64_t j = 0; j < f.k.w; j++) m = std::max(m, px(f, a, b, c, y * f.s.h - f.p.h + i, x * f.s.w - f.p.w + j, I)); e.v[q++] = m; }
    bool ok = true; for (double v : e.v) ok = ok && std::isfinite(v); if (!ok) return;   // a window entirely inside the padding has no element
    Tensor t = n % 3 ? mk(a) : mkview(a);
    eq("maxpool", function::maxPool2d(t, f.k, f.s, f.p), e); unchanged("maxpool-input", t, a);
  });
}
GROUP(half) {
  for (DType t : {DType::Float16, DType::BFloat16}) cfgs([&](const Cfg& f, uint64_t n) {
    if (n % 4) return; Nd a = iota(ish(f)); for (auto& x : a.v) x = (double)((int64_t)x % 50); say("16-bit im2col/col2im", f, a);
    Nd e({f.b * oh(f) * ow(f), f.c * f.k.h * f.k.w}); size_t q = 0;
    for (int64_t b = 0; b < f.b; b++) for (int64_t y = 0; y < oh(f); y++) for (int64_t x = 0; x < ow(f); x++) for (int64_t c = 0; c < f.c; c++) for (int64_t i = 0; i < f.k.h; i++) for (int64_t j = 0; j < f.k.w; j++)
      e.v[q++] = px(f, a, b, c, y * f.s.h - f.p.h + i, x * f.s.w - f.p.w + j, 0);
    eq("half-im2col", op::im2col(mk(a, t), f.k, f.s, f.p), e);
  });
}
MAIN
