// C10: normalisation, softmax, rotary embedding, dropout, against double-precision formulas; other rows poisoned with NaN
#include "common.h"
#include "Modules.h"
#include "Utils/RandomGenerator.h"
using namespace H;

static Nd softmaxRef(const Nd& a, int64_t dim, bool lg) {
  Nd r(a.s); VI red = a.s; red[dim] = 1;
  each(red, [&](const VI& c0) {
    VI c = c0; double mx = -INFINITY, s = 0;
    for (c[dim] = 0; c[dim] < a.s[dim]; c[dim]++) mx = std::max(mx, a.at(c));
    for (c[dim] = 0; c[dim] < a.s[dim]; c[dim]++) s += std::exp(a.at(c) - mx);
    for (c[dim] = 0; c[dim] < a.s[dim]; c[dim]++) r.at(c) = lg ? a.at(c) - mx - std::log(s) : std::exp(a.at(c) - mx) / s;
  });
  return r;
}
static Nd fvals(const VI& s, Rng& r, float lo, float hi) { Nd a(s); for (auto& x : a.v) x = (double)r.f(lo, hi); return a; }
static std::vector<VI> shapesFor(Rng& r) {
  std::vector<VI> l = {{1}, {2}, {5}, {17}, {1, 1}, {2, 3}, {3, 2}, {1, 4}, {4, 1}, {7, 9}, {2, 3, 4}, {3, 1, 2}, {1, 3, 1}, {2, 2, 2, 2}, {3, 2, 4, 5}, {2, 1, 3, 2, 2}, {2, 0}, {0, 3}, {2, 33}, {33, 2}};
  for (int k = 0; k < (thorough() ? 60 : 12); k++) { VI s; int d = (int)r.in(1, 5); for (int i = 0; i < d; i++) s.push_back(r.in(1, 6)); l.push_back(s); }
  return l;
}
static void softmaxGroup(bool lg) {
  Rng r(seed() + lg);
  const char* key = lg ? "logSoftmax" : "softmax";
  for (auto& s : shapesFor(r)) for (int64_t d = -(int64_t)s.size(); d < (int64_t)s.size(); d++) for (int mode = 0; mode < 4; mode++) {
    int64_t dim = d < 0 ? d + (int64_t)s.size() : d;
    float off = mode == 1 ? 900.f : mode == 2 ? -5000.f : 0.f, w = mode == 3 ? 80.f : 4.f;
    Nd a = fvals(s, r, off - w, off + w);
    for (auto& x : a.v) x = (double)(float)x;
    Nd e = softmaxRef(a, dim, lg);
    input("%s of shape %s along %lld, values around %g +- %g", key, str(s).c_str(), (long long)d, off, w);
    Tensor t = mk(a);
    double rt = lg ? 2e-5 : 1e-4, at = lg ? 2e-4 : 1e-6;
    if (lg && mode == 3) at = 1e-3;
    if (mode == 2 && lg) at = 2e-3;
    eq(key, lg ? function::logSoftmax(t, d) : function::softmax(t, d), e, rt, at);
    eq(key, lg ? op::logSoftmax(t, d) : op::softmax(t, d), e, rt, at);
    unchanged(key, t, a);
    if (!lg) {
      Nd g = rd(op::softmax(t, d)); VI red = s; red[dim] = 1;
      each(red, [&](const VI& c0) { VI c = c0; double q = 0; for (c[dim] = 0; c[dim] < s[dim]; c[dim]++) { double v = g.at(c); CHECK(key, v >= 0, "negative probability %g", v); q += v; }
        if (s[dim]) CHECK(key, std::fabs(q - 1) < 1e-4, "row sums to %.9g", q); });
    }
    // into another tensor, into a tensor sharing storage, into itself
    Tensor o = mk(Nd(s, 7));
    Tensor keep = o.clone(); Nd k0 = rd(keep);
    lg ? op::logSoftmaxOut(o, t, d) : op::softmaxOut(o, t, d); eq(key, o, e, rt, at); unchanged(key, t, a); unchanged(key, keep, k0);
    Tensor x = mk(a);
    lg ? op::logSoftmaxOut(x, x, d) : op::softmaxOut(x, x, d); eq(key, x, e, rt, at);
    Tensor y = mk(a), z = y.clone();
    lg ? op::logSoftmaxOut(z, y, d) : op::softmaxOut(z, y, d); eq(key, z, e, rt, at); unchanged(key, y, a);
    // modules
    if (lg) { nn::LogSoftmax m(d); eq(key, m(t), e, rt, at); } else { nn::Softmax m(d); eq(key, m(t), e, rt, at); }
    // a view into a larger tensor
    if (s.size() > 0 && prod(s) > 0) {
      VI b = s; b.insert(b.begin(), 3); Nd ab(b, 1e30); std::copy(a.v.begin(), a.v.end(), ab.v.begin() + prod(s));
      Tensor big = mk(ab); Tensor v = op::index(big, IntArrayView{1});
      eq(key, lg ? op::logSoftmax(v, d) : op::softmax(v, d), e, rt, at);
    }
    // rows are independent: a row of NaN changes no other row
    if (prod(s) > s[dim] && s[dim] > 0) {
      VI red = s; red[dim] = 1; int64_t row = r.in(0, prod(red) - 1); VI c = unravel(red, row); Nd p = a, ep = e;
      for (c[dim] = 0; c[dim] < s[dim]; c[dim]++) { p.at(c) = NAN; ep.at(c) = NAN; }
      Nd g = rd(lg ? op::logSoftmax(mk(p), d) : op::softmax(mk(p), d));
      for (int64_t i = 0; i < g.n(); i++) if (!std::isnan(ep.v[i])) CHECK(key, close(g.v[i], ep.v[i], rt, at), "element %s is %.9g, expected %.9g, when another row (%lld) holds NaN", str(unravel(s, i)).c_str(), g.v[i], ep.v[i], (long long)row);
    }
  }
  // -infinity entries have probability zero; 16-bit types
  for (int rep = 0; rep < 20; rep++) {
    VI s = {r.in(1, 3), r.in(2, 6)}; Nd a = fvals(s, r, -3, 3);
    for (int64_t i = 0; i < s[0]; i++) for (int64_t j = 0; j + 1 < s[1]; j++) if (r.coin()) a.at({i, j}) = -INFINITY;
    input("%s of %s with -inf entries %s", key, str(s).c_str(), strv(a.v).c_str());
    eq(key, lg ? op::logSoftmax(mk(a), -1) : op::softmax(mk(a), -1), softmaxRef(a, 1, lg), 1e-4, 1e-5);
    for (auto dt : {DType::Float16, DType::BFloat16}) {
      Nd b = fvals(s, r, -2, 2); Tensor t = mk(b, dt); b = rd(t);
      input("%s of 16-bit %s", key, strv(b.v).c_str());
      Tensor o = lg ? op::logSoftmax(t, 1) : op::softmax(t, 1);
      CHECK(key, o.dtype() == dt, "element type");
      eq(key, o, softmaxRef(b, 1, lg), dt == DType::Float16 ? 0.01 : 0.06, dt == DType::Float16 ? 0.01 : 0.06);
    }
  }
  Tensor t = mk(fvals({2, 3}, r, 0, 1));
  for (int64_t d : {2, -3, 5}) { input("%s along %lld of a 2-D tensor", key, (long long)d); CHECK(key, rejects([&] { op::softmax(t, d); }), "an out-of-range dimension was accepted"); }
}
GROUP(softmax) { softmaxGroup(false); }
GROUP(log_softmax) { softmaxGroup(true); }

static Nd normRef(const Nd& a, const Nd* w, const Nd* b, double eps, bool layer) {
  Nd r(a.s); int64_t D = a.s.back(), R = a.n() / D;
  for (int64_t i = 0; i < R; i++) {
    double m = 0, q = 0;
    if (layer) { for (int64_t j = 0; j < D; j++) m += a.v[i * D + j]; m /= (double)D; }
    for (int64_t j = 0; j < D; j++) q += (a.v[i * D + j] - m) * (a.v[i * D + j] - m);
    q /= (double)D;
    for (int64_t j = 0; j < D; j++) { double x = (a.v[i * D + j] - m) / std::sqrt(q + eps); if (w) x *= w->v[j]; if (b) x += b->v[j]; r.v[i * D + j] = x; }
  }
  return r;
}
static void normGroup(bool layer) {
  const char* key = layer ? "layerNorm" : "rmsNorm";
  Rng r(seed() + 10 + layer);
  for (auto& s : shapesFor(r)) {
    if (s.back() == 0) continue;
    for (int var = 0; var < 4; var++) for (double eps : {1e-5, 1e-8, 0.5}) {
      if (!layer && (var & 2)) continue;
      Nd a = fvals(s, r, -3, 3); if (s.back() > 1) for (int64_t i = 0; i < a.n(); i += s.back()) { a.v[i] = -2 - (double)r.f(0, 1); a.v[i + 1] = 1.5 + (double)r.f(0, 1); a.v[i] = (double)(float)a.v[i]; a.v[i + 1] = (double)(float)a.v[i + 1]; }
      Nd w = fvals({s.back()}, r, -2, 2), b = fvals({s.back()}, r, -2, 2);
      if (!layer) for (auto& x : a.v) if (std::fabs(x) < 0.1) x = 0.5;
      const Nd* wp = var & 1 ? &w : nullptr; const Nd* bp = var & 2 ? &b : nullptr;
      input("%s of shape %s, weight %d, bias %d, eps %g", key, str(s).c_str(), var & 1, var >> 1, eps);
      double at = s.back() == 1 && layer ? 1e-3 : 2e-4;
      Nd e = normRef(a, wp, bp, (double)(float)eps, layer);
      Tensor t = mk(a), wt = wp ? mk(w) : Tensor(), bt = bp ? mk(b) : Tensor();
      VI nsv{s.back()}; auto ns = av(nsv);
      eq(key, layer ? op::layerNorm(t, ns, wt, bt, (float)eps) : op::rmsNorm(t, ns, wt, (float)eps), e, 2e-4, at);
      eq(key, layer ? function::layerNorm(t, ns, wt, bt, (float)eps) : function::rmsNorm(t, ns, wt, (float)eps), e, 2e-4, at);
      unchanged(key, t, a); if (wp) unchanged(key, wt, w); if (bp) unchanged(key, bt, b);
      if (layer && var == 3) { nn::LayerNorm m(ns, (float)eps); m.weight().copy_(wt); m.bias().copy_(bt); eq(key, m(t), e, 2e-4, at); }
      if (layer && var == 1) { nn::LayerNorm m(ns, (float)eps, false); m.weight().copy_(wt); eq(key, m(t), e, 2e-4, at); }
      if (!layer && var == 1) { nn::RMSNorm m(ns, (float)eps); m.weight().copy_(wt); eq(key, m(t), e, 2e-4, at); m.resetParameters(); eq(key, m(t), normRef(a, nullptr, nullptr, (double)(float)eps, layer), 2e-4, at); }
      int64_t R = a.n() / s.back();
      if (R > 1) {
        int64_t row = r.in(0, R - 1); Nd p = a; for (int64_t j = 0; j < s.back(); j++) p.v[row * s.back() + j] = NAN;
        Nd g = rd(layer ? op::layerNorm(mk(p), ns, wt, bt, (float)eps) : op::rmsNorm(mk(p), ns, wt, (float)eps));
        for (int64_t i = 0; i < g.n(); i++) if (i / s.back() != row) CHECK(key, close(g.v[i], e.v[i], 2e-4, at), "element %s is %.9g, expected %.9g, when row %lld holds NaN", str(unravel(s, i)).c_str(), g.v[i], e.v[i], (long long)row);
      }
    }
    for (auto dt : {DType::Float16, DType::BFloat16}) {
      if (s.back() < 2 || s.back() > 6) continue;
      Nd a = fvals(s, r, 0.5, 2); for (int64_t i = 0; i < a.n(); i += s.back()) { a.v[i] = -2; }
      Tensor t = mk(a, dt); a = rd(t); VI nsv{s.back()};
      input("%s of 16-bit type, shape %s, values %s", key, str(s).c_str(), strv(a.v).c_str());
      double tol = dt == DType::Float16 ? 0.02 : 0.12;
      Tensor o = layer ? op::layerNorm(t, av(nsv), Tensor(), Tensor(), 1e-5f) : op::rmsNorm(t, av(nsv), Tensor(), 1e-5f);
      CHECK(key, o.dtype() == dt, "element type"); eq(key, o, normRef(a, nullptr, nullptr, 1e-5, layer), tol, tol);
    }
  }
}
GROUP(layer_norm) { normGroup(true); }
GROUP(rms_norm) { normGroup(false); }
GROUP(norm_eps_small_values) {
  // eps matters: tiny rows, and a constant row
  Rng r(seed());
  for (double sc : {1e-2, 1e-3}) for (int layer = 0; layer < 2; layer++) {
    Nd a({2, 4}, 0); for (auto& x : a.v) x = (double)r.f(-1, 1) * sc; for (auto& x : a.v) x = (double)(float)x; VI nsv{4};
    input("%s of small values %s", layer ? "layerNorm" : "rmsNorm", strv(a.v).c_str());
    eq("norm.eps", layer ? op::layerNorm(mk(a), av(nsv), Tensor(), Tensor(), 1e-5f) : op::rmsNorm(mk(a), av(nsv), Tensor(), 1e-5f), normRef(a, 0, 0, 1e-5, layer), 2e-3, 1e-5);
  }
  VI nsv{3};
  input("layerNorm of a constant row"); eq("norm.eps", op::layerNorm(mk(Nd({2, 3}, 5)), av(nsv), Tensor(), Tensor(), 1e-5f), Nd({2, 3}, 0), 0, 1e-5);
  nn::LayerNorm m(av(nsv)); m.resetParameters(); Nd a = fvals({2, 3}, r, -1, 1); for (auto& x : a.v) x *= 1e-2; for (auto& x : a.v) x = (double)(float)x;
  input("LayerNorm module with its default eps"); eq("norm.eps", m(mk(a)), normRef(a, 0, 0, 1e-5, true), 2e-3, 1e-5);
}
// ------------------------------------------------------------------ rotary embedding
static std::vector<double> freqs(int64_t D, double theta, const RopeScalingConfig* sc) {
  std::vector<double> f;
  for (int64_t i = 0; i < D / 2; i++) {
    double x = 1 / std::pow(theta, 2.0 * (double)i / (double)D);
    if (sc) {
      double wl = 2 * M_PI / x, L = (double)sc->originalContextLength, lo = L / sc->lowFreqFactor, hi = L / sc->highFreqFactor;
      if (wl > lo) x /= sc->factor;
      else if (wl >= hi) { double sm = (L / wl - sc->lowFreqFactor) / ((double)sc->highFreqFactor - sc->lowFreqFactor); x = (1 - sm) * x / sc->factor + sm * x; }
    }
    f.push_back(x);
  }
  return f;
}
GROUP(rope) {
  Rng r(seed() + 3);
  for (int64_t D : {2, 4, 6, 10, 16, 64}) for (int64_t ctx : {1, 3, 8, 40}) for (double theta : {10000.0, 100.0, 500000.0}) for (int sc = 0; sc < 3; sc++) {
    RopeScalingConfig cfg(sc == 2 ? 2.5f : 8.f, 4.f, 1.f, sc == 2 ? 100 : 8192);
    std::optional<RopeScalingConfig> oc; if (sc) oc = cfg;
    input("rope table headDim %lld, context %lld, theta %g, scaling %d", (long long)D, (long long)ctx, theta, sc);
    Tensor tab = op::ropeInit(D, ctx, (float)theta, oc, Options());
    auto f = freqs(D, theta, sc ? &cfg : nullptr);
    Nd e({ctx, D, 2});
    for (int64_t p = 0; p < ctx; p++) for (int64_t i = 0; i < D; i++) { double a = (double)p * f[(size_t)(i % (D / 2))]; e.at({p, i, 0}) = std::cos(a); e.at({p, i, 1}) = std::sin(a); }
    eq("rope.table", tab, e, 0, 1e-4);
    nn::RoPE m(D, ctx, (float)theta, oc); eq("rope.table", m.cache(), e, 0, 1e-4);
    for (int rep = 0; rep < 2; rep++) {
      int64_t B = r.in(1, 3), Hh = r.in(1, 3), T = r.in(1, std::min<int64_t>(ctx, 6)), off = r.in(0, ctx - T);
      Nd x = fvals({B, Hh, T, D}, r, -2, 2), y({B, Hh, T, D});
      input("rotary embedding of [%lld,%lld,%lld,%lld] at offset %lld of context %lld, theta %g, scaling %d", (long long)B, (long long)Hh, (long long)T, (long long)D, (long long)off, (long long)ctx, theta, sc);
      auto calc = [&](int64_t o) { each(x.s, [&](const VI& c) { int64_t h = D / 2, i = c[3] % h; double a = (double)(o + c[2]) * f[(size_t)i]; VI c1 = c, c2 = c; c1[3] = i; c2[3] = i + h;
        y.at(c) = c[3] < h ? x.at(c1) * std::cos(a) - x.at(c2) * std::sin(a) : x.at(c2) * std::cos(a) + x.at(c1) * std::sin(a); }); };
      calc(off); Tensor t = mk(x);
      eq("rope.apply", function::ropeApply(t, tab, off), y, 1e-4, 5e-4); eq("rope.apply", m.forward(t, off), y, 1e-4, 5e-4); unchanged("rope.apply", t, x);
      calc(0); eq("rope.apply", m.forward(t), y, 1e-4, 5e-4);
      if (B * Hh * T > 1) {
        Nd p = x; int64_t row = r.in(0, B * Hh * T - 1); for (int64_t j = 0; j < D; j++) p.v[row * D + j] = NAN;
        Nd g = rd(function::ropeApply(mk(p), tab, 0)); for (int64_t i = 0; i < g.n(); i++) if (i / D != row) CHECK("rope.apply", close(g.v[i], y.v[i], 1e-4, 5e-4), "element %lld is %g, expected %g, when head position %lld holds NaN", (long long)i, g.v[i], y.v[i], (long long)row);
      }
    }
  }
}
// ------------------------------------------------------------------ dropout
GROUP(dropout) {
  Rng r(seed() + 4); manualSeed(seed());
  for (double p : {0.0, 0.1, 0.25, 0.5, 0.8, 1.0}) for (auto& s : std::vector<VI>{{1}, {7}, {3, 4}, {2, 3, 5}, {20000}, {100, 150}}) {
    Nd a = fvals(s, r, 0.5, 2); Tensor t = mk(a);
    for (int form = 0; form < 3; form++) {
      input("%s of shape %s with drop probability %g", form == 0 ? "dropout" : form == 1 ? "Dropout module" : "op::dropout (keep probability given)", str(s).c_str(), p);
      nn::Dropout m((float)p);
      Tensor o = form == 0 ? function::dropout(t, (float)p, true) : form == 1 ? m(t) : op::dropout(t, 1.f - (float)p);
      Nd g = rd(o); geo("dropout", o); CHECK("dropout", g.s == s, "shape"); int64_t kept = 0;
      for (int64_t i = 0; i < g.n(); i++) { bool z = g.v[i] == 0; if (!z) kept++; CHECK("dropout", z || close(g.v[i], a.v[i] / (1 - p), 1e-5, 0), "element %lld is %.9g; expected 0 or %.9g", (long long)i, g.v[i], a.v[i] / (1 - p)); }
      double n = (double)g.n(), sd = std::sqrt(p * (1 - p) * n);
      CHECK("dropout", std::fabs((double)kept - n * (1 - p)) <= 6.5 * sd + 1e-9, "%lld of %lld elements kept", (long long)kept, (long long)g.n());
      unchanged("dropout", t, a);
    }
    input("dropout in evaluation mode, shape %s, p %g", str(s).c_str(), p);
    eq("dropout.eval", function::dropout(t, (float)p, false), a);
    nn::Dropout m((float)p); m.eval(); Tensor o = m(t); eq("dropout.eval", o, a); o.fill_(9); unchanged("dropout.eval", t, a);
    m.train(); if (p == 1.0) eq("dropout", m(t), Nd(s, 0));
    // given mask
    Nd mask(s); for (auto& x : mask.v) x = r.coin();
    Nd e(s); for (int64_t i = 0; i < e.n(); i++) e.v[i] = p < 1 ? a.v[i] * mask.v[i] / (1 - p) : 0;
    input("dropoutMasked shape %s keep %g", str(s).c_str(), 1 - p); eq("dropoutMasked", op::dropoutMasked(t, mk(mask), 1.f - (float)p), e, 1e-5, 0);
  }
  // gradient uses the same mask
  for (double p : {0.3, 0.5}) {
    Nd a = fvals({400}, r, 1, 2); Tensor t = mk(a, DType::Float32, true); input("gradient of dropout, p %g", p);
    Tensor o = function::dropout(t, (float)p, true); Nd g = rd(o); o.backward(mk(Nd({400}, 1))); Nd d = rd(t.grad());
    for (int64_t i = 0; i < 400; i++) CHECK("dropout.grad", close(d.v[i], g.v[i] / a.v[i], 1e-4, 1e-6), "gradient %g where the output is %g and the input %g", d.v[i], g.v[i], a.v[i]);
  }
  // half precision keeps or drops too
  for (auto dt : {DType::Float16, DType::BFloat16}) { Nd a({50}, 1.5); input("dropout of 16-bit"); Tensor o = op::dropout(mk(a, dt), 0.5f); Nd g = rd(o); for (auto x : g.v) CHECK("dropout", x == 0 || x == 3, "element is %g", x); }
}
// ------------------------------------------------------------------ attention rows
GROUP(attention) {
  Rng r(seed() + 5); manualSeed(seed());
  for (int rep = 0; rep < (thorough() ? 200 : 50); rep++) {
    int64_t B = r.in(1, 2), Hh = r.in(1, 3), L = r.in(1, 5), S = r.in(1, 5), E = r.in(1, 4), V = r.in(1, 4); int mode = (int)r.in(0, 3);
    Nd q = fvals({B, Hh, L, E}, r, -1, 1), k = fvals({B, Hh, S, E}, r, -1, 1), v = fvals({B, Hh, S, V}, r, -2, 2), mask({L, S}), o({B, Hh, L, V});
    bool sc = r.coin(); double scale = sc ? 0.3 : 1 / std::sqrt((double)E);
    for (auto& x : mask.v) x = mode == 2 ? (double)r.coin() : (double)r.f(-1, 1);
    if (mode == 2) for (int64_t i = 0; i < L; i++) mask.at({i, r.in(0, S - 1)}) = 1;
    input("attention B %lld H %lld L %lld S %lld E %lld V %lld mask mode %d scale %g", (long long)B, (long long)Hh, (long long)L, (long long)S, (long long)E, (long long)V, mode, scale);
    for (int64_t b = 0; b < B; b++) for (int64_t h = 0; h < Hh; h++) for (int64_t i = 0; i < L; i++) {
      std::vector<double> w; double sum = 0;
      for (int64_t j = 0; j < S; j++) { double d = 0; for (int64_t e = 0; e < E; e++) d += q.at({b, h, i, e}) * k.at({b, h, j, e}); d *= scale;
        bool off = (mode == 1 && j > i) || (mode == 2 && mask.at({i, j}) == 0); if (mode == 3) d += mask.at({i, j}); double x = off ? 0 : std::exp(d); w.push_back(x); sum += x; }
      for (int64_t c = 0; c < V; c++) { double x = 0; for (int64_t j = 0; j < S; j++) x += w[(size_t)j] / sum * v.at({b, h, j, c}); o.at({b, h, i, c}) = x; }
    }
    std::optional<float> so; if (sc) so = 0.3f;
    Tensor tq = mk(q), tk = mk(k), tv = mk(v), tm = mode == 2 ? mk(mask, DType::Bool) : mode == 3 ? mk(mask) : Tensor();
    eq("attention", function::sdpAttention(tq, tk, tv, mode == 1, tm, 0.f, so), o, 1e-4, 1e-4);
    unchanged("attention", tq, q); unchanged("attention", tk, k); unchanged("attention", tv, v); if (mode > 1) unchanged("attention", tm, mask);
    eq("attention", function::sdpAttention(tq, tk, tv, mode == 1, tm, 1.f, so), Nd(o.s, 0), 0, 0);
  }
  // attention dropout drops with its probability: uniform attention over many keys, values one
  int64_t S = 20000; input("attention dropout 0.2 over %lld keys", (long long)S);
  double g = rd(function::sdpAttention(mk(Nd({1, 1, 1, 1}, 1)), mk(Nd({1, 1, S, 1}, 0)), mk(Nd({1, 1, S, 1}, 1)), false, Tensor(), 0.2f)).v[0];
  CHECK("attention.dropout", std::fabs(g - 1) < 0.05, "the mean of the kept weights is %g", g);
  Nd one = Nd({1, 1, S, 1}, 0); // probability of zero rows: independent single-key attentions
  Nd d = rd(function::sdpAttention(mk(Nd({S, 1, 1}, 1)), mk(Nd({S, 1, 1}, 0)), mk(Nd({S, 1, 1}, 1)), false, Tensor(), 0.2f)); double zeros = 0; for (auto x : d.v) zeros += x == 0;
  CHECK("attention.dropout", std::fabs(zeros - 0.2 * (double)S) < 6.5 * std::sqrt(0.16 * (double)S), "%g of %lld weights dropped at probability 0.2", zeros, (long long)S);
}
MAIN
