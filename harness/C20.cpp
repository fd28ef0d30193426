// C20: losses.  Oracle: the per-element / per-sample terms and their reduction in double precision.
#include "common.h"
#include "Module/Loss.h"
static VI bshape(const VI& a, const VI& b) { size_t n = std::max(a.size(), b.size()); VI r(n); for (size_t i = 0; i < n; i++) { int64_t x = i + a.size() < n ? 1 : a[i + a.size() - n], y = i + b.size() < n ? 1 : b[i + b.size() - n]; r[i] = x == 1 ? y : x; } return r; }
static double bat(const Nd& a, const VI& c) { VI q(a.s.size()); for (size_t i = 0; i < q.size(); i++) q[i] = a.s[i] == 1 ? 0 : c[c.size() - q.size() + i]; return a.at(q); }
static const LossReduction RS[] = {LossReduction::NONE, LossReduction::MEAN, LossReduction::SUM};
static const char* RN[] = {"none", "mean", "sum"};
static Nd fold(const Nd& e, LossReduction r) { if (r == LossReduction::NONE) return e; Nd o{VI{}}; o.v[0] = 0; for (double x : e.v) o.v[0] += x; if (r == LossReduction::MEAN) o.v[0] /= (double)e.n(); return o; }
static void mse(const Nd& a, const Nd& b, uint64_t n, bool exact) {
  for (int r = 0; r < 3; r++) {
    input("mseLoss(%s %s, %s %s, %s)", str(a.s).c_str(), strv(a.v).c_str(), str(b.s).c_str(), strv(b.v).c_str(), RN[r]);
    Nd e(bshape(a.s, b.s)); each(e.s, [&](const VI& c) { double d = bat(a, c) - bat(b, c); e.at(c) = d * d; }); e = fold(e, RS[r]);
    Tensor x = n % 3 == 0 && !a.s.empty() ? mkview(a) : mk(a), y = n % 3 == 1 && !b.s.empty() ? mkview(b) : mk(b);
    double t = exact && r != 1 ? 0 : 2e-5; eq("mse", function::mseLoss(x, y, RS[r]), e, t, t); eq("mse-op", op::mseLoss(x, y, RS[r]), e, t, t);
    nn::MSELoss m(RS[r]); eq("mse-module", m(x, y), e, t, t);
    unchanged("mse-input", x, a); unchanged("mse-target", y, b);
  }
}
GROUP(mse_shapes) {
  uint64_t n = 0;
  for (int r = 0; r <= 3; r++) shapes(r, 1, 3, [&](const VI& s) { Rng g(seed() * 3 + ++n); mse(rndi(s, g, -9, 9), rndi(s, g, -9, 9), n, true); });
  std::vector<std::pair<VI, VI>> b = {{{3}, {}}, {{}, {3}}, {{2, 3}, {3}}, {{3}, {2, 3}}, {{2, 1}, {1, 3}}, {{2, 3}, {2, 1}}, {{1, 3}, {2, 1, 3}}, {{2, 3, 2}, {1, 3, 1}}, {{4, 1}, {4, 5}}};
  for (auto& p : b) { Rng g(seed() * 5 + ++n); mse(rndi(p.first, g, -9, 9), rndi(p.second, g, -9, 9), n, true); }
  for (VI s : std::vector<VI>{{37}, {16, 16}, {5, 7, 11}, {257}, {1000}}) { Rng g(seed() * 7 + ++n); mse(rndi(s, g, -9, 9), rndi(s, g, -9, 9), n, true); mse(rnd(s, g), rnd(s, g), n, false); }
}
GROUP(mse_default) { Nd a = iota({4}), b({4}, 1); input("mseLoss default reduction"); Nd e{VI{}}; e.v[0] = 14 / 4.0; eq("mse-default", function::mseLoss(mk(a), mk(b)), e, 1e-6); nn::MSELoss m; Tensor x = mk(a), y = mk(b); eq("mse-default", m(x, y), e, 1e-6); }
static void nll(const Nd& a, const VI& t, uint64_t n, bool exact) {
  for (int r = 0; r < 3; r++) {
    input("nllLoss(%s %s, targets %s, %s)", str(a.s).c_str(), strv(a.v, 60).c_str(), str(t).c_str(), RN[r]);
    Nd e({(int64_t)t.size()}); for (size_t i = 0; i < t.size(); i++) e.v[i] = -a.at({(int64_t)i, t[i]}); e = fold(e, RS[r]);
    Tensor x = n % 3 == 0 ? mkview(a) : mk(a), y = mki(t, {(int64_t)t.size()}); double tl = exact && r != 1 ? 0 : 2e-5;
    eq("nll", function::nllLoss(x, y, RS[r]), e, tl, tl); eq("nll-op", op::nllLoss(x, y, RS[r]), e, tl, tl);
    nn::NLLLoss m(RS[r]); eq("nll-module", m(x, y), e, tl, tl);
    unchanged("nll-input", x, a); CHECK("nll-target", y.toList<int64_t>() == t, "targets changed");
  }
}
GROUP(nll_all_targets) {   // every assignment of targets for small sizes
  uint64_t n = 0;
  for (int64_t b = 1; b <= 4; b++) for (int64_t c = 1; c <= 4; c++) { VI box((size_t)b, c); each(box, [&](const VI& t) { Rng g(seed() * 11 + ++n); Nd a = rndi({b, c}, g, -50, 50); if (n % 2) a = iota({b, c}); nll(a, t, n, true); }); }
}
GROUP(nll_random) {
  for (uint64_t n = 0; n < (thorough() ? 2000u : 150u); n++) { Rng g(seed() * 13 + n); int64_t b = g.in(1, 40), c = g.in(1, 30); VI t; for (int64_t i = 0; i < b; i++) t.push_back(g.in(0, c - 1)); nll(rnd({b, c}, g), t, n, false); }
}
GROUP(nll_default) { Nd a = iota({2, 3}); input("nllLoss default reduction"); Nd e{VI{}}; e.v[0] = -(1 + 6) / 2.0; eq("nll-default", function::nllLoss(mk(a), mki({0, 2}, {2})), e, 1e-6); nn::NLLLoss m; Tensor x = mk(a), y = mki({0, 2}, {2}); eq("nll-default", m(x, y), e, 1e-6); }
GROUP(infinite) { for (int r = 0; r < 3; r++) { Nd a({2, 2}); a.v = {-INFINITY, 0, 1, -INFINITY}; input("nllLoss with infinite scores of other classes, %s", RN[r]); Nd e({2}); e.v = {-0.0, -1}; eq("nll-infinite", function::nllLoss(mk(a), mki({1, 0}, {2}), RS[r]), fold(e, RS[r])); } }
MAIN
