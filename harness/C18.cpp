// C18: sort, top-k, cumulative sum, multinomial sampling
#include "common.h"
#include "Utils/RandomGenerator.h"
using namespace H;
static std::vector<VI> shapesFor(Rng& r) {
  std::vector<VI> l = {{1}, {2}, {5}, {17}, {64}, {1, 1}, {2, 3}, {3, 2}, {1, 4}, {4, 1}, {7, 9}, {2, 3, 4}, {3, 1, 2}, {1, 3, 1}, {2, 2, 2, 2}, {3, 2, 4, 5}, {2, 1, 3, 2, 2}, {2, 33}, {33, 2}, {3, 40, 2}};
  for (int k = 0; k < (thorough() ? 80 : 20); k++) { VI s; int d = (int)r.in(1, 5); for (int i = 0; i < d; i++) s.push_back(r.in(1, 7)); l.push_back(s); }
  return l;
}
// kind of values: 0 distinct-ish floats, 1 many ties, 2 infinities and signed values
static Nd vals(const VI& s, Rng& r, DType t, int kind) {
  Nd a(s);
  for (auto& x : a.v) {
    if (t == DType::Bool) x = (double)r.coin();
    else if (kind == 1 || t != DType::Float32) x = (double)r.in(-3, kind == 1 ? 2 : 90);
    else x = (double)r.f(-50, 50);
    if (kind == 2 && t == DType::Float32 && r.in(0, 4) == 0) x = r.coin() ? INFINITY : -INFINITY;
    if (kind == 3 && t == DType::Int64) x = (double)(r.in(-4, 4) * (1LL << 40) + r.in(0, 3));
  }
  return a;
}
static const std::vector<DType> DT = {DType::Float32, DType::Int64, DType::Int32, DType::Bool, DType::Float16, DType::BFloat16};
static void slices(const VI& s, int64_t dim, const std::function<void(VI)>& f) { VI red = s; red[dim] = 1; each(red, [&](const VI& c) { f(c); }); }
GROUP(sort) {
  Rng r(seed());
  for (auto& s : shapesFor(r)) for (int64_t d = -(int64_t)s.size(); d < (int64_t)s.size(); d++) for (int desc = 0; desc < 2; desc++) for (auto dt : DT) for (int kind = 0; kind < 4; kind++) {
    if (kind >= 2 && dt != (kind == 2 ? DType::Float32 : DType::Int64)) continue;
    int64_t dim = d < 0 ? d + (int64_t)s.size() : d, n = s[dim];
    Nd a = vals(s, r, dt, kind); Tensor t = mk(a, dt); a = rd(t);
    input("sort of shape %s along %lld, descending %d, type %d, values %s", str(s).c_str(), (long long)d, desc, (int)dt, strv(a.v).c_str());
    for (int form = 0; form < 2; form++) {
      auto p = form ? function::sort(t, d, desc) : op::sort(t, d, desc);
      geo("sort", p.first); geo("sort", p.second); CHECK("sort", shp(p.first) == s && shp(p.second) == s, "shapes %s %s", str(shp(p.first)).c_str(), str(shp(p.second)).c_str());
      CHECK("sort", p.first.dtype() == dt && p.second.dtype() == DType::Int64, "element types");
      Nd v = rd(p.first), ix = rd(p.second);
      slices(s, dim, [&](VI c) {
        VI seen((size_t)n, 0); double prev = 0;
        for (int64_t i = 0; i < n; i++) {
          c[dim] = i; double x = v.at(c); int64_t q = (int64_t)ix.at(c);
          CHECK("sort", q >= 0 && q < n && !seen[(size_t)q], "position %lld at %s is out of range or repeated", (long long)q, str(c).c_str());
          seen[(size_t)q] = 1; VI e = c; e[dim] = q; CHECK("sort", a.at(e) == x, "value %g at %s is not the source element %g at its position %lld", x, str(c).c_str(), a.at(e), (long long)q);
          CHECK("sort", i == 0 || (desc ? prev >= x : prev <= x), "out of order at %s: %g then %g", str(c).c_str(), prev, x); prev = x;
        }
      });
      unchanged("sort", t, a);
    }
  }
  Tensor t = mk(iota({2, 3})); for (int64_t d : {2, -3}) { input("sort along %lld of a 2-D tensor", (long long)d); CHECK("sort", rejects([&] { op::sort(t, d, false); }), "accepted"); }
}
GROUP(topk) {
  Rng r(seed() + 1);
  for (auto& s : shapesFor(r)) for (int64_t d = -(int64_t)s.size(); d < (int64_t)s.size(); d++) for (int64_t k = 1; k <= s[d < 0 ? d + (int64_t)s.size() : d]; k++) {
    int64_t dim = d < 0 ? d + (int64_t)s.size() : d, n = s[dim]; if (n > 9 && k % 8 != 1 && k != n) continue;
    for (int big = 0; big < 2; big++) for (int srt = 0; srt < 2; srt++) for (auto dt : DT) for (int kind = 0; kind < 3; kind++) {
      if (kind == 2 && dt != DType::Float32) continue; if (dt != DType::Float32 && r.in(0, 2)) continue;
      Nd a = vals(s, r, dt, kind); Tensor t = mk(a, dt); a = rd(t);
      input("top %lld of shape %s along %lld, largest %d, sorted %d, type %d, values %s", (long long)k, str(s).c_str(), (long long)d, big, srt, (int)dt, strv(a.v).c_str());
      auto p = srt ? function::topk(t, k, d, big, true) : op::topk(t, k, d, big, false);
      VI es = s; es[dim] = k; geo("topk", p.first); geo("topk", p.second);
      CHECK("topk", shp(p.first) == es && shp(p.second) == es, "shapes %s %s", str(shp(p.first)).c_str(), str(shp(p.second)).c_str());
      CHECK("topk", p.first.dtype() == dt && p.second.dtype() == DType::Int64, "element types");
      Nd v = rd(p.first), ix = rd(p.second);
      slices(s, dim, [&](VI c) {
        std::vector<double> all, got; VI seen((size_t)n, 0);
        for (c[dim] = 0; c[dim] < n; c[dim]++) all.push_back(a.at(c));
        for (c[dim] = 0; c[dim] < k; c[dim]++) {
          double x = v.at(c); int64_t q = (int64_t)ix.at(c); got.push_back(x);
          CHECK("topk", q >= 0 && q < n && !seen[(size_t)q], "position %lld at %s is out of range or repeated", (long long)q, str(c).c_str()); seen[(size_t)q] = 1;
          CHECK("topk", all[(size_t)q] == x, "value %g at %s is not the source element %g at its position %lld", x, str(c).c_str(), all[(size_t)q], (long long)q);
        }
        std::sort(all.begin(), all.end()); if (big) std::reverse(all.begin(), all.end()); all.resize((size_t)k);
        if (srt) CHECK("topk", got == all, "values %s, expected %s", strv(got).c_str(), strv(all).c_str());
        auto g2 = got; std::sort(g2.begin(), g2.end()); auto a2 = all; std::sort(a2.begin(), a2.end());
        CHECK("topk", g2 == a2, "values %s, expected the values %s", strv(got).c_str(), strv(all).c_str());
      });
      unchanged("topk", t, a);
    }
  }
  Tensor t = mk(iota({2, 3})); for (int64_t k : {0, 4, -1}) { input("top %lld of 3", (long long)k); CHECK("topk", rejects([&] { op::topk(t, k, 1, true, true); }), "accepted"); }
}
GROUP(cumsum) {
  Rng r(seed() + 2); auto ss = shapesFor(r); ss.push_back({2, 0}); ss.push_back({0, 3}); ss.push_back({2, 0, 3});
  for (auto& s : ss) for (int64_t d = -(int64_t)s.size(); d < (int64_t)s.size(); d++) for (auto dt : DT) {
    if (dt == DType::Bool) continue;
    int64_t dim = d < 0 ? d + (int64_t)s.size() : d; Nd a = rndi(s, r, -3, 3);
    if (dt == DType::Int64) for (auto& x : a.v) x += (double)(r.in(-2, 2) * (1LL << 35));
    Tensor t = mk(a, dt); input("cumulative sum of shape %s along %lld, type %d, values %s", str(s).c_str(), (long long)d, (int)dt, strv(a.v).c_str());
    Nd e = a; slices(s, dim, [&](VI c) { double q = 0; for (c[dim] = 0; c[dim] < s[dim]; c[dim]++) { q += a.at(c); e.at(c) = q; } });
    eq("cumsum", op::cumsum(t, d), e); eq("cumsum", function::cumsum(t, d), e); unchanged("cumsum", t, a);
    CHECK("cumsum", op::cumsum(t, d).dtype() == dt, "element type");
  }
}
GROUP(multinomial) {
  Rng r(seed() + 3); manualSeed(seed() + 77);
  for (int rep = 0; rep < (thorough() ? 4000 : 700); rep++) {
    bool two = r.coin(); int64_t B = two ? r.in(1, 4) : 1, n = r.in(1, 9); Nd w(two ? VI{B, n} : VI{n});
    double sc = std::pow(10.0, (double)r.in(-38, 30)); bool ints = r.in(0, 3) == 0; DType dt = ints ? DType::Int64 : r.in(0, 5) ? DType::Float32 : DType::Float16;
    if (dt == DType::Float16) sc = 0.01;
    int64_t nz = 1000;
    for (int64_t b = 0; b < B; b++) { int64_t c = 0; for (int64_t i = 0; i < n; i++) { double x = r.in(0, 2) ? ints ? (double)r.in(1, 9) : (double)r.f(0.01f, 1) * sc : 0; w.v[b * n + i] = (double)(float)x; }
      if (std::all_of(w.v.begin() + b * n, w.v.begin() + (b + 1) * n, [](double x) { return x == 0; })) w.v[b * n + r.in(0, n - 1)] = ints ? 1 : sc;
      for (int64_t i = 0; i < n; i++) c += (float)w.v[b * n + i] > 0; nz = std::min(nz, c); }
    Tensor t = mk(w, dt); w = rd(t);
    nz = 1000; for (int64_t b = 0; b < B; b++) { int64_t c = 0; for (int64_t i = 0; i < n; i++) c += w.v[b * n + i] > 0; nz = std::min(nz, c); } if (nz == 0) continue;
    for (int repl = 0; repl < 2; repl++) {
      int64_t m = repl ? r.in(1, 40) : r.in(1, nz);
      input("%lld draws %s replacement, shape %s type %d, weights %s", (long long)m, repl ? "with" : "without", str(w.s).c_str(), (int)dt, strv(w.v, 40).c_str());
      Tensor o = r.coin() ? op::multinomial(t, m, repl) : function::multinomial(t, m, repl); geo("multinomial", o);
      CHECK("multinomial", shp(o) == (two ? VI{B, m} : VI{m}) && o.dtype() == DType::Int64, "shape %s", str(shp(o)).c_str()); Nd g = rd(o);
      for (int64_t b = 0; b < B; b++) { std::set<int64_t> seen; for (int64_t k = 0; k < m; k++) {
        int64_t q = (int64_t)g.v[b * m + k]; CHECK("multinomial", q >= 0 && q < n, "position %lld is out of range", (long long)q);
        CHECK("multinomial", w.v[b * n + q] > 0, "position %lld has weight zero", (long long)q);
        if (!repl) CHECK("multinomial", seen.insert(q).second, "position %lld is drawn twice", (long long)q); } }
      unchanged("multinomial", t, w);
    }
  }
  // frequencies follow the weights
  for (auto& w : std::vector<std::vector<double>>{{1, 1}, {1, 2, 3, 4}, {0, 5, 0, 1}, {0.7, 0.2, 0.1}, {3}}) for (int two = 0; two < 2; two++) {
    int64_t n = (int64_t)w.size(), m = 20000; Nd a(two ? VI{2, n} : VI{n}); for (int64_t i = 0; i < a.n(); i++) a.v[i] = w[(size_t)(two && i >= n ? 2 * n - 1 - i : i)];
    input("20000 draws with weights %s", strv(a.v).c_str()); Nd g = rd(op::multinomial(mk(a), m, true)); double tot = 0; for (auto x : w) tot += x;
    for (int64_t b = 0; b < 1 + two; b++) for (int64_t i = 0; i < n; i++) { double c = 0, p = a.v[b * n + i] / tot; for (int64_t k = 0; k < m; k++) c += g.v[b * m + k] == (double)i;
      CHECK("multinomial.freq", std::fabs(c - p * (double)m) <= 6.5 * std::sqrt(p * (1 - p) * (double)m) + 1, "position %lld drawn %g times of %lld at probability %g", (long long)i, c, (long long)m, p); }
  }
  // first draw without replacement also follows the weights; the same seed repeats the draws
  double c0 = 0; Tensor w2 = mk(Nd({2}, 1)); { Nd a({3}); a.v = {6, 3, 1}; w2 = mk(a); }
  input("first of two draws without replacement, weights 6,3,1"); for (int i = 0; i < 5000; i++) c0 += rd(op::multinomial(w2, 2, false)).v[0] == 0;
  CHECK("multinomial.freq", std::fabs(c0 - 3000) < 6.5 * std::sqrt(1200.0), "position 0 came first %g times of 5000 at probability 0.6", c0);
  for (int repl = 0; repl < 2; repl++) { manualSeed(5); Nd x = rd(op::multinomial(mk(Nd({30}, 1)), 20, repl)); manualSeed(5); Nd y = rd(op::multinomial(mk(Nd({30}, 1)), 20, repl)); Nd z = rd(op::multinomial(mk(Nd({30}, 1)), 20, repl));
    input("same seed twice"); CHECK("multinomial.seed", x.v == y.v, "different draws"); CHECK("multinomial.seed", x.v != z.v, "the generator does not advance"); }
}
MAIN
