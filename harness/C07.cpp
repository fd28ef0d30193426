// C07: reductions.  Oracle: for each result position, the list of its slice's elements.
#include "common.h"
static const double INF = std::numeric_limits<double>::infinity();
// slices of a over the axes in 'in' : result shape and the elements (with index along the slice in row-major order)
struct Red { VI s; std::vector<std::vector<double>> sl; };
static Red slices(const Nd& a, const std::set<int>& in, bool keep) {
  Red r; VI full;
  for (size_t d = 0; d < a.s.size(); d++) { if (in.count((int)d)) { if (keep) r.s.push_back(1); full.push_back(1); } else { r.s.push_back(a.s[d]); full.push_back(a.s[d]); } }
  Nd idx(full); r.sl.resize((size_t)prod(full));
  each(a.s, [&](const VI& c) { VI q = c; for (int d : in) q[d] = 0; r.sl[(size_t)idx.ix(q)].push_back(a.at(c)); });
  return r;
}
static double fsum(const std::vector<double>& v) { double x = 0; for (double y : v) x += y; return x; }
static double fmean(const std::vector<double>& v) { return fsum(v) / (double)v.size(); }
static double fvar(const std::vector<double>& v, bool unb) { double m = fmean(v), x = 0; for (double y : v) x += (y - m) * (y - m); return x / ((double)v.size() - (unb ? 1 : 0)); }
static double fmin_(const std::vector<double>& v) { double x = INF; for (double y : v) x = y < x ? y : x; return x; }
static double fmax_(const std::vector<double>& v) { double x = -INF; for (double y : v) x = y > x ? y : x; return x; }
static int64_t farg(const std::vector<double>& v, bool mx) { int64_t b = 0; for (size_t i = 1; i < v.size(); i++) if (mx ? v[i] > v[b] : v[i] < v[b]) b = (int64_t)i; return b; }
static Nd app(const Red& r, const std::function<double(const std::vector<double>&)>& f) { Nd e(r.s); for (size_t i = 0; i < r.sl.size(); i++) e.v[i] = f(r.sl[i]); return e; }
static void vals(const VI& s, uint64_t k, const std::function<void(const Nd&, const char*)>& f) {
  Rng g(seed() * 1000 + k); int64_t n = prod(s);
  f(iota(s), "1..n"); { Nd a = iota(s); for (auto& x : a.v) x = -x; f(a, "-1..-n"); }
  f(rndi(s, g, -2, 2), "small ints with ties"); f(Nd(s, 3), "all equal"); f(Nd(s, -3), "all equal negative");
  { Nd a = rndi(s, g, -3, 3); for (auto& x : a.v) x = x == 0 ? -INF : x; f(a, "with -inf"); }
  if (n) { Nd a = rndi(s, g, 0, 9); a.v[(size_t)n - 1] = 50; f(a, "largest last"); a.v[(size_t)n - 1] = -50; f(a, "smallest last"); }
}
GROUP(sum_mean_all) {
  uint64_t k = 0;
  for (int r = 0; r <= 4; r++) shapes(r, 1, r <= 2 ? 5 : 3, [&](const VI& s) { if (r == 4 && prod(s) > 30) return; vals(s, k++, [&](const Nd& a, const char* nm) {
    if (!std::isfinite(fsum(a.v))) return;
    input("sum/mean of all, shape %s values %s (%s)", str(s).c_str(), strv(a.v).c_str(), nm);
    Tensor t = (k % 3 == 0 && r > 0) ? mkview(a) : mk(a);
    eq("sum", t.sum(), Nd({}, fsum(a.v))); 
    eq("mean", t.mean(), Nd({}, fmean(a.v)), 1e-5, 1e-6); unchanged("reduce-input", t, a);
    Tensor u = t.sum(); u.fill_(99); unchanged("reduce-result-shares", t, a);
  }); });
  Rng g(seed()); for (int it = 0; it < (thorough() ? 200 : 20); it++) { VI s = {g.in(1, 3000)}; Nd a = rnd(s, g); input("sum of %lld random", (long long)s[0]); eq("sum", mk(a).sum(), Nd({}, fsum(rd(mk(a)).v)), 1e-4, 1e-3); }
  for (VI s : {VI{0}, VI{2, 0}, VI{0, 3}}) { input("sum of empty %s", str(s).c_str()); eq("sum-empty", mk(Nd(s)).sum(), Nd({}, 0)); }
}
GROUP(minmax_all) {
  uint64_t k = 50;
  for (int r = 0; r <= 4; r++) shapes(r, 1, r <= 2 ? 5 : 3, [&](const VI& s) { if (r == 4 && prod(s) > 30) return; vals(s, k++, [&](const Nd& a, const char* nm) {
    input("min/max/argmin/argmax of all, shape %s values %s (%s)", str(s).c_str(), strv(a.v).c_str(), nm);
    Tensor t = (k % 3 == 0 && r > 0) ? mkview(a) : mk(a);
    eq("min", t.min(), Nd({}, fmin_(a.v))); eq("max", t.max(), Nd({}, fmax_(a.v)));
    Tensor i = t.argmin(), j = t.argmax();
    CHECK("arg-dtype", i.dtype() == DType::Int64 && j.dtype() == DType::Int64, "dtype of arg");
    eq("argmin", i, Nd({}, (double)farg(a.v, false))); eq("argmax", j, Nd({}, (double)farg(a.v, true)));
    unchanged("reduce-input", t, a);
  }); });
  for (VI s : {VI{1}, VI{3}, VI{2, 2}}) for (double v : {INF, -INF, 3.4028234663852886e38, -3.4028234663852886e38}) { Nd a(s, v); input("min/max of shape %s, all elements %g", str(s).c_str(), v); eq("min", mk(a).min(), Nd({}, v)); eq("max", mk(a).max(), Nd({}, v)); eq("argmax", mk(a).argmax(), Nd({}, 0)); eq("argmin", mk(a).argmin(), Nd({}, 0)); }
}
static void dims_each(int r, const std::function<void(const VI&)>& f) {   // non-empty subsets, several orders and signs
  for (int m = 1; m < (1 << r); m++) { VI d; for (int i = 0; i < r; i++) if (m >> i & 1) d.push_back(i); f(d); VI e = d; std::reverse(e.begin(), e.end()); for (auto& x : e) x -= r; f(e); if (d.size() > 1) { VI q = d; q[0] -= r; f(q); } }
}
GROUP(minmax_dim) {
  uint64_t k = 100;
  for (int r = 1; r <= 4; r++) shapes(r, 1, r <= 2 ? 4 : 3, [&](const VI& s) { if (r == 4 && prod(s) > 36) return; vals(s, k++, [&](const Nd& a, const char* nm) {
    for (int d = -r; d < r; d++) for (int keep = 0; keep < 2; keep++) {
      Red q = slices(a, {(d + r) % r}, keep);
      input("min/max/argmin/argmax over dim %d keep %d, shape %s values %s (%s)", d, keep, str(s).c_str(), strv(a.v).c_str(), nm);
      Tensor t = (d + keep) % 3 == 0 ? mkview(a) : mk(a);
      auto mn = t.min(d, keep), mx = t.max(d, keep);
      eq("min-dim", mn.first, app(q, fmin_)); eq("max-dim", mx.first, app(q, fmax_));
      auto amin = [](const std::vector<double>& v) { return (double)farg(v, false); }; auto amax = [](const std::vector<double>& v) { return (double)farg(v, true); };
      eq("argmin-dim", mn.second, app(q, amin)); eq("argmax-dim", mx.second, app(q, amax));
      eq("argmin-dim", t.argmin(d, keep), app(q, amin)); eq("argmax-dim", t.argmax(d, keep), app(q, amax));
      CHECK("arg-dtype", mn.second.dtype() == DType::Int64 && mx.second.dtype() == DType::Int64, "dtype of positions");
      unchanged("reduce-input", t, a);
    }
  }); });
  for (VI s : {VI{2}, VI{2, 2}}) for (double v : {INF, -INF}) for (int d = 0; d < (int)s.size(); d++) { Nd a(s, v); Red q = slices(a, {d}, false); input("min/max over dim %d of shape %s, all elements %g", d, str(s).c_str(), v); eq("min-dim", mk(a).min(d).first, app(q, fmin_)); eq("max-dim", mk(a).max(d).first, app(q, fmax_)); eq("argmax-dim", mk(a).max(d).second, Nd(q.s, 0)); }
}
GROUP(sum_mean_dim) {
  uint64_t k = 200;
  for (int r = 1; r <= (thorough() ? 5 : 4); r++) shapes(r, r <= 2 ? 0 : 1, r <= 2 ? 4 : r == 5 ? 2 : 3, [&](const VI& s) { if (r >= 4 && prod(s) > 36) return; vals(s, k++, [&](const Nd& a, const char* nm) {
    for (double x : a.v) if (!std::isfinite(x)) return;
    for (int keep = 0; keep < 2; keep++) {
      for (int d = -r; d < r; d++) {
        Red q = slices(a, {(d + r) % r}, keep);
        input("sum/mean over dim %d keep %d, shape %s values %s", d, keep, str(s).c_str(), strv(a.v).c_str());
        Tensor t = (d + keep) % 3 == 0 ? mkview(a) : mk(a);
        eq("sum-dim", t.sum(d, keep), app(q, fsum)); if (prod(s)) eq("mean-dim", t.mean(d, keep), app(q, fmean), 1e-5, 1e-6);
        unchanged("reduce-input", t, a);
      }
      dims_each(r, [&](const VI& ds) {
        std::set<int> in; for (auto d : ds) in.insert((int)((d + r) % r));
        Red q = slices(a, in, keep);
        input("sum/mean over dims %s keep %d, shape %s values %s", str(ds).c_str(), keep, str(s).c_str(), strv(a.v).c_str());
        Tensor t = mk(a);
        eq("sum-dims", t.sum(av(ds), keep), app(q, fsum)); if (prod(s)) eq("mean-dims", t.mean(av(ds), keep), app(q, fmean), 1e-5, 1e-6);
      });
    }
  }); });
}
GROUP(var) {
  Rng g(seed() + 7);
  for (int r = 1; r <= 4; r++) shapes(r, 1, r <= 2 ? 5 : 3, [&](const VI& s) { if (r == 4 && prod(s) > 36) return;
    for (int kind = 0; kind < 2; kind++) {
      Nd a = kind ? rnd(s, g) : rndi(s, g, -3, 3); a = rd(mk(a));
      for (int unb = 0; unb < 2; unb++) {
        if (a.n() > 1 || !unb) {
          input("var/varMean of all, unbiased %d, shape %s values %s", unb, str(s).c_str(), strv(a.v).c_str());
          eq("var", mk(a).var((bool)unb), Nd({}, fvar(a.v, unb)), 1e-4, 1e-5);
          auto p = mk(a).varMean((bool)unb); eq("var", p.first, Nd({}, fvar(a.v, unb)), 1e-4, 1e-5); eq("var-mean", p.second, Nd({}, fmean(a.v)), 1e-4, 1e-5);
        }
        for (int keep = 0; keep < 2; keep++) {
          auto one = [&](const std::set<int>& in, const std::function<Tensor(const Tensor&)>& f, const std::function<TensorPair(const Tensor&)>& f2) {
            Red q = slices(a, in, keep); if (q.sl[0].size() < 2 && unb) return;
            auto fv = [&](const std::vector<double>& v) { return fvar(v, unb); };
            Tensor t = mk(a); eq("var-dim", f(t), app(q, fv), 1e-4, 1e-5);
            auto p = f2(t); eq("var-dim", p.first, app(q, fv), 1e-4, 1e-5); eq("var-mean-dim", p.second, app(q, fmean), 1e-4, 1e-5); unchanged("reduce-input", t, a);
          };
          for (int d = -r; d < r; d++) { input("var/varMean over dim %d unbiased %d keep %d, shape %s values %s", d, unb, keep, str(s).c_str(), strv(a.v).c_str()); one({(d + r) % r}, [&](const Tensor& t) { return t.var((int64_t)d, (bool)unb, (bool)keep); }, [&](const Tensor& t) { return t.varMean((int64_t)d, (bool)unb, (bool)keep); }); }
          dims_each(r, [&](const VI& ds) { std::set<int> in; for (auto d : ds) in.insert((int)((d + r) % r)); input("var/varMean over dims %s unbiased %d keep %d, shape %s values %s", str(ds).c_str(), unb, keep, str(s).c_str(), strv(a.v).c_str()); one(in, [&](const Tensor& t) { return t.var(av(ds), (bool)unb, (bool)keep); }, [&](const Tensor& t) { return t.varMean(av(ds), (bool)unb, (bool)keep); }); });
        }
      }
    }
  });
}
GROUP(half) {
  uint64_t k = 300;
  for (DType t : {DType::Float16, DType::BFloat16}) for (VI s : {VI{1}, VI{5}, VI{2, 3}, VI{3, 2, 2}, VI{2, 1, 3, 2}}) { vals(s, k++, [&](const Nd& a, const char* nm) {
    int r = (int)s.size(); bool fin = true; for (double x : a.v) fin = fin && std::isfinite(x);
    input("16-bit reductions, dtype %d shape %s values %s", (int)t, str(s).c_str(), strv(a.v).c_str());
    Tensor x = mk(a, t);
    eq("half-min", x.min(), Nd({}, fmin_(a.v))); eq("half-max", x.max(), Nd({}, fmax_(a.v))); eq("half-argmax", x.argmax(), Nd({}, (double)farg(a.v, true))); eq("half-argmin", x.argmin(), Nd({}, (double)farg(a.v, false)));
    CHECK("half-dtype", x.max().dtype() == t && x.sum().dtype() == t, "result dtype");
    if (fin) { eq("half-sum", x.sum(), Nd({}, fsum(a.v)), 1e-2, 1e-2); eq("half-mean", x.mean(), Nd({}, fmean(a.v)), 2e-2, 2e-2); }
    for (int d = 0; d < r; d++) { Red q = slices(a, {d}, true); eq("half-max-dim", x.max(d, true).first, app(q, fmax_)); eq("half-min-dim", x.min(d, true).first, app(q, fmin_)); if (fin) { eq("half-sum-dim", x.sum(d, true), app(q, fsum), 1e-2, 1e-2); eq("half-mean-dim", x.mean(d, true), app(q, fmean), 2e-2, 2e-2); } }
  }); }
}
GROUP(bad) {
  for (int d : {2, -3, 9}) { Nd a = iota({2, 3}); input("reductions over dim %d of shape [2,3]", d); CHECK("bad-dim", rejects([&] { mk(a).sum(d); }), "an impossible dimension was accepted"); CHECK("bad-dim", rejects([&] { mk(a).max(d); }), "an impossible dimension was accepted"); }
}
GROUP(scalar) {
  for (double v : {0.0, 3.5, -2.0}) { Nd a({}, v); input("reductions of a scalar %g", v); Tensor t = Tensor::scalar((float)v);
    eq("scalar-sum", t.sum(), a); eq("scalar-mean", t.mean(), a); eq("scalar-max", t.max(), a); eq("scalar-min", t.min(), a); eq("scalar-argmax", t.argmax(), Nd({}, 0)); eq("scalar-argmin", t.argmin(), Nd({}, 0)); eq("scalar-var", t.var(false), Nd({}, 0));
    Tensor u = t.sum(); u.fill_(7); unchanged("reduce-result-shares", t, a); Tensor m = t.max(); m.fill_(7); unchanged("reduce-result-shares", t, a); Tensor w = t.mean(); w.fill_(7); unchanged("reduce-result-shares", t, a); }
}
MAIN
