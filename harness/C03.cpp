// C03: shape changes.  Oracle: the mathematically determined shape, or "refused" (tensor keeps its shape), and the
// same elements in row-major order.
#include "common.h"
static DType DT[] = {DType::Float32, DType::Float16, DType::BFloat16, DType::Int32, DType::Int64, DType::Bool};
static VI refuse() { return VI{-99}; }
// reshape: expected shape or refuse()
static VI reshaped(const VI& s, const VI& q) {
  int64_t n = prod(s), c = 1; int inf = -1;
  for (size_t i = 0; i < q.size(); i++) { if (q[i] == -1) { if (inf >= 0) return refuse(); inf = (int)i; } else if (q[i] < 0) return refuse(); else c *= q[i]; }
  VI r = q;
  if (inf >= 0) { if (c == 0 || n % c) return refuse(); r[inf] = n / c; c *= r[inf]; }
  if (c != n) return refuse();
  return r;
}
static VI flat(const VI& s, int64_t a, int64_t b) {
  int64_t n = s.empty() ? 1 : (int64_t)s.size(); VI t = s.empty() ? VI{1} : s;
  if (a < 0) a += n; if (b < 0) b += n;
  if (a < 0 || b < 0 || a >= n || b >= n || a > b) return refuse();
  VI r(t.begin(), t.begin() + a); int64_t m = 1; for (int64_t i = a; i <= b; i++) m *= t[i]; r.push_back(m); r.insert(r.end(), t.begin() + b + 1, t.end()); return r;
}
static VI unflat(const VI& s, int64_t d, const VI& q) {
  int64_t n = (int64_t)s.size(); if (d < 0) d += n; if (d < 0 || d >= n || q.empty()) return refuse();
  int64_t c = 1; int inf = -1; VI r = q;
  for (size_t i = 0; i < q.size(); i++) { if (q[i] == -1) { if (inf >= 0) return refuse(); inf = (int)i; } else if (q[i] < 0) return refuse(); else c *= q[i]; }
  if (inf >= 0) { if (c == 0 || s[d] % c) return refuse(); r[inf] = s[d] / c; } else if (c != s[d]) return refuse();
  VI o(s.begin(), s.begin() + d); o.insert(o.end(), r.begin(), r.end()); o.insert(o.end(), s.begin() + d + 1, s.end()); return o;
}
static VI squeezed(const VI& s, const VI& dims) {
  VI r; int64_t n = (int64_t)s.size();
  for (int64_t i = 0; i < n; i++) { bool dr = dims.empty(); for (auto d : dims) if (d == i || d + n == i) dr = true; if (!(dr && s[i] == 1)) r.push_back(s[i]); }
  return r;
}
static VI unsq(const VI& s, int64_t d) { int64_t n = (int64_t)s.size(); if (d < 0) d += n + 1; if (d < 0 || d > n) return refuse(); VI r = s; r.insert(r.begin() + d, 1); return r; }

// out-of-place, in-place, and on a view; expected shape e or refuse()
static void go(const char* op, const VI& s, const VI& e, const std::function<Tensor(const Tensor&)>& f, const std::function<void(Tensor&)>& g, DType t = DType::Float32) {
  Nd a = iota(s); if (t == DType::Bool) for (auto& x : a.v) x = ((int64_t)(x / 2)) % 2; else if (t != DType::Float32) for (auto& x : a.v) x = (double)(((int64_t)x) % 128);
  Nd b = a; bool ref = e == refuse(); if (!ref) b.s = e;
  for (int v = 0; v < 2; v++) {
    Tensor x = v ? mkview(a, t) : mk(a, t);
    { Tensor r = f(x); CHECK(op, r.dtype() == t, "element type changed"); eq(op, r, b); unchanged(op, x, a); }
    g(x); CHECK(op, x.dtype() == t, "element type changed"); eq(op, x, b);
    if (!ref) { Tensor r = f(x); (void)r; eq(op, x, b); }
  }
}
static void reshape1(const VI& s, const VI& q, DType t = DType::Float32) {
  VI e = reshaped(s, q);
  input("reshape %s to %s", str(s).c_str(), str(q).c_str());
  go("reshape", s, e, [&](const Tensor& x) { return x.reshape(av(q)); }, [&](Tensor& x) { x.reshape_(av(q)); }, t);
  go("view", s, e, [&](const Tensor& x) { return x.view(av(q)); }, [&](Tensor& x) { x.reshape_(av(q)); }, t);
}
GROUP(reshape) {
  for (int r = 0; r <= 3; r++) shapes(r, 0, 3, [&](const VI& s) { for (int k = 0; k <= 3; k++) shapes(k, -2, 4, [&](const VI& q) { if (prod(s) > 12 && k == 3 && reshaped(s, q) == refuse() && (prod(q) % 3 == 1)) return; reshape1(s, q); }); });
}
GROUP(reshape_large) {
  VI dims[] = {{12}, {24}, {2, 12}, {3, 8}, {2, 3, 4}, {2, 2, 2, 3}, {1, 24, 1}, {4, 1, 6}, {1, 1, 1, 1, 1, 1, 2, 3}, {2, 1, 2, 1, 2, 1, 2, 1}, {36}, {6, 6}};
  for (auto& s : dims) {
    for (auto& q : dims) { reshape1(s, q); for (size_t i = 0; i < q.size(); i++) { VI p = q; p[i] = -1; reshape1(s, p); } }
    for (DType t : DT) { reshape1(s, {-1}, t); reshape1(s, {-1, s[0]}, t); }
  }
  Rng g(seed());
  for (int i = 0; i < (thorough() ? 20000 : 3000); i++) { VI s((size_t)g.in(0, 6)), q((size_t)g.in(0, 8)); for (auto& x : s) x = g.in(1, 4); int64_t n = prod(s), m = n; for (size_t k = 0; k + 1 < q.size(); k++) { int64_t d = g.in(1, 4); q[k] = (m % d == 0) ? d : 1; m /= q[k]; } if (!q.empty()) { q.back() = m; std::swap(q.back(), q[g.in(0, (int64_t)q.size() - 1)]); if (g.in(0, 2) == 0) q[g.in(0, (int64_t)q.size() - 1)] = -1; if (g.in(0, 5) == 0) q[g.in(0, (int64_t)q.size() - 1)] += 1; } reshape1(s, q, DT[g.in(0, 5)]); }
}
GROUP(flatten) {
  for (int r = 0; r <= 5; r++) shapes(r, r <= 3 ? 0 : 1, r <= 3 ? 3 : 2, [&](const VI& s) { for (int64_t a = -r - 2; a <= r + 1; a++) for (int64_t b = -r - 2; b <= r + 1; b++) {
    input("flatten %s start %lld end %lld", str(s).c_str(), (long long)a, (long long)b); VI e = flat(s, a, b);
    go("flatten", s, e, [&](const Tensor& x) { return x.flatten(a, b); }, [&](Tensor& x) { x.flatten_(a, b); });
  } });
}
GROUP(unflatten) {
  for (int r = 0; r <= 3; r++) shapes(r, 0, r <= 1 ? 12 : (r == 2 ? 6 : 4), [&](const VI& s) { if (r == 3 && (s[0] == 3 || s[2] == 3)) return; for (int64_t d = -r - 1; d <= r; d++) for (int k = 1; k <= 3; k++) {
    if (k == 3 && r == 3 && d != 1) continue;
    shapes(k, -2, 4, [&](const VI& q) {
      VI e = unflat(s, d, q); if (e == refuse() && k == 3 && ((q[0] + 2 * q[1] + 3 * q[2] + 40) % 5)) return;
      input("unflatten %s dim %lld into %s", str(s).c_str(), (long long)d, str(q).c_str());
      go("unflatten", s, e, [&](const Tensor& x) { return x.unflatten(d, av(q)); }, [&](Tensor& x) { x.unflatten_(d, av(q)); });
    });
  } });
}
GROUP(squeeze) {
  for (int r = 0; r <= 5; r++) shapes(r, r <= 3 ? 0 : 1, r <= 3 ? 3 : 2, [&](const VI& s) {
    for (int64_t d = -r; d < r; d++) { input("squeeze %s dim %lld", str(s).c_str(), (long long)d); go("squeeze", s, squeezed(s, {d}), [&](const Tensor& x) { return x.squeeze(d); }, [&](Tensor& x) { x.squeeze_(d); }); 
      input("TensorImpl::squeeze_ %s dim %lld", str(s).c_str(), (long long)d); go("squeeze-impl", s, squeezed(s, {d}), [&](const Tensor& x) { return x.squeeze(d); }, [&](Tensor& x) { x.getImpl().squeeze_(d); });
      for (int64_t k = -r; k < r; k++) { VI q = {d, k}; input("squeeze %s dims %s", str(s).c_str(), str(q).c_str()); go("squeeze-dims", s, squeezed(s, q), [&](const Tensor& x) { return x.squeeze(av(q)); }, [&](Tensor& x) { x.squeeze_(av(q)); }); } }
    input("squeeze %s all", str(s).c_str()); go("squeeze-all", s, squeezed(s, {}), [&](const Tensor& x) { return x.squeeze(IntArrayView{}); }, [&](Tensor& x) { x.squeeze_(IntArrayView{}); });
  });
}
GROUP(unsqueeze) {
  for (int r = 0; r <= 5; r++) shapes(r, r <= 3 ? 0 : 1, r <= 3 ? 3 : 2, [&](const VI& s) { for (int64_t d = -r - 3; d <= r + 2; d++) {
    input("unsqueeze %s dim %lld", str(s).c_str(), (long long)d); go("unsqueeze", s, unsq(s, d), [&](const Tensor& x) { return x.unsqueeze(d); }, [&](Tensor& x) { x.unsqueeze_(d); });
  } });
}
// chains of shape changes on one handle keep the row-major element order and consistent strides
GROUP(chains) {
  Rng g(seed() + 7);
  for (int it = 0; it < (thorough() ? 8000 : 1500); it++) {
    VI s((size_t)g.in(1, 4)); for (auto& x : s) x = g.in(1, 3); Nd a = iota(s); Tensor t = it % 2 ? mk(a) : mkview(a); std::string h = str(s); VI c = s;
    for (int k = 0; k < 6; k++) {
      int n = (int)c.size(); VI e; int64_t d, b;
      switch (g.in(0, 4)) {
        case 0: e = flat(c, d = g.in(-n, n), b = g.in(-n, n)); h += " flatten(" + std::to_string(d) + "," + std::to_string(b) + ")"; input("%s", h.c_str()); if (g.coin()) t.flatten_(d, b); else t = t.flatten(d, b); break;
        case 1: if (n > 7) continue; e = unsq(c, d = g.in(-n - 1, n)); h += " unsqueeze(" + std::to_string(d) + ")"; input("%s", h.c_str()); if (g.coin()) t.unsqueeze_(d); else t = t.unsqueeze(d); break;
        case 2: if (!n) continue; e = squeezed(c, {d = g.in(-n, n - 1)}); h += " squeeze(" + std::to_string(d) + ")"; input("%s", h.c_str()); if (g.coin()) t.squeeze_(d); else t = t.squeeze(d); break;
        case 3: { if (!n || n > 6) continue; VI q = {g.in(1, 3), -1}; e = unflat(c, d = g.in(-n, n - 1), q); h += " unflatten(" + std::to_string(d) + "," + str(q) + ")"; input("%s", h.c_str()); if (g.coin()) t.unflatten_(d, av(q)); else t = t.unflatten(d, av(q)); break; }
        default: { VI q = {-1, g.in(1, 4)}; e = reshaped(c, q); h += " reshape(" + str(q) + ")"; input("%s", h.c_str()); if (g.coin()) t.reshape_(av(q)); else t = t.view(av(q)); }
      }
      if (e != refuse()) c = e;
      Nd x = a; x.s = c; eq("chain", t, x);
    }
  }
}
MAIN
