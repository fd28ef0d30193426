// C08: matrix products.  Oracle: pad one-dimensional operands, broadcast batch extents, sum over the inner extent.
#include "common.h"
static bool mm(Nd a, Nd b, bool ta, bool tb, Nd& out) {
  bool pa = a.s.size() == 1, pb = b.s.size() == 1;
  if (pa) { a.s = {1, a.s[0]}; ta = false; }
  if (pb) { b.s = {b.s[0], 1}; tb = false; }
  size_t ra = a.s.size(), rb = b.s.size(), r = std::max(ra, rb);
  int64_t m = ta ? a.s[ra - 1] : a.s[ra - 2], k = ta ? a.s[ra - 2] : a.s[ra - 1], k2 = tb ? b.s[rb - 1] : b.s[rb - 2], n = tb ? b.s[rb - 2] : b.s[rb - 1];
  if (k != k2) return false;
  VI bs;
  for (size_t d = 0; d + 2 < r; d++) { int64_t x = d + ra < r ? 1 : a.s[d + ra - r], y = d + rb < r ? 1 : b.s[d + rb - r]; if (x != y && x != 1 && y != 1) return false; bs.push_back(x == 1 ? y : x); }
  VI full = bs; full.push_back(m); full.push_back(n); Nd o(full);
  each(full, [&](const VI& c) {
    VI ca(a.s.size()), cb(b.s.size());
    for (size_t d = 0; d + 2 < ra; d++) ca[d] = a.s[d] == 1 ? 0 : c[d + r - ra];
    for (size_t d = 0; d + 2 < rb; d++) cb[d] = b.s[d] == 1 ? 0 : c[d + r - rb];
    double x = 0; int64_t i = c[r - 2], j = c[r - 1];
    for (int64_t p = 0; p < k; p++) { ca[ra - 2] = ta ? p : i; ca[ra - 1] = ta ? i : p; cb[rb - 2] = tb ? j : p; cb[rb - 1] = tb ? p : j; x += a.at(ca) * b.at(cb); }
    o.at(c) = x; });
  VI fs = bs; if (!pa) fs.push_back(m); if (!pb) fs.push_back(n); o.s = fs; out = o; return true;
}
static void one(const Nd& a, const Nd& b, bool ta, bool tb, uint64_t k, DType t = DType::Float32) {
  input("matmul of %s and %s, transposed %d %d, dtype %d, a=%s b=%s", str(a.s).c_str(), str(b.s).c_str(), ta, tb, (int)t, strv(a.v, 12).c_str(), strv(b.v, 12).c_str());
  Nd e; if (!mm(a, b, ta, tb, e)) { CHECK("matmul-rejects", rejects([&] { op::matmul(mk(a, t), mk(b, t), ta, tb); }), "operands that do not fit were accepted"); return; }
  Tensor x = (k % 2 && a.s.size()) ? mkview(a, t) : mk(a, t), y = (k % 3 == 1 && b.s.size()) ? mkview(b, t) : mk(b, t);
  Tensor z = op::matmul(x, y, ta, tb);
  eq("matmul", z, e); CHECK("matmul-dtype", z.dtype() == t, "dtype");
  unchanged("matmul-input", x, a); unchanged("matmul-input", y, b);
  if (k % 4 == 0) eq("matmul-method", x.matmul(y, ta, tb), e);
}
static Nd ints(const VI& s, uint64_t k) { Rng g(seed() * 77 + k); return rndi(s, g, -4, 4); }
GROUP(mat_mat) {
  uint64_t k = 0;
  for (int64_t m = 0; m <= 4; m++) for (int64_t p = 0; p <= 4; p++) for (int64_t n = 0; n <= 4; n++) for (int ta = 0; ta < 2; ta++) for (int tb = 0; tb < 2; tb++)
    one(ints(ta ? VI{p, m} : VI{m, p}, k), ints(tb ? VI{n, p} : VI{p, n}, k + 1), ta, tb, k), k++;
  for (VI q : {VI{17, 5, 33}, VI{64, 3, 2}, VI{1, 100, 1}, VI{33, 65, 17}}) for (int ta = 0; ta < 2; ta++) for (int tb = 0; tb < 2; tb++)
    one(ints(ta ? VI{q[1], q[0]} : VI{q[0], q[1]}, k), ints(tb ? VI{q[2], q[1]} : VI{q[1], q[2]}, k + 1), ta, tb, k), k++;
}
GROUP(vectors) {
  uint64_t k = 900;
  for (int64_t p = 1; p <= 4; p++) for (int tb = 0; tb < 2; tb++) for (int ta = 0; ta < 2; ta++) {
    one(ints({p}, k), ints({p}, k + 1), ta, tb, k); k++;
    for (int64_t n = 1; n <= 3; n++) {
      one(ints({p}, k), ints(tb ? VI{n, p} : VI{p, n}, k + 1), ta, tb, k); k++;
      one(ints(ta ? VI{p, n} : VI{n, p}, k), ints({p}, k + 1), ta, tb, k); k++;
      for (int64_t b : {1, 2, 3}) {
        one(ints({p}, k), ints(tb ? VI{b, n, p} : VI{b, p, n}, k + 1), ta, tb, k); k++;
        one(ints(ta ? VI{b, p, n} : VI{b, n, p}, k), ints({p}, k + 1), ta, tb, k); k++;
        one(ints({p}, k), ints(tb ? VI{2, b, n, p} : VI{2, b, p, n}, k + 1), ta, tb, k); k++;
        one(ints(ta ? VI{b, 2, p, n} : VI{b, 2, n, p}, k), ints({p}, k + 1), ta, tb, k); k++;
      }
    }
  }
}
GROUP(batched) {
  uint64_t k = 3000;
  std::vector<VI> bs = {{}, {1}, {2}, {3}, {1, 1}, {1, 2}, {2, 1}, {2, 2}, {3, 1}, {3, 2}, {1, 2, 1}, {2, 1, 2}, {2, 3, 1}, {0}, {2, 0}};
  std::vector<VI> mkn = {{1, 1, 1}, {1, 2, 3}, {2, 1, 2}, {3, 2, 1}, {2, 3, 2}};
  for (auto& x : bs) for (auto& y : bs) for (auto& q : mkn) {
    int ta = (int)(k & 1), tb = (int)((k >> 1) & 1); if (thorough()) ta = tb = 0;
    for (int rep = 0; rep < (thorough() ? 4 : 1); rep++) {
      if (thorough()) { ta = rep & 1; tb = rep >> 1; }
      VI sa = x, sb = y; sa.push_back(ta ? q[1] : q[0]); sa.push_back(ta ? q[0] : q[1]); sb.push_back(tb ? q[2] : q[1]); sb.push_back(tb ? q[1] : q[2]);
      Nd e; Nd a = ints(sa, k), b = ints(sb, k + 1);
      if (!mm(a, b, ta, tb, e) && k % 7) { k++; continue; }
      one(a, b, ta, tb, k); k++;
    }
  }
  for (VI q : {VI{0, 2, 3}, VI{2, 0, 3}, VI{2, 3, 0}}) for (VI x : {VI{2}, VI{3, 1}}) { VI sa = x, sb = {2}; sa.push_back(q[0]); sa.push_back(q[1]); sb.push_back(q[1]); sb.push_back(q[2]); one(ints(sa, k), ints(sb, k), false, false, k); k++; }
}
GROUP(random) {
  Rng g(seed() + 5); uint64_t k = 9000;
  for (int it = 0; it < (thorough() ? 3000 : 300); it++) {
    int ra = (int)g.in(1, 4), rb = (int)g.in(1, 4); bool ta = g.coin(), tb = g.coin(); int64_t m = g.in(1, 6), p = g.in(1, 6), n = g.in(1, 6);
    VI bd; for (int i = 0; i < 2; i++) bd.push_back(g.in(1, 3));
    auto shape = [&](int r, int64_t x, int64_t y) { VI s; if (r == 1) return VI{p}; for (int i = 4 - r; i < 2; i++) s.push_back(g.in(0, 2) ? bd[i] : 1); s.push_back(x); s.push_back(y); return s; };
    VI sa = shape(ra, ta ? p : m, ta ? m : p), sb = shape(rb, tb ? n : p, tb ? p : n);
    one(ints(sa, k), ints(sb, k + 1), ta, tb, k); k++;
  }
}
GROUP(dot) {
  uint64_t k = 7000;
  for (int64_t n = 0; n <= 40; n++) { Nd a = ints({n}, k), b = ints({n}, k + 1); k++; double x = 0; for (int64_t i = 0; i < n; i++) x += a.v[i] * b.v[i];
    input("dot of %s and %s", strv(a.v).c_str(), strv(b.v).c_str()); eq("dot", op::dot(mk(a), n ? mkview(b) : mk(b)), Nd({}, x)); }
}
GROUP(half) {
  uint64_t k = 8000;
  for (DType t : {DType::Float16, DType::BFloat16}) for (int64_t m = 1; m <= 3; m++) for (int64_t p = 1; p <= 3; p++) for (int64_t n = 1; n <= 3; n++) for (int ta = 0; ta < 2; ta++) for (int tb = 0; tb < 2; tb++) {
    one(ints(ta ? VI{p, m} : VI{m, p}, k), ints(tb ? VI{n, p} : VI{p, n}, k + 1), ta, tb, k, t); k++;
    one(ints(ta ? VI{2, p, m} : VI{2, m, p}, k), ints(tb ? VI{n, p} : VI{p, n}, k + 1), ta, tb, k, t); k++;
  }
}
GROUP(real_values) {
  Rng g(seed() + 3);
  for (int it = 0; it < 30; it++) { int64_t m = g.in(1, 9), p = g.in(1, 40), n = g.in(1, 9); Nd a = rnd({m, p}, g), b = rnd({p, n}, g), e; for (auto& x : a.v) x = (float)x; for (auto& x : b.v) x = (float)x; mm(a, b, 0, 0, e);
    input("matmul of random [%lld,%lld] [%lld,%lld]", (long long)m, (long long)p, (long long)p, (long long)n); eq("matmul-real", op::matmul(mk(a), mk(b), false, false), e, 1e-4, 1e-4); }
}
GROUP(special_values) {  // infinities, NaN and zeros: a product is NaN, infinite or finite exactly where the sum of the products is
  Rng g(seed() + 11); const double I = INFINITY;
  for (int it = 0; it < 400; it++) {
    int64_t m = g.in(1, 4), p = g.in(1, 4), n = g.in(1, 4); bool ta = g.coin(), tb = g.coin(); int bat = (int)g.in(0, 2);
    VI sa = ta ? VI{p, m} : VI{m, p}, sb = tb ? VI{n, p} : VI{p, n}; if (bat == 1) sa.insert(sa.begin(), 2); if (bat == 2) { sa.insert(sa.begin(), 2); sb.insert(sb.begin(), 2); }
    Nd a = rndi(sa, g, -1, 2), b = rndi(sb, g, -1, 2), e; for (Nd* x : {&a, &b}) for (auto& v : x->v) switch (g.in(0, 11)) { case 0: v = I; break; case 1: v = -I; break; case 2: v = NAN; break; default: break; }
    mm(a, b, ta, tb, e); input("matmul of %s and %s, transposed %d %d, a=%s b=%s", str(a.s).c_str(), str(b.s).c_str(), ta, tb, strv(a.v, 16).c_str(), strv(b.v, 16).c_str());
    Nd z = rd(op::matmul(mk(a), mk(b), ta, tb)); CHECK("matmul-special", z.s == e.s, "shape");
    for (size_t i = 0; i < e.v.size(); i++) CHECK("matmul-special", std::isnan(e.v[i]) ? std::isnan(z.v[i]) : z.v[i] == e.v[i], "element %zu is %g, expected %g", i, z.v[i], e.v[i]);
  }
  for (int it = 0; it < 60; it++) { int64_t n = g.in(1, 9); Nd a = rndi({n}, g, -1, 2), b = rndi({n}, g, -1, 2); for (Nd* x : {&a, &b}) for (auto& v : x->v) switch (g.in(0, 11)) { case 0: v = I; break; case 1: v = -I; break; case 2: v = NAN; break; default: break; }
    double x = 0; for (int64_t i = 0; i < n; i++) x += a.v[(size_t)i] * b.v[(size_t)i]; input("dot of %s and %s", strv(a.v).c_str(), strv(b.v).c_str()); double z = rd(op::dot(mk(a), mk(b))).v[0]; CHECK("dot-special", std::isnan(x) ? std::isnan(z) : z == x, "%g, expected %g", z, x); }
}
MAIN
