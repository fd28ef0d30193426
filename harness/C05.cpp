// C05: rearranging operations.  Oracle: for each result position, the source position by definition.
#include "common.h"
static Nd permuted(const Nd& a, const VI& p) { VI s; for (auto d : p) s.push_back(a.s[d]); Nd r(s); each(s, [&](const VI& c) { VI q(a.s.size()); for (size_t d = 0; d < p.size(); d++) q[p[d]] = c[d]; r.at(c) = a.at(q); }); return r; }
static DType DT[] = {DType::Float32, DType::Float16, DType::BFloat16, DType::Int32, DType::Int64, DType::Bool};
static Nd src(const VI& s, DType t) { Nd a = iota(s); if (t == DType::Bool) for (auto& x : a.v) x = ((int64_t)(x * x + x / 3)) % 2; else if (t == DType::BFloat16 || t == DType::Float16) for (auto& x : a.v) x = (double)(((int64_t)x) % 128); return a; }
static void forshapes(int lo, int hi, int maxr, int64_t ext, const std::function<void(const VI&)>& f) {
  for (int r = lo; r <= hi; r++) shapes(r, r <= 3 ? 0 : 1, r <= 3 ? ext : 2, f);
}
GROUP(permute) {
  for (int r = 1; r <= (thorough() ? 5 : 4); r++)
    shapes(r, r <= 3 ? 0 : 1, r <= 2 ? 4 : 3, [&](const VI& s) {
      if (r == 4 && prod(s) > 36 && !thorough()) return;
      VI p(r); for (int i = 0; i < r; i++) p[i] = i;
      do {
        Nd a = iota(s);
        for (int neg = 0; neg < 2; neg++) {
          VI q = p; if (neg) for (auto& x : q) if ((x + neg) % 2) x -= r;
          input("permute shape %s dims %s", str(s).c_str(), str(q).c_str());
          Tensor t = mk(a); eq("permute", op::permute(t, av(q)), permuted(a, p)); unchanged("permute-input", t, a);
        }
      } while (std::next_permutation(p.begin(), p.end()));
      VI rev; for (int i = r - 1; i >= 0; i--) rev.push_back(i);
      Nd a = iota(s); input("permute() shape %s", str(s).c_str()); eq("permuteAll", mk(a).permute(), permuted(a, rev));
    });
  for (DType t : DT) shapes(3, 1, 3, [&](const VI& s) { Nd a = src(s, t); VI p = {2, 0, 1}; input("permute dtype %d shape %s dims [2,0,1]", (int)t, str(s).c_str()); Tensor r = op::permute(mk(a, t), av(p)); CHECK("permute-dtype", r.dtype() == t, "dtype"); eq("permute", r, permuted(a, p)); });
  shapes(2, 1, 4, [&](const VI& s) { Nd a = iota(s); VI p = {1, 0}; input("permute of a view, shape %s", str(s).c_str()); eq("permute-view", op::permute(mkview(a), av(p)), permuted(a, p)); });
}
GROUP(transpose) {
  for (int r = 1; r <= 4; r++) shapes(r, r <= 3 ? 0 : 1, r <= 2 ? 4 : 3, [&](const VI& s) {
    for (int d0 = -r; d0 < r; d0++) for (int d1 = -r; d1 < r; d1++) {
      VI p(r); for (int i = 0; i < r; i++) p[i] = i; std::swap(p[(d0 + r) % r], p[(d1 + r) % r]);
      Nd a = iota(s); input("transpose shape %s (%d,%d)", str(s).c_str(), d0, d1);
      Tensor t = mk(a); eq("transpose", t.transpose(d0, d1), permuted(a, p)); unchanged("transpose-input", t, a);
    }
    if (r == 2) { Nd a = iota(s); input("t() shape %s", str(s).c_str()); eq("t", mk(a).t(), permuted(a, {1, 0})); }
  });
  for (DType t : DT) for (VI s : {VI{2, 3}, VI{3, 1, 2}, VI{2, 3, 4}}) { Nd a = src(s, t); VI p = s.size() == 2 ? VI{1, 0} : VI{0, 2, 1}; int n = (int)s.size(); input("transpose dtype %d shape %s", (int)t, str(s).c_str()); eq("transpose", mk(a, t).transpose(n - 2, n - 1), permuted(a, p)); eq("transpose-view", mkview(a, t).transpose(n - 1, n - 2), permuted(a, p)); }
}
GROUP(concat) {
  for (int r = 1; r <= 4; r++) shapes(r, r <= 2 ? 0 : 1, r == 4 ? 2 : 3, [&](const VI& s) {
    for (int d = -r; d < r; d++) for (int k = 1; k <= 3; k++) for (int pat = 0; pat < 3; pat++) {
      int dd = (d + r) % r; std::vector<Nd> as; std::vector<Tensor> ts; VI rs = s; rs[dd] = 0; std::string ext;
      for (int i = 0; i < k; i++) { VI q = s; q[dd] = pat == 0 ? s[dd] : pat == 1 ? (i + 1) : (i == 1 ? 0 : 2); rs[dd] += q[dd]; as.push_back(iota(q, 100 * i + 1)); ts.push_back(i == 1 ? mkview(as.back()) : mk(as.back())); ext += std::to_string(q[dd]) + " "; }
      Nd e(rs); each(rs, [&](const VI& c) { VI q = c; int i = 0; while (q[dd] >= as[i].s[dd]) { q[dd] -= as[i].s[dd]; i++; } e.at(c) = as[i].at(q); });
      input("concat dim %d of %d tensors, base shape %s, extents %s", d, k, str(s).c_str(), ext.c_str());
      eq("concat", op::concat(ArrayView<Tensor>(ts), d), e);
      for (int i = 0; i < k; i++) unchanged("concat-input", ts[i], as[i]);
    }
  });
  for (DType t : DT) { Nd a = src({2, 3}, t), b = src({2, 2}, t); std::vector<Tensor> ts = {mk(a, t), mk(b, t)}; Nd e({2, 5}); each(e.s, [&](const VI& c) { e.at(c) = c[1] < 3 ? a.at(c) : b.at({c[0], c[1] - 3}); }); input("concat dtype %d", (int)t); eq("concat", op::concat(ArrayView<Tensor>(ts), 1), e); }
}
GROUP(stack) {
  for (int r = 0; r <= 4; r++) shapes(r, r <= 2 ? 0 : 1, r == 4 ? 2 : 3, [&](const VI& s) {
    for (int d = -r - 1; d <= r; d++) for (int k = 1; k <= 3; k++) {
      int dd = d < 0 ? d + r + 1 : d; std::vector<Nd> as; std::vector<Tensor> ts;
      for (int i = 0; i < k; i++) { as.push_back(iota(s, 100 * i + 1)); ts.push_back(i == 1 && r > 0 ? mkview(as.back()) : mk(as.back())); }
      VI rs = s; rs.insert(rs.begin() + dd, k); Nd e(rs);
      each(rs, [&](const VI& c) { VI q = c; int64_t i = q[dd]; q.erase(q.begin() + dd); e.at(c) = as[i].at(q); });
      input("stack dim %d of %d tensors of shape %s", d, k, str(s).c_str());
      eq("stack", op::stack(ArrayView<Tensor>(ts), d), e);
      for (int i = 0; i < k; i++) unchanged("stack-input", ts[i], as[i]);
    }
    if (r >= 1) for (int k = 1; k <= 3; k++) {
      std::vector<Nd> as; std::vector<Tensor> ts; for (int i = 0; i < k; i++) { as.push_back(iota(s, 100 * i + 1)); ts.push_back(mk(as.back())); }
      VI vs = s, hs = s; Nd ev, eh;
      if (r == 1) { vs = {k, s[0]}; hs = {k * s[0]}; } else { vs[0] *= k; hs[1] *= k; }
      ev = Nd(vs); each(vs, [&](const VI& c) { if (r == 1) ev.at(c) = as[c[0]].at({c[1]}); else { VI q = c; q[0] = c[0] % s[0]; ev.at(c) = as[c[0] / s[0]].at(q); } });
      eh = Nd(hs); each(hs, [&](const VI& c) { VI q = c; int hd = r == 1 ? 0 : 1; q[hd] = c[hd] % s[hd]; eh.at(c) = as[c[hd] / s[hd]].at(q); });
      input("vstack/hstack of %d tensors of shape %s", k, str(s).c_str());
      eq("vstack", op::vstack(ArrayView<Tensor>(ts)), ev); eq("hstack", op::hstack(ArrayView<Tensor>(ts)), eh);
    }
  });
}
static Nd slice(const Nd& a, int dd, int64_t st, int64_t len) { VI s = a.s; s[dd] = len; Nd r(s); each(s, [&](const VI& c) { VI q = c; q[dd] += st; r.at(c) = a.at(q); }); return r; }
GROUP(split) {
  for (int r = 1; r <= 4; r++) shapes(r, r <= 2 ? 0 : 1, r <= 2 ? 6 : (r == 3 ? 4 : 2), [&](const VI& s) {
    for (int d = -r; d < r; d++) { int dd = (d + r) % r; Nd a = iota(s);
      for (int view = 0; view < 2; view++) { Tensor t = view ? mkview(a) : mk(a);
        for (int64_t k = 1; k <= s[dd]; k++) if (s[dd] % k == 0) {
          input("split%s shape %s size %lld dim %d", view ? " of a view" : "", str(s).c_str(), (long long)k, d);
          auto v = t.split(k, d); CHECK("split-count", (int64_t)v.size() == s[dd] / k, "%zu pieces", v.size());
          for (size_t i = 0; i < v.size(); i++) eq("split", v[i], slice(a, dd, (int64_t)i * k, k));
        }
        for (int64_t k = 1; k <= s[dd] + 2; k++) {
          if (s[dd] == 0) continue;
          input("chunk%s shape %s chunks %lld dim %d", view ? " of a view" : "", str(s).c_str(), (long long)k, d);
          auto v = t.chunk(k, d); int64_t kk = std::min(k, s[dd]), sz = (s[dd] + kk - 1) / kk, n = (s[dd] + sz - 1) / sz;
          CHECK("chunk-count", (int64_t)v.size() == n, "%zu chunks, expected %lld", v.size(), (long long)n);
          for (size_t i = 0; i < v.size(); i++) eq("chunk", v[i], slice(a, dd, (int64_t)i * sz, std::min(sz, s[dd] - (int64_t)i * sz)));
        }
        for (int64_t x = 0; x <= s[dd]; x++) for (int64_t y = 0; x + y <= s[dd]; y++) {
          VI sec = {x, y, s[dd] - x - y}; input("split%s shape %s sections %s dim %d", view ? " of a view" : "", str(s).c_str(), str(sec).c_str(), d);
          auto v = t.split(av(sec), d); CHECK("split-sections-count", v.size() == 3, "%zu pieces", v.size());
          int64_t o = 0; for (int i = 0; i < 3; i++) { eq("split-sections", v[i], slice(a, dd, o, sec[i])); o += sec[i]; }
        }
        for (int64_t st = -s[dd]; st < s[dd]; st++) for (int64_t len = 0; len + (st < 0 ? st + s[dd] : st) <= s[dd]; len++) {
          input("narrow%s shape %s dim %d start %lld length %lld", view ? " of a view" : "", str(s).c_str(), d, (long long)st, (long long)len);
          eq("narrow", t.narrow(d, st, len), slice(a, dd, st < 0 ? st + s[dd] : st, len));
        }
        unchanged("split-input", t, a);
      } }
  });
  for (DType t : DT) { Nd a = src({3, 4, 2}, t); for (int d = 0; d < 3; d++) { input("narrow/chunk/split dtype %d shape [3,4,2] dim %d", (int)t, d); eq("narrow", mk(a, t).narrow(d, 1, 1), slice(a, d, 1, 1)); auto v = mk(a, t).chunk(2, d); eq("chunk", v[1], slice(a, d, (a.s[d] + 1) / 2, a.s[d] - (a.s[d] + 1) / 2)); VI sec = {1, a.s[d] - 1}; auto w = mk(a, t).split(av(sec), d); eq("split-sections", w[1], slice(a, d, 1, a.s[d] - 1)); } }
}
GROUP(expand) {
  for (int ri = 0; ri <= 3; ri++) for (int ro = std::max(ri, 1); ro <= ri + 2; ro++) shapes(ri, 1, 3, [&](const VI& s) {
    shapes(ro, 1, 3, [&](const VI& o) {
      for (int m = 0; m < 2; m++) {
        VI sizes = o; bool ok = true;
        for (int i = 0; i < ro; i++) { int j = i - (ro - ri); int64_t in = j >= 0 ? s[j] : 1; if (in != 1 && in != o[i]) ok = false; if (m && j >= 0 && in == o[i]) sizes[i] = -1; }
        if (!ok) continue;
        Nd a = iota(s); Nd e(o); each(o, [&](const VI& c) { VI q(ri); for (int j = 0; j < ri; j++) q[j] = s[j] == 1 ? 0 : c[j + ro - ri]; e.at(c) = a.at(q); });
        input("expand shape %s to %s", str(s).c_str(), str(sizes).c_str());
        Tensor t = mk(a); eq("expand", op::expand(t, av(sizes)), e); unchanged("expand-input", t, a);
        if (ri && m == 0) eq("expand-view", op::expand(mkview(a), av(sizes)), e);
      }
    });
  });
  for (DType t : DT) { Nd a = src({2, 1, 3}, t); VI o = {2, 2, 4, 3}; Nd e(o); each(o, [&](const VI& c) { e.at(c) = a.at({c[1], 0, c[3]}); }); input("expand dtype %d", (int)t); eq("expand", op::expand(mk(a, t), av(o)), e); }
}
GROUP(repeat) {
  for (int r = 1; r <= 4; r++) shapes(r, r <= 2 ? 0 : 1, r == 4 ? 2 : 3, [&](const VI& s) {
    for (int d = -r; d < r; d++) for (int k = 1; k <= 3; k++) { int dd = (d + r) % r; Nd a = iota(s); VI o = s; o[dd] *= k; Nd e(o); each(o, [&](const VI& c) { VI q = c; q[dd] /= k; e.at(c) = a.at(q); });
      input("repeatInterleave shape %s repeats %d dim %d", str(s).c_str(), k, d); Tensor t = mk(a); eq("repeat", op::repeatInterleave(t, k, d), e); unchanged("repeat-input", t, a); if (d == 0) eq("repeat-view", op::repeatInterleave(mkview(a), k, d), e); }
  });
  for (DType t : DT) { Nd a = src({2, 3}, t); VI o = {2, 6}; Nd e(o); each(o, [&](const VI& c) { e.at(c) = a.at({c[0], c[1] / 2}); }); input("repeatInterleave dtype %d", (int)t); eq("repeat", op::repeatInterleave(mk(a, t), 2, 1), e); }
}
GROUP(triangular) {
  for (int r = 2; r <= 4; r++) shapes(r, r <= 3 ? 0 : 1, r == 2 ? 5 : (r == 3 ? 4 : 3), [&](const VI& s) {
    for (int64_t k = -5; k <= 5; k++) { Nd a = iota(s), l(s), u(s); each(s, [&](const VI& c) { int64_t i = c[r - 2], j = c[r - 1]; l.at(c) = j <= i + k ? a.at(c) : 0; u.at(c) = j >= i + k ? a.at(c) : 0; });
      input("tril/triu shape %s diagonal %lld", str(s).c_str(), (long long)k); Tensor t = mk(a); eq("tril", t.tril(k), l); eq("triu", t.triu(k), u); unchanged("tri-input", t, a); if (k == 0) { eq("tril-view", mkview(a).tril(), l); eq("triu-view", mkview(a).triu(), u); } }
  });
  for (DType t : DT) { Nd a = src({3, 3}, t), l(a.s), u(a.s); each(a.s, [&](const VI& c) { l.at(c) = c[1] <= c[0] ? a.at(c) : 0; u.at(c) = c[1] >= c[0] ? a.at(c) : 0; }); input("tril/triu dtype %d", (int)t); eq("tril", mk(a, t).tril(), l); eq("triu", mk(a, t).triu(), u); }
}
GROUP(random_layout) {
  Rng g(seed());
  for (int it = 0; it < (thorough() ? 6000 : 600); it++) {
    int r = (int)g.in(2, 5); VI s(r), p(r); for (int i = 0; i < r; i++) { s[i] = g.in(1, 5); p[i] = i; } for (int i = r - 1; i > 0; i--) std::swap(p[i], p[g.in(0, i)]);
    Nd a = rnd(s, g); for (auto& x : a.v) x = (float)x;
    input("seed %llu: permute shape %s dims %s", (unsigned long long)seed(), str(s).c_str(), str(p).c_str()); Tensor t = mk(a); eq("permute", op::permute(t, av(p)), permuted(a, p));
    int d = (int)g.in(0, r - 1); int64_t st = g.in(0, s[d] - 1), len = g.in(0, s[d] - st);
    input("narrow shape %s dim %d start %lld length %lld", str(s).c_str(), d, (long long)st, (long long)len); eq("narrow", op::narrow(t, d, st, len), slice(a, d, st, len));
  }
}
MAIN
