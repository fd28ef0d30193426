// C06: indexing, gather, scatter.  Oracle: coordinates by definition; every position not addressed must keep its element.
#include "common.h"
static DType DT[] = {DType::Float32, DType::Float16, DType::BFloat16, DType::Int32, DType::Int64, DType::Bool};
static Nd src(const VI& s, DType t, double base = 1) { Nd a = iota(s, base); if (t == DType::Bool) for (auto& x : a.v) x = ((int64_t)(x * x + x / 3)) % 2; else if (t == DType::BFloat16 || t == DType::Float16) for (auto& x : a.v) x = (double)(((int64_t)x) % 128); return a; }
// ways the indexed tensor can be made: plain, slice of a larger storage, result of index, result of index twice
static const int WAYS = 4;
static const char* WN[] = {"plain", "slice of a larger tensor", "result of index", "result of index of index"};
static Tensor make(const Nd& a, DType t, int way) {
  if (way == 0) return mk(a, t);
  if (way == 1) return a.s.empty() ? mk(a, t) : mkview(a, t);
  VI s = a.s; int64_t n = a.n();
  s.insert(s.begin(), 3); Nd big(s, 0); for (int64_t i = 0; i < n; i++) big.v[2 * n + i] = a.v[i];
  if (way == 2) return op::index(mk(big, t), IntArrayView{-1});
  VI q = s; q.insert(q.begin(), 2); Nd b2(q, 0); for (int64_t i = 0; i < 3 * n; i++) b2.v[3 * n + i] = big.v[i];
  return op::index(op::index(mk(b2, t), IntArrayView{1}), IntArrayView{2});
}
static Nd sub(const Nd& a, const VI& idx) {
  VI s(a.s.begin() + idx.size(), a.s.end()); Nd r(s);
  each(s, [&](const VI& c) { VI q; for (size_t i = 0; i < idx.size(); i++) q.push_back(idx[i] < 0 ? idx[i] + a.s[i] : idx[i]); q.insert(q.end(), c.begin(), c.end()); r.at(c) = a.at(q); });
  return r;
}
static void putSub(Nd& a, const VI& idx, const Nd& v) {
  VI s(a.s.begin() + idx.size(), a.s.end());
  int64_t i = 0;
  each(s, [&](const VI& c) { VI q; for (size_t k = 0; k < idx.size(); k++) q.push_back(idx[k] < 0 ? idx[k] + a.s[k] : idx[k]); q.insert(q.end(), c.begin(), c.end()); a.at(q) = v.n() == 1 && v.s.empty() ? v.v[0] : v.v[i]; i++; });
}
static void positions(const VI& s, int len, const std::function<void(const VI&)>& f) {
  VI b; for (int i = 0; i < len; i++) b.push_back(2 * s[i]);
  each(b, [&](const VI& c) { VI q = c; for (int i = 0; i < len; i++) q[i] -= s[i]; f(q); });
}
GROUP(index) {
  for (int r = 1; r <= 4; r++) shapes(r, r <= 3 ? 1 : 1, r <= 2 ? 4 : r == 3 ? 3 : 2, [&](const VI& s) {
    for (int len = 1; len <= r; len++) for (int way = 0; way < WAYS; way++) {
      Nd a = iota(s); Tensor t = make(a, DType::Float32, way);
      positions(s, len, [&](const VI& q) {
        if (r >= 3 && !thorough() && (q[0] + way + len) % 2) return;
        input("index shape %s (%s) at %s", str(s).c_str(), WN[way], str(q).c_str());
        eq("index", op::index(t, av(q)), sub(a, q));
      });
      unchanged("index-input", t, a);
    }
  });
  for (DType t : DT) for (int way = 0; way < WAYS; way++) for (VI s : {VI{3, 4}, VI{2, 3, 2}}) { Nd a = src(s, t); Tensor x = make(a, t, way);
    for (int len = 1; len <= (int)s.size(); len++) positions(s, len, [&](const VI& q) { input("index dtype %d shape %s (%s) at %s", (int)t, str(s).c_str(), WN[way], str(q).c_str()); Tensor r = op::index(x, av(q)); CHECK("index-dtype", r.dtype() == t, "dtype"); eq("index", r, sub(a, q)); }); }
}
GROUP(indexPut) {
  for (int r = 1; r <= 4; r++) shapes(r, 1, r <= 2 ? 4 : r == 3 ? 3 : 2, [&](const VI& s) {
    for (int len = 1; len <= r; len++) for (int way = 0; way < WAYS; way++) positions(s, len, [&](const VI& q) {
      if (r >= 3 && !thorough() && (q[0] + way + len) % 2) return;
      for (int kind = 0; kind < 3; kind++) {
        Nd a = iota(s); Tensor t = make(a, DType::Float32, way); Tensor cl = t.clone();
        VI vs(s.begin() + len, s.end()); Nd v = kind == 0 ? Nd({}, 500) : iota(vs, 600);
        if (kind == 2 && vs.empty()) { v = Nd({1}, 700); }
        Tensor tv = kind == 2 && !vs.empty() ? mkview(v) : mk(v);
        input("indexPut shape %s (%s) at %s value shape %s%s", str(s).c_str(), WN[way], str(q).c_str(), str(v.s).c_str(), kind == 2 ? " (slice)" : "");
        Nd e = a; putSub(e, q, v);
        op::indexPut(t, av(q), tv);
        eq("indexPut", t, e); unchanged("indexPut-clone", cl, a); unchanged("indexPut-value", tv, v);
      }
    });
  });
  for (DType t : DT) for (int way = 0; way < WAYS; way++) for (VI s : {VI{3, 4}, VI{2, 3, 2}}) for (int len = 1; len <= (int)s.size(); len++) positions(s, len, [&](const VI& q) {
    for (int kind = 0; kind < 2; kind++) {
      Nd a = src(s, t); Tensor x = make(a, t, way), h = x; VI vs(s.begin() + len, s.end()); Nd v = kind ? src(vs, t, 50) : src({}, t, 50);
      input("indexPut dtype %d shape %s (%s) at %s value shape %s", (int)t, str(s).c_str(), WN[way], str(q).c_str(), str(v.s).c_str());
      Nd e = a; putSub(e, q, v); op::indexPut(x, av(q), mk(v, t)); eq("indexPut", x, e); eq("indexPut-handle", h, e);
    }
  });
}
static Nd pick(const Nd& a, const std::vector<VI>& ix, const VI& ishape) {
  VI rs = ishape; VI tail(a.s.begin() + ix.size(), a.s.end()); rs.insert(rs.end(), tail.begin(), tail.end()); Nd r(rs);
  for (int64_t i = 0; i < prod(ishape); i++) { VI q; for (auto& v : ix) q.push_back(v[i]); Nd b = sub(a, q); for (int64_t k = 0; k < b.n(); k++) r.v[i * b.n() + k] = b.v[k]; }
  return r;
}
static void advCases(Rng& g, const VI& s, int n, const std::function<void(const std::vector<VI>&, const VI&)>& f) {
  for (int len = 1; len <= (int)s.size(); len++) for (int k = 0; k < n; k++) {
    VI is; int ir = (int)g.in(k == 0 ? 1 : 0, 2); for (int i = 0; i < ir; i++) is.push_back(g.in(k == n - 1 ? 0 : 1, 4));
    std::vector<VI> ix; for (int d = 0; d < len; d++) { VI v; for (int64_t i = 0; i < prod(is); i++) v.push_back(g.in(-s[d], s[d] - 1)); ix.push_back(v); }
    f(ix, is);
  }
}
GROUP(indexAdvance) {
  Rng g(seed());
  for (int r = 1; r <= 4; r++) shapes(r, 1, r <= 2 ? 4 : r == 3 ? 3 : 2, [&](const VI& s) {
    for (int way = 0; way < WAYS; way++) for (DType dt : DT) {
      if (dt != DType::Float32 && prod(s) % 3 != 0) continue;
      Nd a = src(s, dt); Tensor t = make(a, dt, way);
      advCases(g, s, thorough() ? 8 : 3, [&](const std::vector<VI>& ix, const VI& is) {
        std::vector<Tensor> ts; std::string d; for (auto& v : ix) { ts.push_back(mki(v, is)); d += str(v); }
        input("indexAdvance dtype %d shape %s (%s) index shape %s: %s", (int)dt, str(s).c_str(), WN[way], str(is).c_str(), d.c_str());
        eq("indexAdvance", op::indexAdvance(t, ArrayView<Tensor>(ts)), pick(a, ix, is));
      });
      unchanged("indexAdvance-input", t, a);
    }
  });
}
GROUP(indexPutAdvance) {
  Rng g(seed() + 1);
  for (int r = 1; r <= 4; r++) shapes(r, 1, r <= 2 ? 4 : r == 3 ? 3 : 2, [&](const VI& s) {
    for (int way = 0; way < WAYS; way++) for (DType dt : DT) {
      if (dt != DType::Float32 && prod(s) % 3 != 0) continue;
      advCases(g, s, thorough() ? 8 : 3, [&](const std::vector<VI>& ix, const VI& is) {
        std::vector<Tensor> ts; std::string d; for (auto& v : ix) { ts.push_back(mki(v, is)); d += str(v); }
        for (int scalar = 0; scalar < 2; scalar++) {
          Nd a = src(s, dt); Tensor t = make(a, dt, way), cl = t.clone(), h = t;
          VI vs = is; vs.insert(vs.end(), s.begin() + ix.size(), s.end()); Nd v = scalar ? src({}, dt, 90) : src(vs, dt, 40);
          Nd e = a; int64_t per = prod(VI(s.begin() + ix.size(), s.end()));
          for (int64_t i = 0; i < prod(is); i++) { VI q; for (auto& w : ix) q.push_back(w[i]); Nd p(VI(s.begin() + ix.size(), s.end())); for (int64_t k = 0; k < per; k++) p.v[k] = scalar ? v.v[0] : v.v[i * per + k]; putSub(e, q, p); }
          input("indexPutAdvance dtype %d shape %s (%s) index shape %s: %s value shape %s", (int)dt, str(s).c_str(), WN[way], str(is).c_str(), d.c_str(), str(v.s).c_str());
          Tensor tv = mk(v, dt);
          op::indexPutAdvance(t, ArrayView<Tensor>(ts), tv);
          eq("indexPutAdvance", t, e); eq("indexPutAdvance-handle", h, e); unchanged("indexPutAdvance-clone", cl, a); unchanged("indexPutAdvance-value", tv, v);
        }
      });
    }
  });
}
static void coordCases(Rng& g, int maxr, int n, const std::function<void(const VI&, int, const VI&, const VI&)>& f) {
  for (int r = 1; r <= maxr; r++) shapes(r, 1, r <= 2 ? 4 : r == 3 ? 3 : 2, [&](const VI& s) {
    for (int d = -r; d < r; d++) for (int k = 0; k < n; k++) {
      int dd = d < 0 ? d + r : d; VI is;
      for (int i = 0; i < r; i++) is.push_back(i == dd ? g.in(k == 1 ? 0 : 1, 4) : g.in(1, s[i]));
      if (k == 0) { is = s; }
      VI ix; for (int64_t i = 0; i < prod(is); i++) ix.push_back(g.in(-s[dd], s[dd] - 1));
      f(s, d, is, ix);
    }
  });
}
GROUP(gather) {
  Rng g(seed() + 2); int cnt = 0;
  coordCases(g, 4, thorough() ? 6 : 3, [&](const VI& s, int d, const VI& is, const VI& ix) {
    int dd = d < 0 ? d + (int)s.size() : d; int way = cnt % WAYS; DType dt = cnt % 5 == 0 ? DT[cnt / 5 % 6] : DType::Float32; cnt++;
    Nd a = src(s, dt), e(is); int64_t i = 0; each(is, [&](const VI& c) { VI q = c; q[dd] = ix[i] < 0 ? ix[i] + s[dd] : ix[i]; e.v[i++] = a.at(q); });
    input("gather dtype %d shape %s (%s) dim %d index shape %s: %s", (int)dt, str(s).c_str(), WN[way], d, str(is).c_str(), str(ix).c_str());
    Tensor t = make(a, dt, way), ti = mki(ix, is);
    eq("gather", cnt % 2 ? op::gather(t, d, ti) : function::gather(t, d, ti), e); unchanged("gather-input", t, a);
    Nd ei(is); for (size_t k = 0; k < ix.size(); k++) ei.v[k] = ix[k]; unchanged("gather-index", ti, ei);
  });
}
GROUP(scatter) {
  Rng g(seed() + 3); int cnt = 0;
  coordCases(g, 4, thorough() ? 6 : 3, [&](const VI& s, int d, const VI& is, const VI& ix0) {
    int dd = d < 0 ? d + (int)s.size() : d;
    for (int distinct = 0; distinct < 2; distinct++) {
      VI ix = ix0;
      int way = cnt % WAYS; DType dt = cnt % 5 == 0 ? DT[cnt / 5 % 6] : DType::Float32; cnt++;
      if (distinct) { if (is[dd] > s[dd]) continue; int64_t off = g.in(0, s[dd] - 1), k = 0; each(is, [&](const VI& c) { ix[k] = (c[dd] + off) % s[dd]; if (k % 2) ix[k] -= s[dd]; k++; }); }
      Nd a = src(s, dt), v = src(is, dt, 60), e = a;
      // repeated positions: any of the values written there is acceptable; record the set
      std::map<int64_t, std::set<double>> ok; int64_t i = 0;
      each(is, [&](const VI& c) { VI q = c; q[dd] = ix[i] < 0 ? ix[i] + s[dd] : ix[i]; ok[e.ix(q)].insert(v.v[i]); i++; });
      auto cmp = [&](const char* key, const Tensor& r) {
        geo(key, r); Nd got = rd(r); CHECK(key, got.s == s, "shape %s", str(got.s).c_str());
        for (int64_t k = 0; k < got.n(); k++) { auto it = ok.find(k); if (it == ok.end()) CHECK(key, same(got.v[k], a.v[k]), "element %s not addressed is %.9g, was %.9g", str(unravel(s, k)).c_str(), got.v[k], a.v[k]);
          else CHECK(key, it->second.count(got.v[k]), "element %s is %.9g, expected %.9g", str(unravel(s, k)).c_str(), got.v[k], *it->second.begin()); } };
      input("scatter dtype %d shape %s (%s) dim %d index shape %s: %s", (int)dt, str(s).c_str(), WN[way], d, str(is).c_str(), str(ix).c_str());
      Tensor t = make(a, dt, way), ti = mki(ix, is), tv = cnt % 3 ? mk(v, dt) : mkview(v, dt), cl = t.clone(), h = t;
      cmp("scatter", cnt % 2 ? op::scatter(t, d, ti, tv) : function::scatter(t, d, ti, tv)); unchanged("scatter-input", t, a);
      if (cnt % 2) op::scatterInplace(t, d, ti, tv); else if (cnt % 4) t.scatter_(d, ti, tv); else function::scatter_(t, d, ti, tv);
      cmp("scatterInplace", t); cmp("scatterInplace-handle", h); unchanged("scatter-clone", cl, a); unchanged("scatter-src", tv, v);
    }
  });
}
GROUP(indexSelect) {
  Rng g(seed() + 4); int cnt = 0;
  for (int r = 1; r <= 4; r++) shapes(r, r <= 2 ? 0 : 1, r <= 2 ? 4 : r == 3 ? 3 : 2, [&](const VI& s) {
    for (int d = -r; d < r; d++) for (int k = 0; k < 4; k++) {
      int dd = d < 0 ? d + r : d; if (s[dd] == 0) continue; int way = cnt % WAYS; DType dt = cnt % 5 == 0 ? DT[cnt / 5 % 6] : DType::Float32; cnt++;
      VI ix; int64_t n = k == 0 ? 0 : g.in(1, 5); for (int64_t i = 0; i < n; i++) ix.push_back(g.in(-s[dd], s[dd] - 1));
      VI rs = s; rs[dd] = n; Nd a = src(s, dt), e(rs); each(rs, [&](const VI& c) { VI q = c; q[dd] = ix[c[dd]] < 0 ? ix[c[dd]] + s[dd] : ix[c[dd]]; e.at(c) = a.at(q); });
      input("indexSelect dtype %d shape %s (%s) dim %d positions %s", (int)dt, str(s).c_str(), WN[way], d, str(ix).c_str());
      Tensor t = prod(s) ? make(a, dt, way) : mk(a, dt); eq("indexSelect", cnt % 2 ? op::indexSelect(t, d, mki(ix, {n})) : function::indexSelect(t, d, mki(ix, {n})), e); unchanged("indexSelect-input", t, a);
    }
  });
}
MAIN
