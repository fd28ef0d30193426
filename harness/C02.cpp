// C02: writes through one tensor.  Oracle: a heap of values; a handle refers to a value, a derivation makes a new value,
// an in-place writer changes the value its handle refers to, a compound assignment / member reshape re-binds one handle.
#include "common.h"
#include <memory>
typedef std::shared_ptr<Nd> P;
struct Slot { Tensor t; P v; };
static Nd transp(const Nd& a, int i, int j) { VI p = a.s; std::swap(p[i], p[j]); Nd r(p); each(p, [&](const VI& c) { VI q = c; std::swap(q[i], q[j]); r.at(c) = a.at(q); }); return r; }
static Nd narrowN(const Nd& a, int d, int64_t st, int64_t len) { VI s = a.s; s[d] = len; Nd r(s); each(s, [&](const VI& c) { VI q = c; q[d] += st; r.at(c) = a.at(q); }); return r; }
static Nd reshN(const Nd& a, const VI& s) { Nd r(s); r.v = a.v; return r; }

// ---- derivations: new tensor (and its value) from an existing one; rng picks arguments.  returns false when not applicable
struct Derive { const char* n; std::function<bool(Rng&, const Slot&, Slot&)> f; };
static Slot mkslot(Tensor t, Nd v) { return {std::move(t), std::make_shared<Nd>(std::move(v))}; }
static VI halfShape(const Nd& a, Rng& g) {
  int64_t n = a.n(); std::vector<VI> c = {{n}, {1, n}, {n, 1}};
  for (int64_t k = 2; k < n; k++) if (n % k == 0) { c.push_back({k, n / k}); c.push_back({k, 1, n / k}); }
  return c[g.in(0, (int64_t)c.size() - 1)];
}
static std::vector<Derive> derives() {
  std::vector<Derive> d;
  auto A = [&](const char* n, std::function<bool(Rng&, const Slot&, Slot&)> f) { d.push_back({n, f}); };
  A("clone", [](Rng&, const Slot& s, Slot& o) { o = mkslot(s.t.clone(), *s.v); return true; });
  A("reshape", [](Rng& g, const Slot& s, Slot& o) { VI q = halfShape(*s.v, g); o = mkslot(s.t.reshape(av(q)), reshN(*s.v, q)); return true; });
  A("op::reshape", [](Rng& g, const Slot& s, Slot& o) { VI q = halfShape(*s.v, g); o = mkslot(op::reshape(s.t, av(q)), reshN(*s.v, q)); return true; });
  A("view", [](Rng& g, const Slot& s, Slot& o) { VI q = halfShape(*s.v, g); o = mkslot(s.t.view(av(q)), reshN(*s.v, q)); return true; });
  A("flatten", [](Rng&, const Slot& s, Slot& o) { o = mkslot(s.t.flatten(), reshN(*s.v, {s.v->n()})); return true; });
  A("unsqueeze", [](Rng& g, const Slot& s, Slot& o) { if (s.v->s.size() > 4) return false; int64_t d = g.in(0, (int64_t)s.v->s.size()); VI q = s.v->s; q.insert(q.begin() + d, 1); o = mkslot(s.t.unsqueeze(d), reshN(*s.v, q)); return true; });
  A("squeeze", [](Rng&, const Slot& s, Slot& o) { for (size_t i = 0; i < s.v->s.size(); i++) if (s.v->s[i] == 1 && s.v->s.size() > 1) { VI q = s.v->s; q.erase(q.begin() + i); o = mkslot(s.t.squeeze((int64_t)i), reshN(*s.v, q)); return true; } return false; });
  A("squeeze of a non-unit dimension", [](Rng&, const Slot& s, Slot& o) { for (size_t i = 0; i < s.v->s.size(); i++) if (s.v->s[i] != 1) { o = mkslot(s.t.squeeze((int64_t)i), *s.v); return true; } return false; });
  A("unflatten", [](Rng&, const Slot& s, Slot& o) { if (s.v->s.empty() || s.v->s.size() > 4) return false; VI q = s.v->s; VI arg = {1, q[0]}; q.insert(q.begin(), 1); o = mkslot(s.t.unflatten(0, av(arg)), reshN(*s.v, q)); return true; });
  A("index", [](Rng& g, const Slot& s, Slot& o) { if (s.v->s.size() < 2) return false; int64_t i = g.in(0, s.v->s[0] - 1); VI q(s.v->s.begin() + 1, s.v->s.end()); o = mkslot(op::index(s.t, IntArrayView{i}), reshN(narrowN(*s.v, 0, i, 1), q)); return true; });
  A("narrow", [](Rng& g, const Slot& s, Slot& o) { if (s.v->s.empty()) return false; int dd = (int)g.in(0, (int64_t)s.v->s.size() - 1); int64_t n = s.v->s[dd], st = g.in(0, n - 1), l = g.in(1, n - st); o = mkslot(s.t.narrow(dd, st, l), narrowN(*s.v, dd, st, l)); return true; });
  A("narrow of everything", [](Rng&, const Slot& s, Slot& o) { if (s.v->s.empty()) return false; o = mkslot(s.t.narrow(0, 0, s.v->s[0]), *s.v); return true; });
  A("split", [](Rng& g, const Slot& s, Slot& o) { if (s.v->s.empty()) return false; int64_t n = s.v->s[0]; auto r = s.t.split(1, 0); int64_t k = g.in(0, n - 1); o = mkslot(r[k], narrowN(*s.v, 0, k, 1)); return true; });
  A("chunk", [](Rng&, const Slot& s, Slot& o) { if (s.v->s.empty()) return false; auto r = s.t.chunk(1, 0); o = mkslot(r[0], *s.v); return true; });
  A("transpose", [](Rng& g, const Slot& s, Slot& o) { int64_t n = (int64_t)s.v->s.size(); if (n < 2) return false; int i = (int)g.in(0, n - 1), j = (int)g.in(0, n - 1); o = mkslot(s.t.transpose(i, j), transp(*s.v, i, j)); return true; });
  A("permute to the same order", [](Rng&, const Slot& s, Slot& o) { VI q; for (size_t i = 0; i < s.v->s.size(); i++) q.push_back((int64_t)i); if (q.empty()) return false; o = mkslot(s.t.permute(av(q)), *s.v); return true; });
  A("expand to the same shape", [](Rng&, const Slot& s, Slot& o) { if (s.v->s.empty()) return false; o = mkslot(op::expand(s.t, av(s.v->s)), *s.v); return true; });
  A("to(same type)", [](Rng&, const Slot& s, Slot& o) { (void)o; Tensor c = s.t.clone(); o = mkslot(c.to(DType::Float32), *s.v); return true; });
  A("sum over no unit dimension", [](Rng&, const Slot& s, Slot& o) { if (s.v->s.empty() || s.v->s.back() != 1) return false; VI q = s.v->s; q.pop_back(); o = mkslot(s.t.sum(-1), reshN(*s.v, q)); return true; });
  A("concat of one", [](Rng&, const Slot& s, Slot& o) { if (s.v->s.empty()) return false; std::vector<Tensor> ts = {s.t}; o = mkslot(op::concat(ArrayView<Tensor>(ts), 0), *s.v); return true; });
  A("copy constructed then reshaped twice", [](Rng& g, const Slot& s, Slot& o) { Tensor h(s.t); VI q = halfShape(*s.v, g), w = halfShape(*s.v, g); o = mkslot(h.reshape(av(q)).reshape(av(w)), reshN(*s.v, w)); return true; });
  return d;
}
// ---- in-place writers: change the value x refers to (y: another slot used as operand)
struct Write { const char* n; std::function<bool(Rng&, Slot&, const Slot&, int)> f; };
static std::vector<Write> writes() {
  std::vector<Write> d;
  auto A = [&](const char* n, std::function<bool(Rng&, Slot&, const Slot&, int)> f) { d.push_back({n, f}); };
  A("fill_", [](Rng&, Slot& x, const Slot&, int k) { x.t.fill_(k); for (auto& e : x.v->v) e = k; return true; });
  A("fillZero_", [](Rng&, Slot& x, const Slot&, int) { x.t.fillZero_(); for (auto& e : x.v->v) e = 0; return true; });
  A("fillOne_", [](Rng&, Slot& x, const Slot&, int) { x.t.fillOne_(); for (auto& e : x.v->v) e = 1; return true; });
  A("fillLinSpace_", [](Rng&, Slot& x, const Slot&, int k) { x.t.fillLinSpace_(k, 2, x.v->n()); for (int64_t i = 0; i < x.v->n(); i++) x.v->v[i] = k + 2 * i; return true; });
  A("fillMasked_", [](Rng& g, Slot& x, const Slot&, int k) { Nd m(x.v->s); for (auto& e : m.v) e = g.coin(); x.t.fillMasked_(mk(m, DType::Bool), k); for (int64_t i = 0; i < m.n(); i++) if (m.v[i]) x.v->v[i] = k; return true; });
  A("op::fillMaskedOut", [](Rng& g, Slot& x, const Slot& y, int k) { if (x.v->s != y.v->s) return false; Nd m(x.v->s); for (auto& e : m.v) e = g.coin(); Nd w = *y.v; op::fillMaskedOut(x.t, y.t, mk(m, DType::Bool), k); for (int64_t i = 0; i < m.n(); i++) x.v->v[i] = m.v[i] ? k : w.v[i]; return true; });
  A("op::fillOffset", [](Rng& g, Slot& x, const Slot&, int k) { int64_t n = x.v->n(), o = g.in(0, n - 1), c = g.in(1, n - o); op::fillOffset(x.t, Tensor::scalar(k, options::dtype(DType::Float32)), o, c); for (int64_t i = o; i < o + c; i++) x.v->v[i] = k; return true; });
  A("copy_", [](Rng&, Slot& x, const Slot& y, int) { if (x.v->s != y.v->s) return false; x.t.copy_(y.t); x.v->v = Nd(*y.v).v; return true; });
  A("scatter_", [](Rng& g, Slot& x, const Slot&, int k) { if (x.v->s.empty()) return false; VI is = x.v->s; is[0] = 1; int64_t p = g.in(0, x.v->s[0] - 1); VI ix(prod(is), p); Nd v = iota(is, k); x.t.scatter_(0, mki(ix, is), mk(v)); int64_t i = 0; each(is, [&](const VI& c) { VI q = c; q[0] = p; x.v->at(q) = v.v[i++]; }); return true; });
  A("op::indexPut", [](Rng& g, Slot& x, const Slot&, int k) { if (x.v->s.empty()) return false; int64_t p = g.in(0, x.v->s[0] - 1), b = x.v->n() / x.v->s[0]; VI vs(x.v->s.begin() + 1, x.v->s.end()); Nd v = iota(vs, k); if (g.coin()) { v = Nd({}, k); op::indexPut(x.t, IntArrayView{p}, mk(v)); } else op::indexPut(x.t, IntArrayView{p}, mk(v)); for (int64_t i = 0; i < b; i++) x.v->v[p * b + i] = v.n() == 1 ? v.v[0] : v.v[i]; return true; });
  A("op::indexPutAdvance", [](Rng& g, Slot& x, const Slot&, int k) { if (x.v->s.empty()) return false; int64_t p = g.in(0, x.v->s[0] - 1), b = x.v->n() / x.v->s[0]; std::vector<Tensor> ix = {mki({p}, {1})}; op::indexPutAdvance(x.t, ArrayView<Tensor>(ix), Tensor::scalar(k, options::dtype(DType::Float32))); for (int64_t i = 0; i < b; i++) x.v->v[p * b + i] = k; return true; });
  A("op::indexPutAdvance of single elements", [](Rng& g, Slot& x, const Slot&, int k) { if (x.v->s.size() != 2) return false; int64_t p = g.in(0, x.v->s[0] - 1), q = g.in(0, x.v->s[1] - 1); std::vector<Tensor> ix = {mki({p}, {1}), mki({q}, {1})}; op::indexPutAdvance(x.t, ArrayView<Tensor>(ix), Tensor::scalar(k, options::dtype(DType::Float32))); x.v->at({p, q}) = k; return true; });
#define UN(nm, expr) A("op::" #nm "Inplace", [](Rng&, Slot& x, const Slot&, int) { op::nm##Inplace(x.t); for (auto& e : x.v->v) { float a = (float)e; e = (float)(expr); } return true; }); \
  A("op::" #nm "Out", [](Rng&, Slot& x, const Slot& y, int) { if (x.v->s != y.v->s) return false; Nd w = *y.v; op::nm##Out(x.t, y.t); for (int64_t i = 0; i < w.n(); i++) { float a = (float)w.v[i]; x.v->v[i] = (float)(expr); } return true; });
  UN(abs, std::fabs(a)) UN(neg, -a) UN(sign, a > 0 ? 1 : a < 0 ? -1 : 0) UN(relu, a > 0 ? a : 0)
#define BI(nm, expr) A("op::" #nm "Inplace", [](Rng&, Slot& x, const Slot& y, int) { if (x.v->s != y.v->s) return false; Nd w = *y.v; op::nm##Inplace(x.t, y.t); for (int64_t i = 0; i < w.n(); i++) { float a = (float)x.v->v[i], b = (float)w.v[i]; x.v->v[i] = (float)(expr); } return true; });
  BI(mul, a * b) BI(clampMin, a < b ? b : a) BI(clampMax, a > b ? b : a)
#define BO(nm, expr) A("op::" #nm "Out", [](Rng&, Slot& x, const Slot& y, int) { if (x.v->s != y.v->s) return false; Nd w = *y.v; op::nm##Out(x.t, y.t, y.t); for (int64_t i = 0; i < w.n(); i++) { float a = (float)w.v[i], b = a; x.v->v[i] = (float)(expr); } return true; });
  BO(mul, a * b) BO(maximum, a > b ? a : b) BO(minimum, a < b ? a : b)
  A("op::addInplace", [](Rng&, Slot& x, const Slot& y, int) { if (x.v->s != y.v->s) return false; Nd w = *y.v; op::addInplace(x.t, y.t, 1); for (int64_t i = 0; i < w.n(); i++) x.v->v[i] = (float)x.v->v[i] + (float)w.v[i]; return true; });
  A("op::addInplace scalar", [](Rng&, Slot& x, const Slot&, int k) { op::addInplace(x.t, Tensor::scalar(k, options::dtype(DType::Float32)), 1); for (auto& e : x.v->v) e = (float)e + (float)k; return true; });
  A("op::subInplace", [](Rng&, Slot& x, const Slot&, int k) { op::subInplace(x.t, mk(Nd(x.v->s, k)), 1); for (auto& e : x.v->v) e = (float)e - (float)k; return true; });
  A("op::divInplace", [](Rng&, Slot& x, const Slot&, int) { op::divInplace(x.t, mk(Nd(x.v->s, 2))); for (auto& e : x.v->v) e = (float)e / 2.f; return true; });
  A("op::powInplace", [](Rng&, Slot& x, const Slot&, int) { op::powInplace(x.t, mk(Nd(x.v->s, 1))); return true; });
  A("op::addOut", [](Rng&, Slot& x, const Slot& y, int k) { if (x.v->s != y.v->s) return false; Nd w = *y.v; op::addOut(x.t, y.t, mk(Nd(w.s, k)), 1); for (int64_t i = 0; i < w.n(); i++) x.v->v[i] = (float)w.v[i] + (float)k; return true; });
  A("op::clampInplace", [](Rng&, Slot& x, const Slot&, int k) { op::clampInplace(x.t, mk(Nd(x.v->s, -3)), mk(Nd(x.v->s, k))); for (auto& e : x.v->v) e = std::min<double>(std::max<double>(e, -3), k); return true; });
  A("op::addcmulInplace", [](Rng&, Slot& x, const Slot&, int k) { op::addcmulInplace(x.t, mk(Nd(x.v->s, 2)), mk(Nd(x.v->s, k)), 1); for (auto& e : x.v->v) e = (float)e + 2.f * (float)k; return true; });
  A("op::addcmulOut", [](Rng&, Slot& x, const Slot& y, int k) { if (x.v->s != y.v->s) return false; Nd w = *y.v; op::addcmulOut(x.t, y.t, mk(Nd(w.s, 2)), mk(Nd(w.s, k)), 1); for (int64_t i = 0; i < w.n(); i++) x.v->v[i] = (float)w.v[i] + 2.f * (float)k; return true; });
  A("op::softmaxOut", [](Rng&, Slot& x, const Slot&, int) { if (x.v->s.empty()) return false; Nd z(x.v->s, 0); op::softmaxOut(x.t, mk(Nd(VI(x.v->s), 1)), 0); Nd r = rd(x.t); for (auto& e : r.v) if (std::fabs(e - 1.0 / x.v->s[0]) > 1e-6) return true; x.v->v = r.v; return true; });
  A("fillUniform_", [](Rng&, Slot& x, const Slot&, int k) { x.t.fillUniform_(k, k + 1.f); Nd r = rd(x.t); for (auto& e : r.v) if (e < k || e > k + 1) return true; x.v->v = r.v; return true; });
  A("fillNormal_", [](Rng&, Slot& x, const Slot&, int k) { x.t.fillNormal_(k, 0.f + 1e-3f); Nd r = rd(x.t); for (auto& e : r.v) if (std::fabs(e - k) > 1) return true; x.v->v = r.v; return true; });
  A("fillBernoulli_", [](Rng&, Slot& x, const Slot&, int) { x.t.fillBernoulli_(0.5f); Nd r = rd(x.t); for (auto& e : r.v) if (e != 0 && e != 1) return true; x.v->v = r.v; return true; });
  return d;
}
// ---- re-binding: the handle gets a new value; other handles keep the old one
struct Bind { const char* n; std::function<bool(Rng&, Slot&, const Slot&, int)> f; };
static std::vector<Bind> binds() {
  std::vector<Bind> d;
  auto A = [&](const char* n, std::function<bool(Rng&, Slot&, const Slot&, int)> f) { d.push_back({n, f}); };
#define CO(op_) A("operator" #op_, [](Rng&, Slot& x, const Slot& y, int) { if (x.v->s != y.v->s) return false; Nd r = *x.v; for (int64_t i = 0; i < r.n(); i++) { float a = (float)r.v[i]; a op_ (float)y.v->v[i]; r.v[i] = a; } x.t op_ y.t; x.v = std::make_shared<Nd>(r); return true; }); \
  A("operator" #op_ " scalar", [](Rng&, Slot& x, const Slot&, int k) { Nd r = *x.v; for (int64_t i = 0; i < r.n(); i++) { float a = (float)r.v[i]; a op_ (float)k; r.v[i] = a; } x.t op_ Scalar(k); x.v = std::make_shared<Nd>(r); return true; });
  CO(+=) CO(-=) CO(*=)
  A("reshape_", [](Rng& g, Slot& x, const Slot&, int) { VI q = halfShape(*x.v, g); Nd r = reshN(*x.v, q); x.t.reshape_(av(q)); x.v = std::make_shared<Nd>(r); return true; });
  A("flatten_", [](Rng&, Slot& x, const Slot&, int) { Nd r = reshN(*x.v, {x.v->n()}); x.t.flatten_(); x.v = std::make_shared<Nd>(r); return true; });
  A("unsqueeze_", [](Rng&, Slot& x, const Slot&, int) { if (x.v->s.size() > 4) return false; VI q = x.v->s; q.insert(q.begin(), 1); Nd r = reshN(*x.v, q); x.t.unsqueeze_(0); x.v = std::make_shared<Nd>(r); return true; });
  A("squeeze_", [](Rng&, Slot& x, const Slot&, int) { for (size_t i = 0; i < x.v->s.size(); i++) if (x.v->s[i] == 1 && x.v->s.size() > 1) { VI q = x.v->s; q.erase(q.begin() + i); Nd r = reshN(*x.v, q); x.t.squeeze_((int64_t)i); x.v = std::make_shared<Nd>(r); return true; } return false; });
  A("transpose_", [](Rng&, Slot& x, const Slot&, int) { if (x.v->s.size() < 2) return false; Nd r = transp(*x.v, 0, 1); x.t.transpose_(0, 1); x.v = std::make_shared<Nd>(r); return true; });
  A("assignment", [](Rng&, Slot& x, const Slot& y, int) { x.t = y.t; x.v = y.v; return true; });
  A("move assignment of a copy", [](Rng&, Slot& x, const Slot& y, int) { Tensor h = y.t; x.t = std::move(h); x.v = y.v; return true; });
  return d;
}
static void checkAll(const std::vector<Slot>& ss, const char* what) {
  for (size_t i = 0; i < ss.size(); i++) {
    const Nd& e = *ss[i].v; const Tensor& t = ss[i].t; geo(what, t); VI s = shp(t);
    CHECK(what, s == e.s, "tensor %zu has shape %s, expected %s", i, str(s).c_str(), str(e.s).c_str());
    Nd g = rd(t); for (int64_t k = 0; k < g.n(); k++) CHECK(what, same(g.v[k], e.v[k]), "tensor %zu element %s is %.9g, expected %.9g", i, str(unravel(s, k)).c_str(), g.v[k], e.v[k]);
    if (!e.v.empty()) { auto l = t.toList<float>(); CHECK(what, (int64_t)l.size() == e.n() && same(l[0], e.v[0]), "toList of tensor %zu", i); }
  }
}
// every derivation (of a derivation) x every writer, writing to each of the three tensors and through a copied handle
GROUP(pairs) {
  auto D = derives(); auto W = writes(); Rng g(seed());
  NoGradGuard ng;
  for (auto& d1 : D) for (auto& w : W) for (int which = 0; which < 3; which++) for (VI s : {VI{2, 3}, VI{4}, VI{2, 1, 3}}) {
    Slot a = mkslot(mk(iota(s)), iota(s)), b, c; if (!d1.f(g, a, b)) continue;
    auto& d2 = D[g.in(0, (int64_t)D.size() - 1)]; bool h2 = d2.f(g, b, c);
    std::vector<Slot> ss = {a, b}; if (h2) ss.push_back(c);
    if (which >= (int)ss.size()) continue;
    Slot same_ = mkslot(ss[which].t.clone(), *ss[which].v); for (auto& e : same_.v->v) e += 0;
    Slot operand = mkslot(mk(Nd(ss[which].v->s, 7)), Nd(ss[which].v->s, 7));
    for (int kind = 0; kind < 3; kind++) {  // operand: fresh tensor, clone of the written one, the written one itself
      Slot x = {ss[which].t, ss[which].v}; const Slot& y = kind == 0 ? operand : kind == 1 ? same_ : x;
      input("shape %s, %s, then %s of that%s; %s on tensor %d (operand kind %d) through a copied handle", str(s).c_str(), d1.n, h2 ? d2.n : "nothing", h2 ? "" : "", w.n, which, kind);
      if (!w.f(g, x, y, 10 + kind)) continue;
      std::vector<Slot> all = ss; all.push_back(operand); all.push_back(same_); all.push_back(x); checkAll(all, "write");
    }
  }
}
static void history(Rng& g, int len, bool grad) {
  static auto D = derives(); static auto W = writes(); static auto B = binds();
  std::vector<Slot> ss; std::string log;
  for (int i = 0; i < 2; i++) { VI s; int r = (int)g.in(1, 3); for (int k = 0; k < r; k++) s.push_back(g.in(1, 3)); Nd a = iota(s, 10 * i + 1); ss.push_back(mkslot(mk(a, DType::Float32, grad && i == 0), a)); log += "t" + std::to_string(i) + str(s) + ";"; }
  for (int k = 0; k < len; k++) {
    size_t i = g.in(0, (int64_t)ss.size() - 1), j = g.in(0, (int64_t)ss.size() - 1); int op_ = (int)g.in(0, 9);
    // prefer an operand of the same shape
    for (int tries = 0; tries < 4 && ss[j].v->s != ss[i].v->s; tries++) j = g.in(0, (int64_t)ss.size() - 1);
    std::string st; bool did = false;
    if (op_ < 4) {
      auto& d = D[g.in(0, (int64_t)D.size() - 1)]; st = std::string(d.n) + "(t" + std::to_string(i) + ")"; size_t dst = ss.size() < 7 ? ss.size() : g.in(0, (int64_t)ss.size() - 1);
      st = "t" + std::to_string(dst) + "=" + st; input("%s%s", log.c_str(), st.c_str());
      Slot o; did = d.f(g, ss[i], o); if (did) { if (dst == ss.size()) ss.push_back(o); else ss[dst] = o; }
    } else if (op_ < 8) {
      auto& w = W[g.in(0, (int64_t)W.size() - 1)]; st = std::string(w.n) + "(t" + std::to_string(i) + ",t" + std::to_string(j) + ")"; input("%s%s", log.c_str(), st.c_str());
      NoGradGuard ng; Slot y = ss[j]; did = w.f(g, ss[i], y, (int)g.in(2, 9));
    } else {
      auto& b = B[g.in(0, (int64_t)B.size() - 1)]; st = "t" + std::to_string(i) + " " + b.n + " t" + std::to_string(j); input("%s%s", log.c_str(), st.c_str());
      Slot y = ss[j]; did = b.f(g, ss[i], y, (int)g.in(2, 4));
    }
    if (did) { log += st + ";"; checkAll(ss, "history"); }
    bool big = false; for (auto& s : ss) for (auto e : s.v->v) if (std::fabs(e) > 1e30) big = true; if (big) return;
  }
}
GROUP(history) { Rng g(seed() * 7 + 1); NoGradGuard ng; for (int i = 0; i < (thorough() ? 20000 : 2500); i++) history(g, 18, false); }
GROUP(historyRecording) { Rng g(seed() * 7 + 3); for (int i = 0; i < (thorough() ? 12000 : 1500); i++) history(g, 14, i % 2); }
// element types other than float: clone / reshape / slice, then fill, copy, scatter, index assignment
GROUP(types) {
  for (DType dt : {DType::Float16, DType::BFloat16, DType::Int32, DType::Int64, DType::Bool}) for (int way = 0; way < 4; way++) for (int wr = 0; wr < 5; wr++) for (int who = 0; who < 2; who++) {
    Nd a = iota({4, 3}); if (dt == DType::Bool) for (auto& x : a.v) x = ((int64_t)x) % 2;
    Tensor t = mk(a, dt); Nd dv = way == 2 ? Nd({3}) : way == 1 ? reshN(a, {3, 4}) : way == 3 ? reshN(a, {12}) : a; if (way == 2) for (int i = 0; i < 3; i++) dv.v[i] = a.v[3 + i];
    Tensor d = way == 0 ? t.clone() : way == 1 ? t.reshape({3, 4}) : way == 2 ? op::index(t, IntArrayView{1}) : t.flatten();
    input("dtype %d derivation %d writer %d on %s", (int)dt, way, wr, who ? "derived" : "source");
    Tensor x = who ? d : t; Nd& v = who ? dv : a; int64_t b = v.n() / v.s[0];
    switch (wr) {
      case 0: x.fill_(1); for (auto& e : v.v) e = 1; break;
      case 1: { Nd m = v; for (size_t i = 0; i < m.v.size(); i++) m.v[i] = i % 2; x.fillMasked_(mk(m, DType::Bool), 0); for (size_t i = 0; i < m.v.size(); i++) if (i % 2) v.v[i] = 0; break; }
      case 2: { Nd c(v.s, 1); x.copy_(mk(c, dt)); v = c; break; }
      case 3: op::indexPut(x, IntArrayView{0}, mk(Nd({}, 1), dt)); for (int64_t i = 0; i < b; i++) v.v[i] = 1; break;
      case 4: { VI is = v.s; is[0] = 1; Nd c(is, 1); x.scatter_(0, mki(VI(prod(is), 2), is), mk(c, dt)); for (int64_t i = 0; i < b; i++) v.v[2 * b + i] = 1; break; }
    }
    eq("types-source", t, a); eq("types-derived", d, dv); CHECK("types", t.dtype() == dt && d.dtype() == dt, "dtype");
  }
}
MAIN
