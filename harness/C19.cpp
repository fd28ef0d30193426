// C19: creation, filling, type conversion, random fills
#include "common.h"
#include "Utils/RandomGenerator.h"
#include "Initializer.h"
using namespace H;
static const std::vector<DType> DT = {DType::Float32, DType::Int64, DType::Int32, DType::Bool, DType::Float16, DType::BFloat16};
static const std::vector<VI> SH = {{}, {0}, {1}, {2}, {7}, {64}, {2, 3}, {3, 1}, {1, 5}, {0, 3}, {3, 0}, {2, 3, 4}, {1, 1, 1}, {5, 2, 3}, {2, 2, 2, 2}, {2, 1, 3, 1, 2}, {130}, {17, 33}};
static bool f16(DType d) { return d == DType::Float16 || d == DType::BFloat16; }
static Options od(DType d) { return options::dtype(d); }
GROUP(constant) {
  Rng r(seed());
  for (auto& s : SH) for (auto d : DT) {
    for (int k = 0; k < 4; k++) {
      double v = d == DType::Bool ? (double)r.coin() : (double)r.in(-9, 9);
      std::vector<Scalar> forms = {Scalar((float)v), Scalar((int32_t)v), Scalar((int64_t)v)}; if (v == 0 || v == 1) forms.push_back(Scalar(v != 0));
      forms.push_back(Scalar(Half((float)v))); forms.push_back(Scalar(BFloat16((float)v)));
      for (auto& sc : forms) {
        input("fill of shape %s type %d with %g given as type %d", str(s).c_str(), (int)d, v, (int)sc.dtype());
        Tensor a = Tensor::full(av(s), sc, od(d)); CHECK("full", a.dtype() == d, "element type"); eq("full", a, Nd(s, v));
        Tensor b = mk(iota(s), d), c = b; Tensor cl = b.clone(); Nd o = rd(cl); b.fill_(sc); eq("fill", b, Nd(s, v)); eq("fill", c, Nd(s, v)); unchanged("fill", cl, o);
        Tensor l = Tensor::fullLike(cl, sc); eq("fullLike", l, Nd(s, v)); CHECK("fullLike", l.dtype() == d, "element type"); unchanged("fullLike", cl, o);
        Tensor l2 = Tensor::fullLike(cl, sc, od(DType::Int32)); eq("fullLike", l2, Nd(s, v)); CHECK("fullLike", l2.dtype() == DType::Int32, "element type");
        Tensor sca = Tensor::scalar(sc, od(d)); eq("scalar", sca, Nd({}, v));
      }
    }
    input("zeros, ones, empty of shape %s type %d", str(s).c_str(), (int)d);
    eq("zeros", Tensor::zeros(av(s), od(d)), Nd(s, 0)); eq("ones", Tensor::ones(av(s), od(d)), Nd(s, 1)); geo("empty", Tensor::empty(av(s), od(d)));
    Tensor b = mk(iota(s), d); Nd o = rd(b); Tensor z = Tensor::zerosLike(b), n = Tensor::onesLike(b);
    eq("zerosLike", z, Nd(s, 0)); eq("onesLike", n, Nd(s, 1)); CHECK("onesLike", z.dtype() == d && n.dtype() == d, "element type"); unchanged("onesLike", b, o);
    Tensor z2 = Tensor::zerosLike(b, od(DType::Float32)), n2 = Tensor::onesLike(b, od(DType::Bool)); eq("zerosLike", z2, Nd(s, 0)); eq("onesLike", n2, Nd(s, 1)); CHECK("onesLike", z2.dtype() == DType::Float32 && n2.dtype() == DType::Bool, "element type");
    b.fillZero_(); eq("fillZero", b, Nd(s, 0)); b.fillOne_(); eq("fillOne", b, Nd(s, 1));
    if (d == DType::Float32) { nn::Initializer::zeros(b); eq("Initializer::zeros", b, Nd(s, 0)); nn::Initializer::ones(b); eq("Initializer::ones", b, Nd(s, 1)); }
  }
  // non-integral values and conversions
  for (double v : {0.5, -2.75, 1e-3, 65504.0, 3e38, -0.0}) { input("fill with %g", v); eq("full", Tensor::full({3}, (float)v), Nd({3}, (double)(float)v)); }
  input("fill Int64 with -2.75"); eq("full", Tensor::full({3}, -2.75f, od(DType::Int64)), Nd({3}, -2));
  input("fill Int64 with 2^53"); eq("full", Tensor::full({3}, (int64_t)1 << 53, od(DType::Int64)), Nd({3}, 9007199254740992.0));
  // filling a view writes only the view
  for (int rep = 0; rep < 40; rep++) {
    VI s; int nd = (int)r.in(1, 3); for (int i = 0; i < nd; i++) s.push_back(r.in(1, 4)); VI b = s; b.insert(b.begin(), 4); int64_t at = r.in(0, 3);
    Tensor big = mk(iota(b)); Nd o = rd(big); Tensor v = op::index(big, IntArrayView{at}); input("fill of entry %lld of a tensor of shape %s", (long long)at, str(b).c_str());
    v.fill_(-5); eq("fill.view", v, Nd(s, -5)); Nd g = rd(big), w = o; for (int64_t i = 0; i < prod(s); i++) w.v[at * prod(s) + i] = -5;
    CHECK("fill.view", g.v == o.v || g.v == w.v, "an element outside the view changed");
  }
  // part of a tensor
  for (auto d : DT) for (int rep = 0; rep < 30; rep++) {
    int64_t n = r.in(1, 40), off = r.in(0, n), cnt = r.in(0, n - off); Nd a = iota({n}); if (d == DType::Bool) a = Nd({n}, 1); Tensor t = mk(a, d), cl = t.clone(); double v = d == DType::Bool ? 0 : (double)r.in(-9, -1);
    input("fillOffset of %lld elements from %lld of %lld, type %d", (long long)cnt, (long long)off, (long long)n, (int)d);
    op::fillOffset(t, Tensor::scalar((float)v, od(d)), off, cnt); Nd e = a; for (int64_t i = off; i < off + cnt; i++) e.v[i] = v; eq("fillOffset", t, e); unchanged("fillOffset", cl, a);
  }
}
GROUP(masked) {
  Rng r(seed() + 1);
  for (auto& s : SH) for (auto d : DT) for (int rep = 0; rep < 3; rep++) {
    Nd a = d == DType::Bool ? rndi(s, r, 0, 1) : rndi(s, r, -50, 50), m = rndi(s, r, 0, 1); double v = d == DType::Bool ? (double)r.coin() : (double)r.in(-9, 9);
    Tensor t = mk(a, d), mt = mk(m, DType::Bool); Nd e = a; for (int64_t i = 0; i < e.n(); i++) if (m.v[i]) e.v[i] = v;
    input("masked fill of shape %s type %d with %g, mask %s", str(s).c_str(), (int)d, v, strv(m.v).c_str()); Scalar sc = Scalar((float)v);
    Tensor o = op::fillMasked(t, mt, sc); eq("fillMasked", o, e); CHECK("fillMasked", o.dtype() == d, "element type"); unchanged("fillMasked", t, a); unchanged("fillMasked", mt, m);
    Tensor q = mk(Nd(s, 1), d), qc = q.clone(); op::fillMaskedOut(q, t, mt, sc); eq("fillMaskedOut", q, e); unchanged("fillMaskedOut", t, a); unchanged("fillMaskedOut", qc, Nd(s, 1));
    Tensor x = t.clone(); x.fillMasked_(mt, sc); eq("fillMasked_", x, e); unchanged("fillMasked_", t, a); unchanged("fillMasked_", mt, m);
    op::fillMaskedOut(t, t, mt, sc); eq("fillMaskedOut", t, e);
  }
}
GROUP(ranges) {
  Rng r(seed() + 2);
  for (int64_t a = -7; a <= 7; a++) for (int64_t b = -7; b <= 7; b++) for (int64_t st = -4; st <= 4; st++) {
    if (st == 0 || (st > 0 ? b < a : b > a)) continue;
    VI e; for (int64_t x = a; st > 0 ? x < b : x > b; x += st) e.push_back(x);
    Nd n({(int64_t)e.size()}); for (size_t i = 0; i < e.size(); i++) n.v[i] = (double)e[i];
    input("arange(%lld, %lld, %lld)", (long long)a, (long long)b, (long long)st);
    Tensor t = Tensor::arange<int64_t>(a, b, st); eq("arange", t, n); CHECK("arange", t.dtype() == DType::Int64, "element type");
    Tensor u = Tensor::arange<int32_t>((int)a, (int)b, (int)st); eq("arange", u, n); CHECK("arange", u.dtype() == DType::Int32, "element type");
    for (double sc : {1.0, 0.5, 0.125, 1024.0}) { Nd f = n; for (auto& x : f.v) x *= sc; Tensor w = Tensor::arange<float>((float)(a * sc), (float)(b * sc), (float)(st * sc)); eq("arange", w, f); CHECK("arange", w.dtype() == DType::Float32, "element type"); }
  }
  input("arange with default step"); eq("arange", Tensor::arange<int64_t>(3, 6), [] { Nd n({3}); n.v = {3, 4, 5}; return n; }());
  for (int64_t n : {1, 2, 3, 1000, 5000}) { input("arange(0,%lld)", (long long)n); eq("arange", Tensor::arange<float>(0, (float)n), iota({n}, 0)); eq("arange", Tensor::arange<int64_t>(0, n), iota({n}, 0)); }
  input("arange over 2^40"); { Nd n({3}); n.v = {1099511627776.0, 1099511627783.0, 1099511627790.0}; eq("arange", Tensor::arange<int64_t>(1LL << 40, (1LL << 40) + 15, 7), n); }
  for (int rep = 0; rep < 400; rep++) {
    int64_t n = r.in(1, rep % 7 == 0 ? 700 : 12); float a = r.f(-20, 20), b = r.f(-20, 20); if (rep % 9 == 0) b = a; if (rep % 5 == 0) { a = (float)r.in(-5, 5); b = (float)r.in(-5, 5); }
    Nd e({n}); for (int64_t i = 0; i < n; i++) e.v[i] = n == 1 ? (double)a : (double)a + ((double)b - a) * (double)i / (double)(n - 1);
    input("linspace(%.9g, %.9g, %lld)", a, b, (long long)n); Tensor t = Tensor::linspace<float>(a, b, n); eq("linspace", t, e, 1e-5, 2e-5); CHECK("linspace", t.dtype() == DType::Float32, "element type");
    int64_t ia = r.in(-30, 30), ib = r.in(-30, 30); input("linspace of integers (%lld, %lld, %lld)", (long long)ia, (long long)ib, (long long)n); Tensor u = Tensor::linspace<int64_t>(ia, ib, n); geo("linspace", u);
    CHECK("linspace", shp(u) == VI{n} && u.dtype() == DType::Int64, "shape or type"); Nd g = rd(u);
    for (int64_t i = 0; i < n; i++) { double x = n == 1 ? (double)ia : (double)ia + (double)(ib - ia) * (double)i / (double)(n - 1); CHECK("linspace", std::fabs(g.v[i] - x) < 1, "element %lld is %g, expected %g up to truncation", (long long)i, g.v[i], x); if (i == n - 1) CHECK("linspace", g.v[i] == x, "the last element is %g, expected %g", g.v[i], x); }
    Tensor w = mk(Nd({n}, 3)), wc = w.clone(); float st = r.f(-2, 2); w.fillLinSpace_(a, st, n); for (int64_t i = 0; i < n; i++) e.v[i] = (double)a + (double)i * st; input("fillLinSpace_ from %g by %g", a, st); eq("fillLinSpace", w, e, 1e-5, 1e-4); unchanged("fillLinSpace", wc, Nd({n}, 3));
  }
  input("linspace of no steps"); CHECK("linspace", rejects([] { Tensor::linspace<float>(0, 1, 0); }), "accepted");
}
GROUP(convert) {
  Rng r(seed() + 3);
  for (auto& s : SH) for (auto a : DT) for (auto b : DT) {
    Nd v(s); for (auto& x : v.v) x = a == DType::Bool ? (double)r.coin() : (double)r.in(-100, 100) + (a == DType::Float32 || f16(a) ? (double)r.in(0, 3) * 0.25 : 0);
    Tensor t = mk(v, a); v = rd(t); input("conversion of shape %s from type %d to %d, values %s", str(s).c_str(), (int)a, (int)b, strv(v.v).c_str());
    Tensor o = t.to(b); CHECK("to", o.dtype() == b, "element type is %d", (int)o.dtype()); Nd e = v;
    for (auto& x : e.v) { if (b == DType::Bool) x = x != 0; else if (b == DType::Int64 || b == DType::Int32) x = std::trunc(x); }
    eq("to", o, e, b == DType::BFloat16 ? 0.004 : 0, 0); unchanged("to", t, v); CHECK("to", t.dtype() == a, "source type changed");
    if (a != b) { o.fillZero_(); unchanged("to", t, v); }
    if (b == DType::Float32 && !s.empty()) { auto l = t.toList<float>(); CHECK("toList", (int64_t)l.size() == v.n(), "length %zu", l.size()); for (int64_t i = 0; i < v.n(); i++) CHECK("toList", l[(size_t)i] == (float)v.v[i], "element %lld is %g, expected %g", (long long)i, l[(size_t)i], v.v[i]); }
    if (b == DType::Int64 && !s.empty()) { auto l = t.toList<int64_t>(); for (int64_t i = 0; i < v.n(); i++) CHECK("toList", l[(size_t)i] == (int64_t)v.v[i], "element %lld", (long long)i); }
    if (s.empty()) { CHECK("item", t.item<float>() == (float)v.v[0], "item is %g, expected %g", t.item<float>(), v.v[0]); CHECK("item", t.item<int64_t>() == (int64_t)v.v[0], "item<int64>"); }
  }
  for (int64_t x : {(int64_t)1 << 31, ((int64_t)1 << 40) + 1, -((int64_t)1 << 52) - 3}) { input("Int64 value %lld read back", (long long)x); CHECK("to", mki({x}, {1}).toList<int64_t>()[0] == x, "changed"); CHECK("to", mki({x}, {1}).to(DType::Float32).toList<float>()[0] == (float)x, "to float"); }
  // nested lists
  input("nested vectors"); { Array2d<float> a = {{1, 2, 3}, {4, 5, 6}}; eq("list", Tensor(a), iota({2, 3})); Array3d<float> b = {{{1, 2}, {3, 4}, {5, 6}}}; eq("list", Tensor(b), iota({1, 3, 2})); Array1d<int64_t> c = {1, 2, 3}; Tensor t(c); eq("list", t, iota({3})); CHECK("list", t.dtype() == DType::Int64, "type"); }
}
static void dist(const char* what, const Nd& g, double mean, double sd, double lo, double hi) {
  double n = (double)g.n(), m = 0, q = 0; for (auto x : g.v) { CHECK(what, x >= lo && x <= hi, "value %.9g outside [%g, %g]", x, lo, hi); m += x; } m /= n; for (auto x : g.v) q += (x - m) * (x - m);
  CHECK(what, std::fabs(m - mean) <= 6.5 * sd / std::sqrt(n) + 1e-6, "mean %g of %lld draws, expected %g", m, (long long)g.n(), mean);
  CHECK(what, std::fabs(std::sqrt(q / n) - sd) <= 0.08 * sd + 1e-6, "deviation %g of %lld draws, expected %g", std::sqrt(q / n), (long long)g.n(), sd);
}
GROUP(random) {
  Rng r(seed() + 4); manualSeed(seed());
  const VI big = {40, 500}; const double I = INFINITY;
  for (auto d : {DType::Float32, DType::Float16, DType::BFloat16}) {
    double e = d == DType::Float32 ? 0 : 0.01;
    auto o = od(d); input("random fills of type %d", (int)d);
    dist("rand", rd(Tensor::rand(av(big), o)), 0.5, std::sqrt(1 / 12.0), 0, 1);
    dist("randn", rd(Tensor::randn(av(big), o)), 0, 1, -I, I);
    dist("uniform", rd(Tensor::uniform(av(big), -3, 5, o)), 1, 8 * std::sqrt(1 / 12.0), -3, 5); dist("uniform", rd(Tensor::uniform(av(big), 2, 2.5, o)), 2.25 , 0.5 * std::sqrt(1 / 12.0), 2 - e, 2.5 + e);
    Tensor t = mk(Nd(big, 9), d), c = t.clone(); t.fillUniform_(-1, 0); dist("fillUniform_", rd(t), -0.5, std::sqrt(1 / 12.0), -1, 0); t.fillNormal_(4, 0.5); dist("fillNormal_", rd(t), 4, 0.5, -I, I); t.fillNormal_(); dist("fillNormal_", rd(t), 0, 1, -I, I); unchanged("fillNormal_", c, Nd(big, 9));
    for (double p : {0.0, 0.2, 0.5, 0.9, 1.0}) { for (int k = 0; k < 2; k++) { Nd g; if (k) { t.fillBernoulli_((float)p); g = rd(t); } else g = rd(Tensor::bernoulli(av(big), (float)p, o)); for (auto x : g.v) CHECK("bernoulli", x == 0 || x == 1, "value %g", x); double m = 0; for (auto x : g.v) m += x; double n = (double)g.n(); CHECK("bernoulli", std::fabs(m - p * n) <= 6.5 * std::sqrt(n * p * (1 - p)), "%g ones of %g at probability %g", m, n, p); } }
  }
  typedef std::function<Tensor()> F;
  VI s = {3, 5};
  std::vector<std::pair<const char*, F>> fs = {{"rand", [&] { return Tensor::rand(av(s)); }}, {"randn", [&] { return Tensor::randn(av(s)); }}, {"uniform", [&] { return Tensor::uniform(av(s), -2, 7); }}, {"bernoulli", [&] { return Tensor::bernoulli(av(s), 0.5f); }},
    {"fillUniform_", [&] { Tensor t = Tensor::zeros(av(s)); t.fillUniform_(0, 3); return t; }}, {"fillNormal_", [&] { Tensor t = Tensor::zeros(av(s)); t.fillNormal_(1, 2); return t; }}, {"kaiming", [&] { Tensor t = Tensor::zeros(av(s)); nn::Initializer::kaimingUniform(t, 1.f); return t; }},
    {"normal", [&] { Tensor t = Tensor::zeros(av(s)); nn::Initializer::normal(t); return t; }}};
  for (int rep = 0; rep < (thorough() ? 2000 : 200); rep++) {
    std::vector<int> seq; std::string nm; int n = (int)r.in(1, 6); for (int i = 0; i < n; i++) { seq.push_back((int)r.in(0, (int64_t)fs.size() - 1)); nm += std::string(fs[(size_t)seq.back()].first) + " "; }
    unsigned long sd = (unsigned long)r.in(0, 1000); input("seed %lu, then twice: %s", sd, nm.c_str());
    auto go = [&] { std::vector<double> v; for (int k : seq) { Nd g = rd(fs[(size_t)k].second()); v.insert(v.end(), g.v.begin(), g.v.end()); } return v; };
    manualSeed(sd); auto a = go(); auto c = go(); for (int64_t x = r.in(0, 3); x > 0; x--) fs[(size_t)r.in(0, (int64_t)fs.size() - 1)].second(); manualSeed(sd); auto b = go();
    CHECK("seed", a == b, "the draws differ"); CHECK("advance", a != c, "the same numbers are drawn again without reseeding");
    manualSeed(sd + 1); auto e = go(); CHECK("seed", n * 15 < 30 || a != e, "another seed gives the same draws");
  }
  // kaiming bound and linear-layer style initialisation
  for (auto& sh2 : std::vector<VI>{{4, 9}, {6, 2, 3, 3}, {10, 100}}) for (float a : {0.f, 1.f, std::sqrt(5.f)}) { double fan = (double)prod(sh2) / (double)sh2[0]; double bound = std::sqrt(2.0 / (1 + (double)a * a)) * std::sqrt(3 / fan); Tensor t = Tensor::zeros(av(sh2)); input("kaimingUniform of shape %s, a %g", str(sh2).c_str(), a);
    double mx = 0; for (int k = 0; k < 40; k++) { nn::Initializer::kaimingUniform(t, a); for (auto x : rd(t).v) mx = std::max(mx, std::fabs(x)); } CHECK("kaiming", mx <= bound * 1.0001 && mx > bound * 0.97, "largest magnitude %g, bound %g", mx, bound); }
}
MAIN
