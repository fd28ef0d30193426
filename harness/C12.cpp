// C12: the gradient every differentiable operation delivers.  Oracle: naive forward functions in double precision,
// differentiated numerically (central differences) in double precision; never the library's own forward.
#include "common.h"
typedef std::vector<Nd> VN;
typedef std::function<Nd(const VN&)> Ref;
typedef std::function<Tensor(const std::vector<Tensor>&)> Lib;
static VI bshape(const VI& a, const VI& b) { size_t n = std::max(a.size(), b.size()); VI r(n); for (size_t i = 0; i < n; i++) { int64_t x = i + a.size() < n ? 1 : a[i + a.size() - n], y = i + b.size() < n ? 1 : b[i + b.size() - n]; r[i] = x == 1 ? y : x; } return r; }
static double bat(const Nd& a, const VI& c) { VI q(a.s.size()); for (size_t i = 0; i < q.size(); i++) q[i] = a.s[i] == 1 ? 0 : c[c.size() - q.size() + i]; return a.at(q); }
static Nd bin(const Nd& a, const Nd& b, const std::function<double(double, double)>& f) { Nd r(bshape(a.s, b.s)); each(r.s, [&](const VI& c) { r.at(c) = f(bat(a, c), bat(b, c)); }); return r; }
static Nd un(const Nd& a, const std::function<double(double)>& f) { Nd r(a.s); for (size_t i = 0; i < a.v.size(); i++) r.v[i] = f(a.v[i]); return r; }

// every subset of the inputs requires a gradient; `diff` marks the inputs that may
static void grads(const char* op, const std::string& args, const Lib& lib, const Ref& ref, const VN& in, uint64_t salt, unsigned diff = ~0u, double tol = 2e-3, unsigned onlymask = 0) {
  size_t n = in.size(); Rng g(seed() * 977 + salt);
  Nd y0 = ref(in), up = rnd(y0.s, g, -2, 2); for (auto& x : up.v) x = (double)(float)x;
  VN want(n);
  for (size_t k = 0; k < n; k++) {
    want[k] = Nd(in[k].s);
    if (!(diff >> k & 1)) continue;
    VN q = in;
    for (size_t i = 0; i < in[k].v.size(); i++) {
      double x = in[k].v[i], h = 1e-4 * std::max(1.0, std::fabs(x));
      q[k].v[i] = x + h; Nd p = ref(q); q[k].v[i] = x - h; Nd m = ref(q); q[k].v[i] = x;
      double s = 0; for (size_t j = 0; j < p.v.size(); j++) s += up.v[j] * (p.v[j] - m.v[j]) / (2 * h);
      want[k].v[i] = s;
    }
  }
  for (unsigned mask = 1; mask < (1u << n); mask++) {
    if (mask & ~diff) continue;
    if (onlymask && mask != onlymask) continue;
    std::string sin; for (auto& a : in) sin += str(a.s) + strv(a.v, 12) + " ";
    input("%s %s inputs %s gradient required by mask %u upstream %s", op, args.c_str(), sin.c_str(), mask, strv(up.v, 12).c_str());
    std::vector<Tensor> t;
    for (size_t k = 0; k < n; k++) { Tensor x = ((mask + k + salt) % 3 == 0 && !in[k].s.empty() && in[k].n() > 0) ? mkview(in[k]) : mk(in[k]); if (mask >> k & 1) x.setRequiresGrad(true); t.push_back(x); }
    std::vector<Tensor> given(t);
    Tensor y = lib(t);
    eq("forward", y, y0, 1e-4, 1e-4);
    CHECK("recorded", y.requiresGrad(), "result of an operation on an input that requires a gradient does not require one");
    Tensor u = mk(up);
    y.backward(u);
    unchanged("upstream-changed", u, up);
    for (size_t k = 0; k < n; k++) {
      unchanged("input-changed", given[k], in[k]);
      if (mask >> k & 1) {
        CHECK("grad-missing", t[k].grad().defined(), "input %zu required a gradient and got none", k);
        double sc = 1; for (double x : want[k].v) sc = std::max(sc, std::fabs(x));
        std::string key = std::string("grad-") + op; eq(key.c_str(), t[k].grad(), want[k], tol, tol * sc);
        CHECK("grad-requires-grad", !t[k].grad().requiresGrad(), "the gradient of input %zu itself requires a gradient", k);
      } else CHECK("grad-unwanted", !t[k].requiresGrad(), "input %zu did not require a gradient and does now", k);
    }
  }
}
static VN pair(const VI& a, const VI& b, Rng& g, double lo = -2, double hi = 2) { return {rnd(a, g, (float)lo, (float)hi), rnd(b, g, (float)lo, (float)hi)}; }
static void away(Nd& a, double m) { for (auto& x : a.v) if (std::fabs(x) < m) x = (double)(float)(x < 0 ? x - m : x + m); }
static const std::vector<std::pair<VI, VI>>& bcs() {
  static std::vector<std::pair<VI, VI>> r = {{{}, {}}, {{3}, {3}}, {{3}, {1}}, {{1}, {3}}, {{3}, {}}, {{}, {3}}, {{2, 3}, {2, 3}}, {{2, 3}, {3}}, {{3}, {2, 3}}, {{2, 1}, {1, 3}}, {{1, 3}, {2, 1}}, {{2, 3}, {1, 3}}, {{2, 3}, {2, 1}}, {{1, 1}, {1}}, {{1}, {1, 1}}, {{1, 1, 1}, {2}}, {{2, 1, 2}, {3, 1}}, {{2, 3, 2}, {1, 3, 1}}, {{1, 3, 1}, {2, 1, 2}}, {{3, 1}, {2, 1, 2}}, {{1, 2}, {1, 1, 2}}, {{2, 2, 2, 2}, {2, 1, 2}}, {{4, 5}, {5}}, {{1, 2, 3}, {2, 3}}, {{2}, {1, 1, 2}}, {{1}, {}}, {{}, {1, 1}}};
  return r;
}
GROUP(binary) {
  uint64_t n = 0;
  for (auto& s : bcs()) for (int r = 0; r < 2; r++) {
    Rng g(seed() * 5 + ++n);
    VN in = pair(s.first, s.second, g);
    grads("add", "", [](auto& t) { return t[0] + t[1]; }, [](const VN& q) { return bin(q[0], q[1], [](double a, double b) { return a + b; }); }, in, n);
    grads("sub", "", [](auto& t) { return t[0] - t[1]; }, [](const VN& q) { return bin(q[0], q[1], [](double a, double b) { return a - b; }); }, in, n);
    float al = (float)g.in(-3, 3) + 0.5f;
    grads("sub", "alpha " + std::to_string(al), [=](auto& t) { return function::sub(t[0], t[1], al); }, [=](const VN& q) { return bin(q[0], q[1], [=](double a, double b) { return a - al * b; }); }, in, n);
    grads("mul", "", [](auto& t) { return t[0] * t[1]; }, [](const VN& q) { return bin(q[0], q[1], [](double a, double b) { return a * b; }); }, in, n);
    away(in[1], 0.4);
    grads("div", "", [](auto& t) { return t[0] / t[1]; }, [](const VN& q) { return bin(q[0], q[1], [](double a, double b) { return a / b; }); }, in, n);
    for (auto& x : in[0].v) x = std::fabs(x) + 0.25;
    for (auto& x : in[0].v) x = (double)(float)x;
    grads("pow", "", [](auto& t) { return t[0].pow(t[1]); }, [](const VN& q) { return bin(q[0], q[1], [](double a, double b) { return std::pow(a, b); }); }, in, n);
  }
}
GROUP(add_alpha) {   // only the first operand here: see add_alpha_other
  uint64_t n = 0;
  for (auto& s : bcs()) { Rng g(seed() * 7 + ++n); VN in = pair(s.first, s.second, g); float al = (float)g.in(2, 4);
    grads("add-alpha-self", "alpha " + std::to_string(al), [=](auto& t) { return function::add(t[0], t[1], al); }, [=](const VN& q) { return bin(q[0], q[1], [=](double a, double b) { return a + al * b; }); }, in, n, 1); }
}
GROUP(add_alpha_other) {   // recorded finding: the factor is ignored; anything else than that is reported under another key
  Rng g(seed() * 7); Nd a = rnd({2, 3}, g), b = rnd({2, 3}, g), up = rnd({2, 3}, g); input("gradient of add(x, y, alpha 3) for y, upstream %s", strv(up.v).c_str());
  Tensor x = mk(a), y = mk(b); y.setRequiresGrad(true); Tensor z = function::add(x, y, 3); z.backward(mk(up));
  Nd w(up.s), u(up.s); for (size_t i = 0; i < w.v.size(); i++) { u.v[i] = (double)(float)up.v[i]; w.v[i] = 3 * u.v[i]; }
  Nd got = rd(y.grad()); bool ignored = got.s == u.s && got.v == u.v;
  CHECK("add-alpha-ignored", !ignored, "the gradient of y is the upstream gradient, not 3 times it");
  eq("add-alpha-other", y.grad(), w, 1e-5, 1e-6);
}
GROUP(negative_base) {   // integer exponents of negative bases
  for (double e : {1.0, 2.0, 3.0, -1.0, -2.0}) { Rng g(seed() + (uint64_t)(e + 9)); Nd a = rnd({2, 3}, g); away(a, 0.4);
    grads("pow-scalar", std::to_string(e), [=](auto& t) { return t[0].pow((float)e); }, [=](const VN& q) { return un(q[0], [=](double x) { return std::pow(x, e); }); }, {a}, (uint64_t)(e + 20)); }
}
GROUP(scalar_operand) {
  uint64_t n = 0;
  for (VI s : std::vector<VI>{{}, {1}, {3}, {2, 3}, {2, 1, 3}}) for (float c : {2.f, -0.5f}) {
    Rng g(seed() * 11 + ++n); Nd a = rnd(s, g); away(a, 0.4); std::string cs = std::to_string(c);
    grads("add-scalar", cs, [=](auto& t) { return t[0] + c; }, [=](const VN& q) { return un(q[0], [=](double x) { return x + c; }); }, {a}, n);
    grads("sub-scalar", cs, [=](auto& t) { return t[0] - c; }, [=](const VN& q) { return un(q[0], [=](double x) { return x - c; }); }, {a}, n);
    grads("mul-scalar", cs, [=](auto& t) { return t[0] * c; }, [=](const VN& q) { return un(q[0], [=](double x) { return x * c; }); }, {a}, n);
    grads("div-scalar", cs, [=](auto& t) { return t[0] / c; }, [=](const VN& q) { return un(q[0], [=](double x) { return x / c; }); }, {a}, n);
    grads("scalar-add", cs, [=](auto& t) { return c + t[0]; }, [=](const VN& q) { return un(q[0], [=](double x) { return c + x; }); }, {a}, n);
    grads("scalar-sub", cs, [=](auto& t) { return c - t[0]; }, [=](const VN& q) { return un(q[0], [=](double x) { return c - x; }); }, {a}, n);
    grads("scalar-mul", cs, [=](auto& t) { return c * t[0]; }, [=](const VN& q) { return un(q[0], [=](double x) { return c * x; }); }, {a}, n);
    grads("scalar-div", cs, [=](auto& t) { return c / t[0]; }, [=](const VN& q) { return un(q[0], [=](double x) { return c / x; }); }, {a}, n);
  }
}
GROUP(unary) {
  uint64_t n = 0;
  for (VI s : std::vector<VI>{{}, {1}, {5}, {2, 3}, {2, 1, 3}, {37}}) for (int r = 0; r < 2; r++) {
    Rng g(seed() * 13 + ++n); Nd a = rnd(s, g, -4, 4); away(a, 0.1);
    grads("sin", "", [](auto& t) { return t[0].sin(); }, [](const VN& q) { return un(q[0], [](double x) { return std::sin(x); }); }, {a}, n);
    grads("cos", "", [](auto& t) { return t[0].cos(); }, [](const VN& q) { return un(q[0], [](double x) { return std::cos(x); }); }, {a}, n);
    grads("relu", "", [](auto& t) { return function::relu(t[0]); }, [](const VN& q) { return un(q[0], [](double x) { return x > 0 ? x : 0; }); }, {a}, n);
    grads("sum", "", [](auto& t) { return t[0].sum(); }, [](const VN& q) { Nd r{VI{}}; r.v[0] = 0; for (double x : q[0].v) r.v[0] += x; return r; }, {a}, n);
  }
}
static Nd smax(const Nd& a, int64_t dim, bool lg) {
  Nd r(a.s); if (a.s.empty()) { r.v[0] = lg ? 0 : 1; return r; } if (dim < 0) dim += (int64_t)a.s.size();
  each(a.s, [&](const VI& c) { double m = -1e300, s = 0; VI q = c; for (int64_t k = 0; k < a.s[(size_t)dim]; k++) { q[(size_t)dim] = k; m = std::max(m, a.at(q)); } for (int64_t k = 0; k < a.s[(size_t)dim]; k++) { q[(size_t)dim] = k; s += std::exp(a.at(q) - m); } r.at(c) = lg ? a.at(c) - m - std::log(s) : std::exp(a.at(c) - m) / s; });
  return r;
}
GROUP(softmax) {
  uint64_t n = 0;
  for (VI s : std::vector<VI>{{4}, {1}, {2, 3}, {3, 1}, {2, 3, 2}, {1, 4, 2}, {2, 2, 3, 2}}) for (int64_t d = -(int64_t)s.size(); d < (int64_t)s.size(); d++) {
    Rng g(seed() * 17 + ++n); Nd a = rnd(s, g);
    grads("softmax", "dim " + std::to_string(d), [=](auto& t) { return function::softmax(t[0], d); }, [=](const VN& q) { return smax(q[0], d, false); }, {a}, n);
    grads("logSoftmax", "dim " + std::to_string(d), [=](auto& t) { return function::logSoftmax(t[0], d); }, [=](const VN& q) { return smax(q[0], d, true); }, {a}, n);
  }
}
GROUP(layout) {
  uint64_t n = 0;
  auto id = [](VI s) { return [=](const VN& q) { Nd r = q[0]; r.s = s; return r; }; };
  for (VI s : std::vector<VI>{{6}, {2, 3}, {3, 4}, {2, 1, 3}, {1, 2, 2, 3}}) {
    Rng g(seed() * 19 + ++n); Nd a = rnd(s, g); VI flat{a.n()};
    grads("reshape", str(flat), [=](auto& t) { return t[0].reshape(av(flat)); }, id(flat), {a}, n);
    grads("view", str(flat), [=](auto& t) { return t[0].view(av(flat)); }, id(flat), {a}, n);
    grads("flatten", "", [=](auto& t) { return t[0].flatten(); }, id(flat), {a}, n);
    grads("unflatten", "", [=](auto& t) { return t[0].unflatten(0, IntArrayView{1, -1}); }, [=](const VN& q) { Nd r = q[0]; r.s.insert(r.s.begin(), 1); return r; }, {a}, n);
    grads("unsqueeze", "", [=](auto& t) { return t[0].unsqueeze(1); }, [=](const VN& q) { Nd r = q[0]; r.s.insert(r.s.begin() + 1, 1); return r; }, {a}, n);
    for (size_t d = 0; d < s.size(); d++) if (s[d] == 1) grads("squeeze", std::to_string(d), [=](auto& t) { return t[0].squeeze((int64_t)d); }, [=](const VN& q) { Nd r = q[0]; r.s.erase(r.s.begin() + (long)d); return r; }, {a}, n);
    VI p(s.size()); for (size_t i = 0; i < p.size(); i++) p[i] = (int64_t)i;
    auto per = [](const Nd& x, const VI& pm) { VI t(pm.size()); for (size_t i = 0; i < pm.size(); i++) t[i] = x.s[(size_t)pm[i]]; Nd r(t); each(t, [&](const VI& c) { VI q(c.size()); for (size_t i = 0; i < c.size(); i++) q[(size_t)pm[i]] = c[i]; r.at(c) = x.at(q); }); return r; };
    do {
      VI neg = p; for (auto& x : neg) if ((x + (int64_t)n) % 2) x -= (int64_t)s.size();
      VI pp = p;
      grads("permute", str(neg), [=](auto& t) { return t[0].permute(av(neg)); }, [=](const VN& q) { return per(q[0], pp); }, {a}, n);
    } while (std::next_permutation(p.begin(), p.end()));
    VI rev(s.size()); for (size_t i = 0; i < rev.size(); i++) rev[i] = (int64_t)(rev.size() - 1 - i);
    grads("permuteAll", "", [=](auto& t) { return t[0].permute(); }, [=](const VN& q) { return per(q[0], rev); }, {a}, n);
  }
}
GROUP(linear) {
  uint64_t n = 0;
  for (VI s : std::vector<VI>{{3}, {1, 3}, {4, 3}, {2, 3, 3}, {2, 1, 2, 3}, {5, 1}}) for (int64_t o : {1, 2, 4}) for (int b = 0; b < 2; b++) {
    Rng g(seed() * 23 + ++n); int64_t k = s.back(); VN in = {rnd(s, g), rnd({o, k}, g)}; if (b) in.push_back(rnd({o}, g));
    grads("linear", b ? "with bias" : "without bias", [=](auto& t) { return b ? function::linear(t[0], t[1], t[2]) : function::linear(t[0], t[1]); },
      [=](const VN& q) { VI rs = s; rs.back() = o; Nd r(rs); each(rs, [&](const VI& c) { VI x = c; double v = b ? q[2].v[(size_t)c.back()] : 0; for (int64_t i = 0; i < k; i++) { x.back() = i; v += q[0].at(x) * q[1].at({c.back(), i}); } r.at(c) = v; }); return r; }, in, n);
  }
}
struct Cv { int64_t b, c, h, w, o; Dim2D k{1, 1}, s{1, 1}, p{0, 0}; };
static std::vector<Cv> cvs() {
  std::vector<Cv> r; uint64_t n = 0;
  for (int64_t h : {3, 4, 5}) for (int64_t w : {2, 4}) for (int64_t kh : {1, 2, 3}) for (int64_t kw : {1, 2}) for (int64_t s1 : {1, 2}) for (int64_t s2 : {1, 2}) for (int64_t p1 : {0, 1}) for (int64_t p2 : {0, 1}) {
    if (h + 2 * p1 < kh || w + 2 * p2 < kw) continue; n++;
    if (!thorough() && (n * 2654435761u >> 9) % 9) continue;
    Cv c; c.b = 1 + (int64_t)(n % 2); c.c = 1 + (int64_t)(n / 2 % 3); c.o = 1 + (int64_t)(n / 3 % 3); c.h = h; c.w = w; c.k = Dim2D(kh, kw); c.s = Dim2D(s1, s2); c.p = Dim2D(p1, p2); r.push_back(c);
  }
  return r;
}
static double px(const Nd& a, const Cv& f, int64_t b, int64_t c, int64_t y, int64_t x, double pad) { return y < 0 || x < 0 || y >= f.h || x >= f.w ? pad : a.v[(size_t)(((b * f.c + c) * f.h + y) * f.w + x)]; }
static std::string cvstr(const Cv& c) { char b[200]; snprintf(b, 200, "kernel %lldx%lld stride %lldx%lld padding %lldx%lld", (long long)c.k.h, (long long)c.k.w, (long long)c.s.h, (long long)c.s.w, (long long)c.p.h, (long long)c.p.w); return b; }
GROUP(conv2d) {
  uint64_t n = 0;
  for (auto& f : cvs()) {
    Rng g(seed() * 29 + ++n); int64_t oh = (f.h - f.k.h + 2 * f.p.h) / f.s.h + 1, ow = (f.w - f.k.w + 2 * f.p.w) / f.s.w + 1; bool bias = n % 2;
    VN in = {rnd({f.b, f.c, f.h, f.w}, g), rnd({f.o, f.c, f.k.h, f.k.w}, g)}; if (bias) in.push_back(rnd({f.o}, g));
    grads("conv2d", cvstr(f), [=](auto& t) { return function::conv2d(t[0], t[1], bias ? t[2] : Tensor(), f.s, f.p); },
      [=](const VN& q) { Nd r({f.b, f.o, oh, ow}); each(r.s, [&](const VI& c) { double x = bias ? q[2].v[(size_t)c[1]] : 0; for (int64_t ch = 0; ch < f.c; ch++) for (int64_t i = 0; i < f.k.h; i++) for (int64_t j = 0; j < f.k.w; j++) x += q[1].at({c[1], ch, i, j}) * px(q[0], f, c[0], ch, c[2] * f.s.h - f.p.h + i, c[3] * f.s.w - f.p.w + j, 0); r.at(c) = x; }); return r; }, in, n);
  }
}
GROUP(maxpool) {
  uint64_t n = 0;
  for (auto& f : cvs()) {
    Rng g(seed() * 31 + ++n); int64_t oh = (f.h - f.k.h + 2 * f.p.h) / f.s.h + 1, ow = (f.w - f.k.w + 2 * f.p.w) / f.s.w + 1; bool d3 = f.b == 1 && n % 2;
    Nd a(d3 ? VI{f.c, f.h, f.w} : VI{f.b, f.c, f.h, f.w}); std::vector<int> pm((size_t)a.n()); for (size_t i = 0; i < pm.size(); i++) pm[i] = (int)i; for (size_t i = pm.size(); i > 1; i--) std::swap(pm[i - 1], pm[(size_t)g.in(0, (int64_t)i - 1)]);
    for (size_t i = 0; i < pm.size(); i++) a.v[i] = pm[i] * 0.25 - (n % 3 ? 4 : 50);   // distinct, so that the maximum is unique
    auto ref = [=](const VN& q) { Nd r(d3 ? VI{f.c, oh, ow} : VI{f.b, f.c, oh, ow}); size_t z = 0; for (int64_t b = 0; b < f.b; b++) for (int64_t c = 0; c < f.c; c++) for (int64_t y = 0; y < oh; y++) for (int64_t x = 0; x < ow; x++) { double m = -INFINITY; for (int64_t i = 0; i < f.k.h; i++) for (int64_t j = 0; j < f.k.w; j++) m = std::max(m, px(q[0], f, b, c, y * f.s.h - f.p.h + i, x * f.s.w - f.p.w + j, -INFINITY)); r.v[z++] = m; } return r; };
    Nd y = ref({a}); bool fin = true; for (double v : y.v) fin = fin && std::isfinite(v); if (!fin) continue;
    grads("maxPool2d", cvstr(f), [=](auto& t) { return function::maxPool2d(t[0], f.k, f.s, f.p); }, ref, {a}, n);
  }
}
GROUP(losses) {
  uint64_t n = 0;
  for (auto red : {LossReduction::NONE, LossReduction::MEAN, LossReduction::SUM}) {
    auto fold = [=](const Nd& e) { if (red == LossReduction::NONE) return e; Nd r{VI{}}; r.v[0] = 0; for (double x : e.v) r.v[0] += x; if (red == LossReduction::MEAN) r.v[0] /= (double)e.n(); return r; };
    for (auto& s : bcs()) {
      Rng g(seed() * 37 + ++n); VN in = pair(s.first, s.second, g);
      grads("mseLoss", "reduction " + std::to_string((int)red), [=](auto& t) { return function::mseLoss(t[0], t[1], red); }, [=](const VN& q) { return fold(bin(q[0], q[1], [](double a, double b) { return (a - b) * (a - b); })); }, in, n, 1);
    }
    for (int64_t b : {1, 2, 5}) for (int64_t c : {1, 3, 4}) {
      Rng g(seed() * 41 + ++n); VI tg; for (int64_t i = 0; i < b; i++) tg.push_back(g.in(0, c - 1)); Tensor T = mki(tg, {b});
      grads("nllLoss", "reduction " + std::to_string((int)red) + " targets " + str(tg), [=](auto& t) { return function::nllLoss(t[0], T, red); }, [=](const VN& q) { Nd e({b}); for (int64_t i = 0; i < b; i++) e.v[(size_t)i] = -q[0].at({i, tg[(size_t)i]}); return fold(e); }, {rnd({b, c}, g)}, n);
    }
  }
}
GROUP(dropout) {
  uint64_t n = 0;
  for (VI s : std::vector<VI>{{8}, {3, 5}, {2, 3, 4}}) for (float p : {0.25f, 0.5f, 0.8f}) for (bool tr : {true, false}) {
    Rng g(seed() * 43 + ++n); Nd a = rnd(s, g); away(a, 0.1); Nd up = rnd(s, g); input("dropout p %g training %d of %s", p, tr, strv(a.v).c_str());
    Tensor x = mk(a); x.setRequiresGrad(true); Tensor y = function::dropout(x, p, tr); Nd yv = rd(y); y.backward(mk(up));
    Nd e(s); for (size_t i = 0; i < a.v.size(); i++) e.v[i] = yv.v[i] / (double)(float)a.v[i] * (double)(float)up.v[i];   // the same factor as the element got
    eq("grad-dropout", x.grad(), e, 1e-3, 1e-4);
  }
}
GROUP(same_input_twice) {
  uint64_t n = 0;
  for (VI s : std::vector<VI>{{}, {3}, {2, 3}}) {
    Rng g(seed() * 47 + ++n); Nd a = rnd(s, g); for (auto& x : a.v) x = (double)(float)(std::fabs(x) + 0.5);
    grads("mul-self", "", [](auto& t) { return t[0] * t[0]; }, [](const VN& q) { return un(q[0], [](double x) { return x * x; }); }, {a}, n);
    grads("add-self", "", [](auto& t) { return t[0] + t[0]; }, [](const VN& q) { return un(q[0], [](double x) { return 2 * x; }); }, {a}, n);
    grads("sub-self", "", [](auto& t) { return t[0] - t[0]; }, [](const VN& q) { return un(q[0], [](double x) { return 0 * x; }); }, {a}, n);
    grads("div-self", "", [](auto& t) { return t[0] / t[0]; }, [](const VN& q) { return un(q[0], [](double x) { return 1 + 0 * x; }); }, {a}, n);
    grads("pow-self", "", [](auto& t) { return t[0].pow(t[0]); }, [](const VN& q) { return un(q[0], [](double x) { return std::pow(x, x); }); }, {a}, n);
  }
}
GROUP(unused_inputs) {   // an input without gradient stays without
  Rng g(seed()); Nd a = rnd({2, 3}, g), b = rnd({2, 3}, g); input("mul of a tensor that requires a gradient and one that does not");
  Tensor x = mk(a), y = mk(b); x.setRequiresGrad(true); Tensor z = x * y; z.backward(mk(a));
  CHECK("grad-unwanted", !y.requiresGrad() && !y.isLeaf(), "y became a leaf");
  y.setRequiresGrad(true); CHECK("grad-unwanted", !y.grad().defined(), "y holds a gradient");
}
MAIN
