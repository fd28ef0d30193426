// C04: element-wise operations with broadcasting.  Oracle: coordinates of the result, aligned at the right, with
// coordinate 0 wherever the operand's extent is one (or missing), and the scalar operation in double precision.
#include "common.h"
#include <cmath>
typedef std::function<double(double, double)> F2;
typedef std::function<double(double)> F1;
static bool bshape(const std::vector<VI>& in, VI& out) {
  size_t n = 0; for (auto& s : in) n = std::max(n, s.size());
  out.assign(n, 1);
  for (auto& s : in) for (size_t k = 0; k < s.size(); k++) { int64_t x = s[s.size() - 1 - k]; int64_t& o = out[n - 1 - k]; if (x == 1) continue; if (o != 1 && o != x) return false; o = x; }
  return true;
}
static double bat(const Nd& a, const VI& c) { VI q(a.s.size()); for (size_t k = 0; k < a.s.size(); k++) { int64_t x = c[c.size() - a.s.size() + k]; q[k] = a.s[k] == 1 ? 0 : x; } return a.at(q); }
static Nd bin(const Nd& a, const Nd& b, const F2& f) { VI s; bshape({a.s, b.s}, s); Nd r(s); each(s, [&](const VI& c) { r.at(c) = f(bat(a, c), bat(b, c)); }); return r; }
static Nd ter(const Nd& a, const Nd& b, const Nd& d, const std::function<double(double, double, double)>& f) { VI s; bshape({a.s, b.s, d.s}, s); Nd r(s); each(s, [&](const VI& c) { r.at(c) = f(bat(a, c), bat(b, c), bat(d, c)); }); return r; }
static DType FLT[] = {DType::Float32, DType::Float16, DType::BFloat16};
static double tol(DType t) { return t == DType::Float32 ? 2e-5 : t == DType::Float16 ? 5e-3 : 4e-2; }
// values exactly representable in every float type
static Nd vals(const VI& s, Rng& g, bool pos) { Nd r(s); for (auto& x : r.v) x = pos ? (double)g.in(1, 16) / 4 : (double)g.in(-12, 12) / 4; return r; }
struct Pair { VI a, b; };
static void pairs(const std::function<void(const VI&, const VI&)>& f, bool small) {
  std::vector<VI> ss;
  for (int r = 0; r <= 3; r++) shapes(r, small ? 1 : 0, 3, [&](const VI& s) { if (r == 3 && prod(s) > (small ? 8 : 18) ) return; ss.push_back(s); });
  for (auto& a : ss) for (auto& b : ss) { VI o; if (bshape({a, b}, o)) { if (small && (a.size() + b.size() > 5) && (prod(a) + 3 * prod(b)) % 5) continue; f(a, b); } }
  for (auto& p : std::vector<Pair>{{{2, 1, 3, 1}, {1, 4, 1, 2}}, {{2, 3, 4, 2}, {4, 1}}, {{1}, {2, 2, 2, 2}}, {{3, 1, 1, 2, 1}, {1, 2, 2, 1, 3}}, {{2, 2, 1, 2, 1, 2}, {2, 1, 2, 1, 2, 1}}, {{1, 2, 1, 2, 1, 2, 1, 2}, {2, 1, 2, 1, 2, 1, 2, 1}}, {{64}, {1}}, {{33, 1}, {1, 17}}, {{5, 7}, {7}}, {{5, 7}, {5, 1}}, {{16, 16}, {16, 16}}, {{2, 0, 3}, {1, 1, 3}}, {{1}, {0}}, {{2, 1}, {1, 0}}}) f(p.a, p.b);
}
typedef Tensor (*B)(const Tensor&, const Tensor&);
typedef void (*BO)(Tensor&, const Tensor&, const Tensor&);
typedef void (*BI)(Tensor&, const Tensor&);
static const int NALPHA = 4; static double ALPHA[] = {1, 2, -0.5, 0};
static void binary(const char* nm, B op, BO oo, BI oi, F2 f, bool pos, bool cmp, B api, bool wide) {
  Rng g(seed() * 31 + nm[0] * 7 + nm[1]);
  int k = 0;
  pairs([&](const VI& a, const VI& b) {
    k++;
    for (DType t : FLT) {
      if (t != DType::Float32 && k % 7 != (t == DType::Float16 ? 0 : 3)) continue;
      Nd x = vals(a, g, pos), y = vals(b, g, pos);
      if (cmp) for (size_t i = 0; i < x.v.size() && i < y.v.size(); i += 2) x.v[i] = y.v[i];
      input("%s dtype %d shapes %s %s values %s %s", nm, (int)t, str(a).c_str(), str(b).c_str(), strv(x.v).c_str(), strv(y.v).c_str());
      bool va = k % 3 == 1 && !a.empty(), vb = k % 4 == 2 && !b.empty();
      Tensor p = va ? mkview(x, t) : mk(x, t), q = vb ? mkview(y, t) : mk(y, t);
      Nd e = bin(x, y, f);
      Tensor r = op(p, q);
      CHECK(nm, r.dtype() == (cmp ? DType::Bool : t), "result type %d", (int)r.dtype());
      eq(nm, r, e, tol(t), tol(t) / 10);
      unchanged("input", p, x); unchanged("input", q, y);
      if (api) eq(nm, api(p, q), e, tol(t), tol(t) / 10);
      if (oo) { Nd z(e.s, 9); Tensor o = mk(z, cmp ? DType::Bool : t); Tensor c = o.clone(); Nd before = rd(c); oo(o, p, q); eq(nm, o, e, tol(t), tol(t) / 10); unchanged("out-clone", c, before); unchanged("input", p, x); unchanged("input", q, y); }
      if (oi) { if (e.s == a) { Tensor s = p.clone(); oi(s, q); eq(nm, s, e, tol(t), tol(t) / 10); unchanged("inplace-clone", p, x); unchanged("input", q, y); } }
    }
  }, !wide);
  // incompatible extents are refused
  int n = 0;
  for (auto& pr : std::vector<Pair>{{{2}, {3}}, {{2, 3}, {2}}, {{2, 3}, {3, 3}}, {{4, 2, 3}, {3, 3}}}) {
    if (n++ > 1 && !wide) break;
    Nd x = vals(pr.a, g, true), y = vals(pr.b, g, true);
    input("%s incompatible shapes %s %s", nm, str(pr.a).c_str(), str(pr.b).c_str());
    CHECK("incompatible", rejects([&] { op(mk(x), mk(y)); }), "shapes that do not broadcast were accepted");
  }
  if (oi) { input("%s in place into a smaller tensor", nm); CHECK("incompatible", rejects([&] { Tensor s = mk(vals({1, 3}, g, true)); oi(s, mk(vals({2, 3}, g, true))); }), "accepted"); }
}
static void unary(const char* nm, Tensor (*op)(const Tensor&), void (*oo)(Tensor&, const Tensor&), void (*oi)(Tensor&), F1 f, bool pos) {
  Rng g(seed() * 17 + nm[0] * 7 + nm[1]);
  std::vector<VI> ss; for (int r = 0; r <= 3; r++) shapes(r, 0, 3, [&](const VI& s) { if (r < 3 || prod(s) < 13) ss.push_back(s); });
  ss.push_back({257}); ss.push_back({2, 3, 2, 2}); ss.push_back({1, 2, 1, 3, 2});
  for (DType t : FLT) for (auto& s : ss) {
    if (t != DType::Float32 && s.size() == 3) continue;
    Nd x = vals(s, g, pos);
    if (!pos && x.n() > 2) { x.v[1] = 0; x.v[2] = -0.0; }
    input("%s dtype %d shape %s values %s", nm, (int)t, str(s).c_str(), strv(x.v).c_str());
    Nd e(s); for (int64_t i = 0; i < e.n(); i++) e.v[i] = f(x.v[i]);
    for (int v = 0; v < (s.empty() ? 1 : 2); v++) {
      Tensor p = v ? mkview(x, t) : mk(x, t);
      Tensor r = op(p); CHECK(nm, r.dtype() == t, "dtype"); eq(nm, r, e, tol(t), tol(t) / 10); unchanged("input", p, x);
      if (oo) { Tensor o = mk(Nd(s, 9), t); oo(o, p); eq(nm, o, e, tol(t), tol(t) / 10); unchanged("input", p, x); }
      if (oi) { Tensor q = p.clone(); oi(q); eq(nm, q, e, tol(t), tol(t) / 10); unchanged("inplace-clone", p, x); }
    }
  }
  // special values
  float sp[] = {0.f, 1e-30f, 3e4f, INFINITY, NAN, 88.f, -88.f, -100.f, 100.f, 1e-3f, -1e30f};
  for (float z : sp) { if (pos && z < 0) continue; Nd x({3}); x.v = {z, 1, z}; input("%s value %g", nm, z); Nd e({3}); for (int i = 0; i < 3; i++) e.v[i] = (double)(float)f((float)x.v[i]); Tensor r = op(mk(x)); Nd got = rd(r); for (int i = 0; i < 3; i++) if (std::isfinite(e.v[i]) && std::fabs(e.v[i]) < 1e38 && std::fabs(z) < 1e29) CHECK(nm, close(got.v[i], e.v[i], 1e-4, 1e-6), "element %d is %g expected %g", i, got.v[i], e.v[i]); }
}
#define UN(name, pos, expr) GROUP(name) { unary(#name, [](const Tensor& t) { return op::name(t); }, [](Tensor& o, const Tensor& t) { op::name##Out(o, t); }, [](Tensor& t) { op::name##Inplace(t); }, [](double a) -> double { return expr; }, pos); }
UN(abs, false, std::fabs(a))
UN(neg, false, -a)
UN(sign, false, a > 0 ? 1 : a < 0 ? -1 : 0)
UN(sqrt, true, std::sqrt(a))
UN(square, false, a * a)
UN(exp, false, std::exp(a))
UN(log, true, std::log(a))
UN(sin, false, std::sin(a))
UN(cos, false, std::cos(a))
UN(sigmoid, false, 1 / (1 + std::exp(-a)))
UN(tanh, false, std::tanh(a))
UN(relu, false, a > 0 ? a : 0)
UN(gelu, false, 0.5 * a * (1 + std::tanh(0.7978845608 * (a + 0.044715 * a * a * a))))
UN(silu, false, a / (1 + std::exp(-a)))
#define O2(n) [](const Tensor& a, const Tensor& b) { return op::n(a, b); }
#define OO(n) [](Tensor& o, const Tensor& a, const Tensor& b) { op::n##Out(o, a, b); }
#define OI(n) [](Tensor& a, const Tensor& b) { op::n##Inplace(a, b); }
#define API(n) [](const Tensor& a, const Tensor& b) { return function::n(a, b); }
GROUP(mul) { binary("mul", O2(mul), OO(mul), OI(mul), [](double a, double b) { return a * b; }, false, false, API(mul), true); }
GROUP(div) { binary("div", O2(div), OO(div), OI(div), [](double a, double b) { return a / b; }, true, false, API(div), false); }
GROUP(pow) { binary("pow", O2(pow), OO(pow), OI(pow), [](double a, double b) { return std::pow(a, b); }, true, false, API(pow), false); }
GROUP(maximum) { binary("maximum", O2(maximum), OO(maximum), nullptr, [](double a, double b) { return std::max(a, b); }, false, false, API(maximum), false); }
GROUP(minimum) { binary("minimum", O2(minimum), OO(minimum), nullptr, [](double a, double b) { return std::min(a, b); }, false, false, API(minimum), false); }
GROUP(clampMin) { binary("clampMin", O2(clampMin), OO(clampMin), OI(clampMin), [](double a, double b) { return std::max(a, b); }, false, false, nullptr, false); }
GROUP(clampMax) { binary("clampMax", O2(clampMax), OO(clampMax), OI(clampMax), [](double a, double b) { return std::min(a, b); }, false, false, nullptr, false); }
#define CMP(n, e) GROUP(n) { binary(#n, O2(n), nullptr, nullptr, [](double a, double b) -> double { return e; }, false, true, API(n), false); }
CMP(eq, a == b) CMP(ne, a != b) CMP(lt, a < b) CMP(le, a <= b) CMP(gt, a > b) CMP(ge, a >= b)
static float AL = 1;
#define ALPH(n, e) GROUP(n##Alpha) { for (double al : ALPHA) { AL = al; \
  binary(#n, [](const Tensor& a, const Tensor& b) { return op::n(a, b, AL); }, [](Tensor& o, const Tensor& a, const Tensor& b) { op::n##Out(o, a, b, AL); }, [](Tensor& a, const Tensor& b) { op::n##Inplace(a, b, AL); }, [](double a, double b) -> double { return e; }, false, false, al == 1 ? [](const Tensor& a, const Tensor& b) { return function::n(a, b); } : (B) nullptr, al == 1); } }
ALPH(add, a + AL * b)
ALPH(sub, a - AL * b)
GROUP(compare_out) {
  Nd x({2}), y({2}); x.v = {1, 2}; y.v = {1, 3}; input("eqOut/neOut/... with a boolean output for float operands [1,2] [1,3]");
  BO f[] = {OO(eq), OO(ne), OO(lt), OO(le), OO(gt), OO(ge)}; double e[][2] = {{1, 0}, {0, 1}, {0, 1}, {1, 1}, {0, 0}, {1, 0}};
  for (int i = 0; i < 6; i++) { bool r = rejects([&] { Tensor o = mk(Nd({2}), DType::Bool); f[i](o, mk(x), mk(y)); Nd g = rd(o); CHECK("compare-out-value", g.v[0] == e[i][0] && g.v[1] == e[i][1], "wrong"); }); CHECK("compare-out-rejected", !r, "the out form of comparison %d rejects a boolean output tensor", i); }
}
GROUP(special_compare) {
  float S[] = {0.f, -0.f, 1.f, -1.f, INFINITY, -INFINITY, NAN, 1e-40f, 3.4e38f};
  for (float a : S) for (float b : S) {
    input("comparison of %g and %g", a, b); Nd x({2}), y({2}); x.v = {a, 1}; y.v = {b, 1};
    Tensor p = mk(x), q = mk(y);
    CHECK("eq", rd(op::eq(p, q)).v[0] == (a == b), "eq"); CHECK("ne", rd(op::ne(p, q)).v[0] == (a != b), "ne"); CHECK("lt", rd(op::lt(p, q)).v[0] == (a < b), "lt");
    CHECK("le", rd(op::le(p, q)).v[0] == (a <= b), "le"); CHECK("gt", rd(op::gt(p, q)).v[0] == (a > b), "gt"); CHECK("ge", rd(op::ge(p, q)).v[0] == (a >= b), "ge");
  }
}
GROUP(int64) {
  Rng g(seed());
  pairs([&](const VI& a, const VI& b) {
    Nd x = rndi(a, g, -3, 3), y = rndi(b, g, -3, 3);
    input("int64 shapes %s %s values %s %s", str(a).c_str(), str(b).c_str(), strv(x.v).c_str(), strv(y.v).c_str());
    Tensor p = mk(x, DType::Int64), q = mk(y, DType::Int64);
    eq("i-max", op::maximum(p, q), bin(x, y, [](double u, double v) { return std::max(u, v); })); eq("i-min", op::minimum(p, q), bin(x, y, [](double u, double v) { return std::min(u, v); }));
    eq("i-eq", op::eq(p, q), bin(x, y, [](double u, double v) -> double { return u == v; })); eq("i-ne", op::ne(p, q), bin(x, y, [](double u, double v) -> double { return u != v; }));
    eq("i-lt", op::lt(p, q), bin(x, y, [](double u, double v) -> double { return u < v; })); eq("i-le", op::le(p, q), bin(x, y, [](double u, double v) -> double { return u <= v; }));
    eq("i-gt", op::gt(p, q), bin(x, y, [](double u, double v) -> double { return u > v; })); eq("i-ge", op::ge(p, q), bin(x, y, [](double u, double v) -> double { return u >= v; }));
    eq("i-cmin", op::clampMin(p, q), bin(x, y, [](double u, double v) { return std::max(u, v); })); eq("i-cmax", op::clampMax(p, q), bin(x, y, [](double u, double v) { return std::min(u, v); }));
    if (bin(x, y, [](double, double) { return 0.; }).s == a) { Tensor c = p.clone(); op::clampMinInplace(c, q); eq("i-cminI", c, bin(x, y, [](double u, double v) { return std::max(u, v); })); unchanged("inplace-clone", p, x); }
  }, true);
  int64_t big = (1LL << 53) + 1; Tensor p = mki({big, big, big - 1}, {3}), q = mki({big - 1, big, big}, {3});
  input("int64 comparison of large values"); Tensor r = op::gt(p, q); CHECK("i-big", rd(r).v == (std::vector<double>{1, 0, 0}), "gt of 2^53+1 and 2^53"); CHECK("i-big", rd(op::eq(p, q)).v == (std::vector<double>{0, 1, 0}), "eq of 2^53+1 and 2^53");
}
GROUP(logical) {
  Rng g(seed());
  pairs([&](const VI& a, const VI& b) {
    Nd x = rndi(a, g, 0, 1), y = rndi(b, g, 0, 1); input("logical shapes %s %s values %s %s", str(a).c_str(), str(b).c_str(), strv(x.v).c_str(), strv(y.v).c_str());
    Tensor p = mk(x, DType::Bool), q = mk(y, DType::Bool);
    Nd an = bin(x, y, [](double u, double v) -> double { return u && v; }), orr = bin(x, y, [](double u, double v) -> double { return u || v; });
    eq("and", op::logicAnd(p, q), an); eq("or", op::logicOr(p, q), orr); eq("and", p & q, an); eq("or", p | q, orr);
    Nd nt = x; for (auto& u : nt.v) u = !u; eq("not", op::logicNot(p), nt); eq("not", ~p, nt);
    { Tensor o = mk(Nd(an.s, 1), DType::Bool); op::logicAndOut(o, p, q); eq("and", o, an); op::logicOrOut(o, p, q); eq("or", o, orr); }
    { Tensor o = mk(Nd(a, 1), DType::Bool); op::logicNotOut(o, p); eq("not", o, nt); Tensor c = p.clone(); op::logicNotInplace(c); eq("not", c, nt); unchanged("inplace-clone", p, x); }
    if (an.s == a) { Tensor c = p.clone(); op::logicAndInplace(c, q); eq("and", c, an); Tensor d = p.clone(); op::logicOrInplace(d, q); eq("or", d, orr); unchanged("inplace-clone", p, x); }
    unchanged("input", p, x); unchanged("input", q, y);
  }, false);
}
GROUP(ternary) {
  Rng g(seed());
  std::vector<VI> ss; for (int r = 0; r <= 2; r++) shapes(r, 1, 3, [&](const VI& s) { ss.push_back(s); }); ss.push_back({2, 1, 3}); ss.push_back({1, 3, 1}); ss.push_back({2, 3, 3}); ss.push_back({0}); ss.push_back({2, 0});
  for (auto& a : ss) for (auto& b : ss) for (auto& c : ss) {
    VI o; if (!bshape({a, b, c}, o)) continue;
    Nd x = vals(a, g, false), y = vals(b, g, false), z = vals(c, g, false), hi = z;
    input("ternary shapes %s %s %s", str(a).c_str(), str(b).c_str(), str(c).c_str());
    Tensor p = a.size() == 2 ? mkview(x) : mk(x), q = mk(y), r = mk(z);
    auto am = [](double u, double v, double w) { return u + 1.5 * v * w; };
    Nd e = ter(x, y, z, am);
    eq("addcmul", op::addcmul(p, q, r, 1.5f), e, 2e-5, 1e-6);
    Tensor out = mk(Nd(o, 5)); op::addcmulOut(out, p, q, r, 1.5f); eq("addcmul", out, e, 2e-5, 1e-6);
    for (auto& w : hi.v) w = w + 6.25;
    Tensor h = mk(hi); auto cl = [](double u, double v, double w) { return u < v ? v : u > w ? w : u; };
    Nd f = ter(x, y, hi, cl);
    eq("clamp", op::clamp(p, q, h), f); Tensor o2 = mk(Nd(o, 5)); op::clampOut(o2, p, q, h); eq("clamp", o2, f);
    if (o == a) { Tensor s = p.clone(); op::addcmulInplace(s, q, r, 1.5f); eq("addcmul", s, e, 2e-5, 1e-6); Tensor s2 = p.clone(); op::clampInplace(s2, q, h); eq("clamp", s2, f); }
    unchanged("input", p, x); unchanged("input", q, y); unchanged("input", r, z);
  }
}
GROUP(backward_kernels) {
  Rng g(seed());
  pairs([&](const VI& a, const VI& b) {
    Nd x = vals(a, g, true), y = vals(b, g, true); VI o; bshape({a, b}, o); Nd gr = vals(o, g, false);
    input("backward kernels shapes %s %s", str(a).c_str(), str(b).c_str());
    Tensor p = mk(x), q = mk(y), w = mk(gr);
    eq("divP2", op::divBackwardP2(w, p, q), ter(x, y, gr, [](double u, double v, double k) { return k * -u / (v * v); }), 2e-5, 1e-6);
    eq("powP1", op::powBackwardP1(w, p, q), ter(x, y, gr, [](double u, double v, double k) { return k * v * std::pow(u, v - 1); }), 1e-4, 1e-5);
    eq("powP2", op::powBackwardP2(w, p, q), ter(x, y, gr, [](double u, double v, double k) { return k * std::pow(u, v) * std::log(u); }), 1e-4, 1e-5);
    if (a == b) { eq("sinP1", op::sinBackwardP1(w, p), bin(x, gr, [](double u, double k) { return std::cos(u) * k; }), 2e-5, 1e-6); eq("cosP1", op::cosBackwardP1(w, p), bin(x, gr, [](double u, double k) { return -std::sin(u) * k; }), 2e-5, 1e-6); }
  }, true);
}
GROUP(operators) {
  Rng g(seed());
  for (VI s : {VI{}, VI{3}, VI{2, 3}, VI{1, 1}}) for (double k : {2.0, -0.5, 3.0}) {
    Nd x = vals(s, g, true); input("operators with scalar %g, shape %s values %s", k, str(s).c_str(), strv(x.v).c_str()); Tensor t = mk(x); Scalar c((float)k);
    auto e = [&](F1 f) { Nd r = x; for (auto& u : r.v) u = f(u); return r; };
    eq("t+s", t + c, e([&](double u) { return u + k; }), 1e-6, 1e-6); eq("t-s", t - c, e([&](double u) { return u - k; }), 1e-6, 1e-6); eq("t*s", t * c, e([&](double u) { return u * k; }), 1e-6, 1e-6); eq("t/s", t / c, e([&](double u) { return u / k; }), 1e-6, 1e-6);
    eq("s+t", c + t, e([&](double u) { return k + u; }), 1e-6, 1e-6); eq("s-t", c - t, e([&](double u) { return k - u; }), 1e-6, 1e-6); eq("s*t", c * t, e([&](double u) { return k * u; }), 1e-6, 1e-6); eq("s/t", c / t, e([&](double u) { return k / u; }), 1e-6, 1e-6);
    eq("t<s", t < c, e([&](double u) { return u < k; })); eq("t<=s", t <= c, e([&](double u) { return u <= k; })); eq("t>s", t > c, e([&](double u) { return u > k; })); eq("t>=s", t >= c, e([&](double u) { return u >= k; })); eq("t==s", t == c, e([&](double u) { return u == k; })); eq("t!=s", t != c, e([&](double u) { return u != k; }));
    eq("pow", t.pow(Scalar(2)), e([&](double u) { return u * u; }), 1e-5, 1e-6);
    Tensor cl = t.clone(); cl += c; eq("+=", cl, e([&](double u) { return u + k; }), 1e-6, 1e-6); cl -= c; eq("-=", cl, x, 1e-5, 1e-5); cl *= c; eq("*=", cl, e([&](double u) { return u * k; }), 1e-5, 1e-5); cl /= c; eq("/=", cl, x, 1e-5, 1e-5); unchanged("input", t, x);
    Nd y = vals(s, g, true); Tensor u = mk(y);
    eq("+", t + u, bin(x, y, [](double a, double b) { return a + b; }), 1e-6, 1e-6); eq("-", t - u, bin(x, y, [](double a, double b) { return a - b; }), 1e-6, 1e-6); eq("*", t * u, bin(x, y, [](double a, double b) { return a * b; }), 1e-6, 1e-6); eq("/", t / u, bin(x, y, [](double a, double b) { return a / b; }), 1e-6, 1e-6);
    eq("<", t < u, bin(x, y, [](double a, double b) -> double { return a < b; })); eq("<=", t <= u, bin(x, y, [](double a, double b) -> double { return a <= b; })); eq(">", t > u, bin(x, y, [](double a, double b) -> double { return a > b; })); eq(">=", t >= u, bin(x, y, [](double a, double b) -> double { return a >= b; })); eq("==", t == t, bin(x, x, [](double a, double b) -> double { return a == b; })); eq("!=", t != u, bin(x, y, [](double a, double b) -> double { return a != b; }));
    Tensor v = t.clone(); v += u; eq("+=", v, bin(x, y, [](double a, double b) { return a + b; }), 1e-6, 1e-6); v = t.clone(); v -= u; eq("-=", v, bin(x, y, [](double a, double b) { return a - b; }), 1e-6, 1e-6); v = t.clone(); v *= u; eq("*=", v, bin(x, y, [](double a, double b) { return a * b; }), 1e-6, 1e-6); v = t.clone(); v /= u; eq("/=", v, bin(x, y, [](double a, double b) { return a / b; }), 1e-6, 1e-6);
    eq("sin", t.sin(), e([](double u) { return std::sin(u); }), 1e-5, 1e-6); eq("cos", t.cos(), e([](double u) { return std::cos(u); }), 1e-5, 1e-6); eq("sqrt", t.sqrt(), e([](double u) { return std::sqrt(u); }), 1e-5, 1e-6);
    eq("Tmax", Tensor::maximum(t, u), bin(x, y, [](double a, double b) { return std::max(a, b); })); eq("Tmin", Tensor::minimum(t, u), bin(x, y, [](double a, double b) { return std::min(a, b); }));
    // the operand itself on both sides
    Tensor w = t.clone(); op::mulInplace(w, w); eq("alias", w, e([](double u) { return u * u; }), 1e-5, 1e-6); w = t.clone(); op::addInplace(w, w, 1); eq("alias", w, e([](double u) { return u + u; }), 1e-5, 1e-6);
  }
}
MAIN
