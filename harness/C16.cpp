// C16: 16-bit float conversion.  Oracle: value of a pattern by ldexp; nearest by integer rounding of the exact value.
#include "common.h"
static uint32_t fb(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static float bf(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
struct Fmt { const char* nm; int eb, mb; };
static const Fmt HF{"half", 5, 10}, BF{"bfloat16", 8, 7};
static bool isn(const Fmt& F, uint16_t h) { return (h & 0x7fff) > (((1 << F.eb) - 1) << F.mb); }
static bool isinf_(const Fmt& F, uint16_t h) { return (h & 0x7fff) == (((1 << F.eb) - 1) << F.mb); }
static double val(const Fmt& F, uint16_t h) {
  int e = (h >> F.mb) & ((1 << F.eb) - 1), m = h & ((1 << F.mb) - 1), bias = (1 << (F.eb - 1)) - 1;
  double v = e == (1 << F.eb) - 1 ? INFINITY : e == 0 ? std::ldexp(m, 1 - bias - F.mb) : std::ldexp((1 << F.mb) + m, e - bias - F.mb);
  return (h >> 15) ? -v : v;
}
// nearest by value: quotient of the exact value by the unit of its binade
static uint16_t nearest(const Fmt& F, float f) {
  uint16_t s = (uint16_t)((fb(f) >> 31) << 15); double x = std::fabs((double)f); int bias = (1 << (F.eb - 1)) - 1;
  if (x == 0) return s;
  uint16_t inf = (uint16_t)(((1 << F.eb) - 1) << F.mb);
  if (std::isinf(x)) return s | inf;
  int e; std::frexp(x, &e); e -= 1; if (e < 1 - bias) e = 1 - bias;
  double unit = std::ldexp(1.0, e - F.mb), q = x / unit; double fl = std::floor(q), r = q - fl;
  int64_t n = (int64_t)fl; if (r > 0.5 || (r == 0.5 && (n & 1))) n++;
  double y = std::ldexp((double)n, e - F.mb);
  if (y >= std::ldexp(1.0, bias + 1)) return s | inf;
  int64_t code = n >= (1 << F.mb) ? ((int64_t)(e + bias) << F.mb) + (n - (1 << F.mb)) : n;
  return s | (uint16_t)code;
}
template <class T> static void one(const Fmt& F, float f, const char* key) {
  T h(f); sh->checks++;
  if (std::isnan(f)) { if (!isn(F, h.x)) { input("%s from float bits 0x%08x", F.nm, fb(f)); fail(key, "NaN became 0x%04x", h.x); } return; }
  uint16_t e = nearest(F, f);
  if (h.x != e) { input("%s from float %.9g (bits 0x%08x)", F.nm, f, fb(f)); fail(key, "got 0x%04x (%g), nearest is 0x%04x (%g)", h.x, val(F, h.x), e, val(F, e)); }
}
template <class T> static void all16(const Fmt& F) {
  for (uint32_t i = 0; i < 65536; i++) {
    T h; h.x = (uint16_t)i; if (i % 4096 == 0) input("%s patterns from 0x%04x", F.nm, i);
    float f = h; sh->checks++;
    if (isn(F, h.x)) { if (!std::isnan(f)) { input("%s pattern 0x%04x", F.nm, i); fail("to-float", "a NaN became %g", f); } continue; }
    if ((double)f != val(F, h.x) || std::signbit(f) != (bool)(i >> 15)) { input("%s pattern 0x%04x", F.nm, i); fail("to-float", "got %.9g, denotes %.9g", f, val(F, h.x)); }
    T b(f); if (b.x != h.x) { input("%s pattern 0x%04x", F.nm, i); fail("round-trip", "back as 0x%04x", b.x); }
    // the midpoint to the next pattern and its neighbours
    if (!isinf_(F, h.x)) { uint16_t nx = (uint16_t)(i + 1); double m = isinf_(F, nx) ? (val(F, h.x) + (i >> 15 ? -1 : 1) * std::ldexp(1.0, (1 << (F.eb - 1)) )) / 2 : (val(F, h.x) + val(F, nx)) / 2;
      float g = (float)m; for (int d = -2; d <= 2; d++) one<T>(F, bf(fb(g) + d), "from-float"); }
    T c((unsigned short)i, typename T::from_bits_t()); if (c.x != i) { input("%s from bits 0x%04x", F.nm, i); fail("from-bits", "stored 0x%04x", c.x); }
  }
}
GROUP(half_all) { all16<Half>(HF); }
GROUP(bfloat16_all) { all16<BFloat16>(BF); }
template <class T> static void sweep(const Fmt& F) {
  if (const char* w = getenv("HARNESS_WORK")) { std::string p = std::string(w) + "/cex.txt"; if (FILE* f = fopen(p.c_str(), "r")) { char nm[100]; unsigned v; while (fscanf(f, "%99s %x", nm, &v) == 2) if (strstr(nm, "ctor_float")) { input("counterexample of the verifier: float bits 0x%08x to %s", v, F.nm); one<T>(F, bf(v), "from-float"); } fclose(f); } }
  if (thorough()) { for (uint64_t u = 0; u < (1ull << 32); u++) { if (!(u & 0xffffff)) input("%s from float bits 0x%08x..", F.nm, (uint32_t)u); one<T>(F, bf((uint32_t)u), "from-float"); } return; }
  Rng g(seed());
  for (uint32_t e = 0; e < 512; e++) { input("%s from floats with sign/exponent 0x%x", F.nm, e); for (int k = 0; k < 24; k++) for (int j = 0; j < 24; j++) { uint32_t m = (1u << k) | (1u << j); for (uint32_t z : {m, m - 1, ~m}) one<T>(F, bf((e << 23) | (z & 0x7fffff)), "from-float"); } for (int k = 0; k < 1500; k++) one<T>(F, bf((e << 23) | (uint32_t)(g.next() & 0x7fffff)), "from-float"); }
}
Reg rs1("half_floats", [] { sweep<Half>(HF); }, 200); Reg rs2("bfloat16_floats", [] { sweep<BFloat16>(BF); }, 200);
// conversions through tensors and scalars use the same values
GROUP(tensors) {
  Rng g(seed());
  for (int k = 0; k < 60; k++) {
    Nd x({1 + k % 5, 7}); for (auto& v : x.v) v = (double)bf((uint32_t)((g.in(0, 1) << 31) | (g.in(k % 2 ? 96 : 1, k % 2 ? 146 : 254) << 23) | (g.next() & 0x7fffff)));
    if (k % 3 == 0) { x.v[0] = INFINITY; x.v[1] = -INFINITY; x.v[2] = -0.0; x.v[3] = 65519.9; x.v[4] = 65520; x.v[5] = 1e-8; x.v[6] = std::ldexp(1, -25); }
    std::vector<float> f(x.v.begin(), x.v.end()); for (size_t i = 0; i < f.size(); i++) x.v[i] = f[i];
    input("tensor of %s", strv(f).c_str());
    Tensor t = mk(x); Nd e1(x.s), e2(x.s);
    for (size_t i = 0; i < f.size(); i++) { e1.v[i] = val(HF, nearest(HF, f[i])); e2.v[i] = val(BF, nearest(BF, f[i])); }
    Tensor a = t.to(DType::Float16), b = t.to(DType::BFloat16);
    CHECK("dtype", a.dtype() == DType::Float16 && b.dtype() == DType::BFloat16, "dtype");
    eq("to-half", a, e1); eq("to-bfloat16", b, e2); eq("half-to-float", a.to(DType::Float32), e1); eq("bfloat16-to-float", b.to(DType::Float32), e2); unchanged("input", t, x);
    Half hh(f[0]); BFloat16 bb(f[0]); Scalar s(hh), s2(bb); CHECK("scalar", same(s.to<float>(), e1.v[0]) && same(s2.to<float>(), e2.v[0]), "scalar conversion");
    CHECK("scalar", same((float)Scalar(f[0]).to<Half>(), e1.v[0]) && same((float)Scalar(f[0]).to<BFloat16>(), e2.v[0]), "scalar conversion");
  }
}
MAIN
