// Shared by the bounded stand-in / concretisation harnesses: groups run in forked children, every check names the
// input it was made on; a crash, a sanitizer report or a mismatch of any check is reported with that input.
#pragma once
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdint>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
#include <random>
#include "Tensor.h"
#include "Functions.h"
#include "Operations.h"

namespace H {
using namespace tinytorch;
typedef std::vector<int64_t> VI;
struct Shared { char input[4000]; char key[200]; char what[3000]; char sample[600]; int64_t cases, checks; int failed; int rejected; };
inline Shared* sh;
inline bool thorough() { const char* t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }
inline uint64_t seed() { const char* t = getenv("VERIF_SEED"); return t ? strtoull(t, 0, 10) : 1; }
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 12345) {}
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
  int64_t in(int64_t a, int64_t b) { return a + (int64_t)((next() >> 11) % (uint64_t)(b - a + 1)); }
  float f(float a, float b) { return a + (b - a) * (float)((next() >> 40) / 16777216.0); }
  bool coin() { return next() >> 63; }
};
struct Failed {};
inline void input(const char* fmt, ...) {
  va_list a; va_start(a, fmt); vsnprintf(sh->input, sizeof sh->input, fmt, a); va_end(a);
  for (char* c = sh->input; *c; c++) if (*c == '\n' || *c == '\t') *c = ' ';
  sh->cases++;
  if (sh->cases == 3) snprintf(sh->sample, sizeof sh->sample, "%.500s", sh->input);
}
inline void fail(const char* key, const char* fmt, ...) {
  va_list a; va_start(a, fmt); vsnprintf(sh->what, sizeof sh->what, fmt, a); va_end(a);
  for (char* c = sh->what; *c; c++) if (*c == '\n' || *c == '\t') *c = ' ';
  snprintf(sh->key, sizeof sh->key, "%s", key); sh->failed = 1;
  _exit(3);
}
#define CHECK(key, cond, ...) do { H::sh->checks++; if (!(cond)) H::fail(key, __VA_ARGS__); } while (0)

struct Group { const char* name; std::function<void()> f; int secs; };
inline std::vector<Group>& groups() { static std::vector<Group> g; return g; }
struct Reg { Reg(const char* n, std::function<void()> f, int secs = 120) { groups().push_back({n, f, secs}); } };
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define GROUP(name) static void CAT(g_, name)(); static H::Reg CAT(r_, name)(#name, CAT(g_, name)); static void CAT(g_, name)()

inline int run_all(int argc, char** argv) {
  const char* only = nullptr;
  for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--only")) only = argv[i + 1];
  int n = 0, bad = 0;
  std::vector<Group> gs; for (auto& g : groups()) if (!only || !strcmp(only, g.name)) gs.push_back(g);
  size_t maxp = 6;
  struct Run { pid_t p; Shared* s; size_t gi; };
  std::vector<Run> live; size_t nxt = 0;
  setvbuf(stdout, nullptr, _IONBF, 0);
  auto reap = [&]() {
    int st; pid_t p = waitpid(-1, &st, 0);
    for (size_t k = 0; k < live.size(); k++) if (live[k].p == p) {
      Shared* s = live[k].s; const char* nm = gs[live[k].gi].name;
      bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0 && !s->failed;
      printf("@G %s %lld %lld %s\n", nm, (long long)s->cases, (long long)s->checks, ok ? "ok" : "FAIL");
      if (s->sample[0]) printf("@S %s: %s\n", nm, s->sample);
      if (!ok) {
        bad++;
        if (!s->failed) {
          char b[300];
          if (WIFSIGNALED(st)) {
            snprintf(b, sizeof b, WTERMSIG(st) == SIGALRM ? "no answer within the time limit (signal %d)" : WTERMSIG(st) == SIGTRAP ? "a valid request was rejected (signal %d)" : "crashed with signal %d", WTERMSIG(st));
            printf("@F\t%s\t%s\t%s\t%s\n", nm, WTERMSIG(st) == SIGTRAP ? "rejected" : WTERMSIG(st) == SIGALRM ? "hang" : "crash", s->input, b);
          } else printf("@F\t%s\t%s\t%s\tchild exit status %d (99: memory error reported by AddressSanitizer)\n", nm, "memory", s->input, WEXITSTATUS(st));
        } else printf("@F\t%s\t%s\t%s\t%s\n", nm, s->key, s->input, s->what);
      }
      munmap(s, sizeof(Shared)); live.erase(live.begin() + k); break;
    }
  };
  for (;;) {
    while (live.size() < maxp && nxt < gs.size()) {
      Shared* s = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      pid_t p = fork();
      if (!p) {
        sh = s; int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); if (!getenv("HARNESS_VERBOSE")) dup2(dn, 2);
        for (int g : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGABRT}) signal(g, SIG_DFL);
        alarm((unsigned)(gs[nxt].secs * (thorough() ? 8 : 1)));
        gs[nxt].f(); _exit(0);
      }
      live.push_back({p, s, nxt}); nxt++; n++;
    }
    if (live.empty()) break;
    reap();
  }
  return bad ? 1 : 0;
}
// runs f in a grandchild; true when it was rejected (trap) instead of completing.  Anything else than a normal end or
// a trap is reported as a failure of the current input.
inline bool rejects(const std::function<void()>& f) {
  pid_t p = fork();
  if (!p) { alarm(30); f(); _exit(0); }
  int st; waitpid(p, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 3) _exit(3);
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGTRAP) return true;
  fail(WIFEXITED(st) ? "memory" : "crash", "status %d (exit 99 = memory error reported by AddressSanitizer)", st);
  return false;
}
#define MAIN int main(int argc, char** argv) { return H::run_all(argc, argv); }

// ------------------------------------------------------------------ reference arrays
inline int64_t prod(const VI& s) { int64_t n = 1; for (auto x : s) n *= x; return n; }
inline std::string str(const VI& v) { std::string r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + std::to_string(v[i]); return r + "]"; }
template <class T> std::string strv(const std::vector<T>& v, size_t lim = 24) { std::string r = "["; for (size_t i = 0; i < v.size() && i < lim; i++) { char b[40]; snprintf(b, 40, "%s%.9g", i ? "," : "", (double)v[i]); r += b; } return r + (v.size() > lim ? ",..]" : "]"); }
struct Nd {
  VI s; std::vector<double> v;
  Nd() {}
  explicit Nd(VI sh, double x = 0) : s(std::move(sh)), v((size_t)prod(s), x) {}
  int64_t n() const { return (int64_t)v.size(); }
  int64_t ix(const VI& c) const { int64_t o = 0; for (size_t d = 0; d < s.size(); d++) o = o * s[d] + c[d]; return o; }
  double& at(const VI& c) { return v[(size_t)ix(c)]; }
  double at(const VI& c) const { return v[(size_t)ix(c)]; }
};
inline VI unravel(const VI& s, int64_t i) { VI c(s.size()); for (int64_t d = (int64_t)s.size() - 1; d >= 0; d--) { c[d] = s[d] ? i % s[d] : 0; i = s[d] ? i / s[d] : 0; } return c; }
inline void each(const VI& s, const std::function<void(const VI&)>& f) { int64_t n = prod(s); for (int64_t i = 0; i < n; i++) f(unravel(s, i)); }
// all shapes of rank r with extents in [lo,hi]
inline void shapes(int r, int64_t lo, int64_t hi, const std::function<void(const VI&)>& f) {
  VI b((size_t)r, hi - lo + 1); int64_t n = prod(b);
  for (int64_t i = 0; i < n; i++) { VI c = unravel(b, i); for (auto& x : c) x += lo; f(c); }
}
inline IntArrayView av(const VI& v) { return IntArrayView(v.data(), v.size()); }
inline SizeVector sv(const VI& v) { SizeVector r; for (auto x : v) r.pushBack(x); return r; }
inline Tensor mk(const Nd& a, DType t = DType::Float32, bool grad = false) {
  std::vector<float> f(a.v.begin(), a.v.end());
  auto sh_ = sv(a.s);
  Tensor r = Tensor(f, sh_, options::dtype(DType::Float32));
  if (t != DType::Float32) {
    if (t == DType::Int64) { std::vector<int64_t> q(a.v.begin(), a.v.end()); r = Tensor(q, sh_, options::dtype(t)); }
    else r = r.to(t);
  }
  if (grad) r.setRequiresGrad(true);
  return r;
}
inline Tensor mki(const VI& v, const VI& shape) { auto s_ = sv(shape); return Tensor(std::vector<int64_t>(v), s_, options::dtype(DType::Int64)); }
inline VI shp(const Tensor& t) { VI r; for (auto x : t.shape()) r.push_back(x); return r; }
// elements read straight from memory (linear order), independent of toList
template <class T> double conv(T x) { return (double)(float)x; }
template <> inline double conv(int64_t x) { return (double)x; }
template <> inline double conv(int32_t x) { return (double)x; }
template <> inline double conv(uint8_t x) { return (double)x; }
template <> inline double conv(bool x) { return (double)x; }
inline Nd rd(const Tensor& t) {
  Nd r(shp(t));
  for (int64_t i = 0; i < r.n(); i++) switch (t.dtype()) {
    case DType::Float32: r.v[i] = conv(t.dataPtr<float>()[i]); break;
    case DType::Float16: r.v[i] = conv(t.dataPtr<Half>()[i]); break;
    case DType::BFloat16: r.v[i] = conv(t.dataPtr<BFloat16>()[i]); break;
    case DType::Int32: r.v[i] = conv(t.dataPtr<int32_t>()[i]); break;
    case DType::Int64: r.v[i] = conv(t.dataPtr<int64_t>()[i]); break;
    case DType::Bool: r.v[i] = conv(t.dataPtr<uint8_t>()[i]); break;
    default: break;
  }
  return r;
}
inline bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
inline bool close(double a, double b, double rtol, double atol) {
  if (same(a, b)) return true;
  if (std::isinf(a) || std::isinf(b) || std::isnan(a) || std::isnan(b)) return false;
  return std::fabs(a - b) <= atol + rtol * std::max(std::fabs(a), std::fabs(b));
}
inline void geo(const char* key, const Tensor& t) {
  CHECK(key, t.defined(), "result is undefined");
  VI s = shp(t); int64_t e = 1;
  for (int64_t d = (int64_t)s.size() - 1; d >= 0; d--) { CHECK(key, t.stride(d) == e, "stride of dimension %lld is %lld, expected %lld for shape %s", (long long)d, (long long)t.stride(d), (long long)e, str(s).c_str()); e *= s[d]; }
  CHECK(key, t.numel() == prod(s), "numel %lld does not match shape %s", (long long)t.numel(), str(s).c_str());
  CHECK(key, t.dim() == (int64_t)s.size(), "dim");
  CHECK(key, (int64_t)t.strides().size() == t.dim(), "number of strides");
}
inline void eq(const char* key, const Tensor& t, const Nd& e, double rtol = 0, double atol = 0) {
  geo(key, t);
  VI s = shp(t);
  CHECK(key, s == e.s, "shape %s, expected %s", str(s).c_str(), str(e.s).c_str());
  Nd g = rd(t);
  for (int64_t i = 0; i < g.n(); i++)
    CHECK(key, (rtol == 0 && atol == 0) ? same(g.v[i], e.v[i]) : close(g.v[i], e.v[i], rtol, atol), "element %s of shape %s is %.9g, expected %.9g", str(unravel(s, i)).c_str(), str(s).c_str(), g.v[i], e.v[i]);
}
inline void unchanged(const char* key, const Tensor& t, const Nd& before) { eq(key, t, before); }
// distinct values 1..n (exact in float)
inline Nd iota(const VI& s, double base = 1) { Nd r(s); for (int64_t i = 0; i < r.n(); i++) r.v[i] = base + i; return r; }
inline Nd rnd(const VI& s, Rng& g, float lo = -2, float hi = 2) { Nd r(s); for (auto& x : r.v) x = g.f(lo, hi); return r; }
inline Nd rndi(const VI& s, Rng& g, int lo, int hi) { Nd r(s); for (auto& x : r.v) x = (double)g.in(lo, hi); return r; }
// a view of the given shape that starts at a non-zero offset of a larger storage (rank >= 1), holding a's elements
inline Tensor mkview(const Nd& a, DType t = DType::Float32) {
  int64_t n = a.n(); if (n == 0) return mk(a, t);
  Nd big(VI{3 * n}, -77); for (int64_t i = 0; i < n; i++) big.v[(size_t)(n + i)] = a.v[(size_t)i];
  Tensor b = mk(big, t);
  return op::narrow(b, 0, n, n).reshape(av(a.s));
}
}  // namespace H
using namespace H;
