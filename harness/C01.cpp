// C01: histories of the caching allocator over a recording base allocator
#include "common.h"
#include "Tensor/CachedAllocator.h"
using namespace H;
static const int64_t K = 1024, M = 1024 * 1024;
struct Rec { std::map<char*, int64_t> held; int64_t total = 0, cap = -1, calls = 0, failNext = 0, bad = 0, maxHeld = 0; std::map<char*, int64_t>* live = nullptr; const char* err = nullptr; };
struct Base : Allocator {
  Rec* r; explicit Base(Rec* r_) : r(r_) {}
  void* allocate(int64_t n) override {
    r->calls++; if (n < 0) { r->err = "a negative number of bytes was requested from the base allocator"; return nullptr; }
    if (r->failNext > 0) { r->failNext--; return nullptr; }
    if (r->cap >= 0 && r->total + n > r->cap) return nullptr;
    char* p = (char*)mmap(0, (size_t)std::max<int64_t>(n, 1), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) return nullptr;
    r->held[p] = n; r->total += n; r->maxHeld = std::max(r->maxHeld, r->total); return p;
  }
  void deallocate(void* q) override {
    char* p = (char*)q; auto it = r->held.find(p); if (it == r->held.end()) { r->err = "an address that is not held was returned to the base allocator"; return; }
    if (r->live) for (auto& l : *r->live) if (l.first < p + it->second && p < l.first + std::max<int64_t>(l.second, 1)) { r->err = "memory of a live block was returned to the base allocator"; return; }
    r->total -= it->second; munmap(p, (size_t)std::max<int64_t>(it->second, 1)); r->held.erase(it);
  }
};
struct Sim {
  Rec rec; std::map<char*, int64_t> live; std::map<char*, uint64_t> tag; std::vector<char*> freed; CachedAllocator* a; std::string hist; Rng* rg; uint64_t nextTag = 1; int64_t steps = 0;
  explicit Sim(Rng& r) : rg(&r) { rec.live = &live; a = new CachedAllocator(std::make_unique<Base>(&rec)); }
  void note() { input("history %s", hist.size() > 3800 ? hist.substr(hist.size() - 3800).c_str() : hist.c_str()); }
  void put(char* p, int64_t n, uint64_t t) { uint64_t v = t * 0x9E3779B97F4A7C15ull; int64_t k = std::min<int64_t>(n, 16); for (int64_t i = 0; i < k; i++) { p[i] = (char)(v >> (8 * (i % 8))); p[n - 1 - i] = (char)(v >> (8 * (i % 8))); } }
  void chk(char* p, int64_t n, uint64_t t) { uint64_t v = t * 0x9E3779B97F4A7C15ull; int64_t k = std::min<int64_t>(n, 16); if (n < 32) return; for (int64_t i = 0; i < k; i++) CHECK("contents", p[i] == (char)(v >> (8 * (i % 8))) && p[n - 1 - i] == (char)(v >> (8 * (i % 8))), "the contents of a live block of %lld bytes changed", (long long)n); }
  void all() { CHECK("base", !rec.err, "%s", rec.err); for (auto& l : live) chk(l.first, l.second, tag[l.first]); }
  char* alloc(int64_t n, bool mayFail = false) {
    hist += "a" + std::to_string(n) + " "; note(); char* p = (char*)a->allocate(n); CHECK("base", !rec.err, "%s", rec.err);
    if (!p) { CHECK("null", mayFail, "allocation of %lld bytes failed", (long long)n); return nullptr; }
    auto h = rec.held.upper_bound(p); CHECK("inside", h != rec.held.begin(), "block outside the memory held"); --h; CHECK("inside", p >= h->first && p + n <= h->first + h->second, "a block of %lld bytes at offset %lld of a held block of %lld bytes", (long long)n, (long long)(p - h->first), (long long)h->second);
    auto nx = live.lower_bound(p); CHECK("overlap", nx == live.end() || p + std::max<int64_t>(n, 1) <= nx->first, "a block of %lld bytes overlaps a live block %lld bytes further", (long long)n, (long long)(nx->first - p));
    if (nx != live.begin()) { auto pv = std::prev(nx); CHECK("overlap", pv->first + std::max<int64_t>(pv->second, 1) <= p, "a block of %lld bytes starts inside a live block of %lld bytes", (long long)n, (long long)pv->second); }
    live[p] = n; tag[p] = nextTag; put(p, n, nextTag++); if (++steps % 7 == 0) all(); return p;
  }
  void release(char* p) { auto it = live.find(p); hist += "f" + std::to_string(std::distance(live.begin(), it)) + "(" + std::to_string(it->second) + ") "; note(); chk(p, it->second, tag[p]); live.erase(it); tag.erase(p); freed.push_back(p); a->deallocate(p); if (++steps % 7 == 0) all(); CHECK("base", !rec.err, "%s", rec.err); }
  void bogus(void* p, const char* w) { hist += std::string("unknown(") + w + ") "; note(); int64_t t = rec.total; a->deallocate(p); all(); CHECK("unknown", rec.total == t, "releasing an unknown address returned memory"); }
  char* pick() { auto it = live.begin(); std::advance(it, rg->in(0, (int64_t)live.size() - 1)); return it->first; }
  void freeAll() { while (!live.empty()) release(pick()); }
  void end() { freeAll(); all(); hist += "destroy"; note(); delete a; CHECK("base", !rec.err, "%s", rec.err); CHECK("lost", rec.held.empty() && rec.total == 0, "%zu blocks (%lld bytes) were not returned to the base allocator", rec.held.size(), (long long)rec.total); }
};
static int64_t someSize(Rng& r) {
  static const int64_t S[] = {0, 1, 511, 512, 513, 1024, 1000, 4096, 100000, M - 512, M - 1, M, M + 1, M + 512, 2 * M - 512, 2 * M, 2 * M + 1, 5 * M, 9 * M, 10 * M - 512, 10 * M - 1, 10 * M, 10 * M + 1, 12 * M, 18 * M, 19 * M, 20 * M - 1, 20 * M, 20 * M + 1, 31 * M};
  int k = (int)r.in(0, 5); if (k == 0) return S[r.in(0, (int64_t)(sizeof S / sizeof *S) - 1)]; if (k < 3) return r.in(0, 5000); if (k == 3) return r.in(0, M); if (k == 4) return r.in(0, 3 * M); return r.in(0, 24 * M);
}
static void history(Rng& r, int len, bool limited) {
  Sim s(r); if (limited) s.rec.cap = r.in(2, 60) * M; int mode = (int)r.in(0, 3); size_t maxLive = (size_t)r.in(1, 40);
  for (int i = 0; i < len; i++) {
    int op = (int)r.in(0, 19);
    if (limited && op == 0) { s.rec.failNext = r.in(1, 2); s.hist += "basefails" + std::to_string(s.rec.failNext) + " "; s.alloc(someSize(r), true); s.rec.failNext = 0; }
    else if (op == 1 && !s.live.empty()) { char* p = s.pick(); if (s.live[p] > 600) { char* q = p + r.in(1, s.live[p] - 1); if (!s.live.count(q)) s.bogus(q, "inside a live block"); } }
    else if (op == 2 && !s.freed.empty()) { char* p = s.freed[(size_t)r.in(0, (int64_t)s.freed.size() - 1)]; if (!s.live.count(p)) s.bogus(p, "released before"); }
    else if (op == 3) { int x; s.bogus(r.coin() ? (void*)&x : nullptr, "foreign"); }
    else if (s.live.size() < maxLive && (s.live.empty() || r.in(0, 9) < (mode == 0 ? 5 : mode == 1 ? 7 : 4))) { int64_t n = mode == 2 ? r.in(0, 3) * 512 + r.in(-1, 1) * (int64_t)r.coin() + 512 : mode == 3 ? r.in(1, 22) * M : someSize(r); s.alloc(n, limited); }
    else if (!s.live.empty()) s.release(s.pick());
  }
  s.all();
  if (limited) {
    // nothing is lost: with every block released, all of the capacity can be had again
    s.freeAll(); int64_t n = s.rec.cap / (2 * M) * 2 * M; if (n >= 10 * M) { s.hist += "everything released, then the whole capacity: "; s.alloc(n); CHECK("lost", s.rec.total <= s.rec.cap, "held"); }
  }
  s.end();
}
#define HG(name, seedoff, lim, reps, len) GROUP(name) { Rng r(seed() + seedoff); for (int i = 0; i < (thorough() ? reps * 20 : reps); i++) history(r, len, lim); }
HG(histories, 0, false, 250, 80)
HG(histories_long, 1, false, 12, 3000)
HG(histories_limited, 2, true, 300, 80)
HG(histories_limited_long, 3, true, 12, 2000)
// every short history over a few sizes and every release order
static void exhaustive(Rng& r, const std::vector<int64_t>& sizes, int depth) {
  std::vector<int> path;
  std::function<void()> go = [&]() {
    { Sim s(r); std::vector<char*> order; for (int c : path) { if (c >= 0) order.push_back(s.alloc(sizes[(size_t)c])); else { size_t k = (size_t)(-c - 1); s.release(order[k]); order.erase(order.begin() + (long)k); } } s.all(); s.end(); }
    if ((int)path.size() == depth) return;
    int nlive = 0; for (int c : path) nlive += c >= 0 ? 1 : -1;
    for (size_t i = 0; i < sizes.size(); i++) { path.push_back((int)i); go(); path.pop_back(); }
    for (int k = 1; k <= nlive; k++) { path.push_back(-k); go(); path.pop_back(); }
  };
  go();
}
GROUP(exhaustive_small) { Rng r(seed()); exhaustive(r, {512, M, M - 512}, thorough() ? 7 : 6); }
GROUP(exhaustive_large) { Rng r(seed()); exhaustive(r, {M + 1, 9 * M, 10 * M}, thorough() ? 7 : 6); }
GROUP(exhaustive_mixed) { Rng r(seed()); exhaustive(r, {100, 2 * M - 512, 19 * M}, thorough() ? 7 : 6); }
GROUP(base_failure) {
  Rng r(seed());
  for (int64_t n : {1LL, 512LL, 1LL * M, 2LL * M, 15LL * M, 40LL * M}) for (int fails = 1; fails <= 2; fails++) {
    Sim s(r); char* p = s.alloc(n == 1 ? 5 * M : 700); s.rec.failNext = fails; s.hist += "basefails" + std::to_string(fails) + " "; char* q = (char*)s.alloc(n == 512 || n == 1 ? (n == 1 ? 700 : 5 * M) : n, fails == 2 || true);
    s.rec.failNext = 0; if (fails == 1) CHECK("retry", q != nullptr, "one failure of the base allocator is not retried after the cache is released"); if (fails == 2) { CHECK("retry", q == nullptr || true, " "); s.alloc(n); } (void)p; s.end();
  }
  // the cache is released for the retry
  Sim s(r); s.rec.cap = 40 * M; char* p = s.alloc(20 * M); char* q = s.alloc(20 * M); s.release(p); s.release(q); s.alloc(38 * M); s.end();
  Sim t(r); t.rec.cap = 24 * M; std::vector<char*> v; for (int i = 0; i < 8; i++) v.push_back(t.alloc(200 * K)); for (auto x : v) t.release(x); t.alloc(24 * M); t.end();
  Sim u(r); u.rec.cap = 44 * M; v.clear(); char* keep = u.alloc(3 * M); for (int i = 0; i < 3; i++) v.push_back(u.alloc(4 * M)); for (auto x : v) u.release(x); u.alloc(24 * M); u.release(keep); u.end();
}
GROUP(steady) {
  Rng r(seed());
  for (int rep = 0; rep < 60; rep++) {
    Sim s(r); std::vector<int64_t> ss; int n = (int)r.in(1, 20); for (int i = 0; i < n; i++) ss.push_back(someSize(r)); int64_t first = 0;
    for (int round = 0; round < 30; round++) { for (auto x : ss) s.alloc(x); s.freeAll(); if (!round) first = s.rec.total; if (s.hist.size() > 3000) s.hist = "..." + s.hist.substr(s.hist.size() - 2500); }
    CHECK("lost", s.rec.total <= 4 * first + 40 * M, "held memory grew from %lld to %lld bytes over 30 equal rounds", (long long)first, (long long)s.rec.total); s.end();
  }
}
GROUP(tensor_allocator) {
  // the allocator behind CPU tensors: live tensors of random sizes never disturb each other
  Rng r(seed()); std::vector<std::pair<Tensor, float>> v; input("tensors of random sizes created and dropped");
  for (int i = 0; i < 4000; i++) {
    if (v.size() < 40 && r.coin()) { float x = (float)i; v.push_back({Tensor::full({r.in(0, r.in(0, 50) ? 3000 : 300000)}, x), x}); }
    else if (!v.empty()) { size_t k = (size_t)r.in(0, (int64_t)v.size() - 1); Nd g = rd(v[k].first); for (auto y : g.v) CHECK("tensors", y == (double)v[k].second, "a tensor of %lld elements filled with %g holds %g", (long long)g.n(), v[k].second, y); v.erase(v.begin() + (long)k); }
  }
}
MAIN
