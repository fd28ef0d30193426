// C17: SmallVector / ArrayView.  Oracle: std::vector under the same history; live objects are counted.
#include "common.h"
static std::set<const void*>* live;
struct Obj {
  int64_t v; Obj* self;
  Obj() : v(0), self(this) { live->insert(this); }
  Obj(int64_t x) : v(x), self(this) { live->insert(this); }
  Obj(const Obj& o) : v(o.v), self(this) { chk(o); live->insert(this); }
  Obj(Obj&& o) noexcept : v(o.v), self(this) { chk(o); o.v = -999; live->insert(this); }
  Obj& operator=(const Obj& o) { chk(*this); chk(o); v = o.v; return *this; }
  Obj& operator=(Obj&& o) noexcept { chk(*this); chk(o); v = o.v; if (&o != this) o.v = -999; return *this; }
  ~Obj() { chk(*this); live->erase(this); self = nullptr; }
  static void chk(const Obj& o) { if (!live->count(&o) || o.self != &o) fail("lifetime", "an object that is not alive was used"); }
  bool operator==(const Obj& o) const { return v == o.v; }
};
static int64_t key(const Obj& o) { Obj::chk(o); return o.v; }
static int64_t key(int64_t o) { return o; }
static int64_t key(const std::string& o) { return o.empty() ? 0 : atoll(o.c_str() + 20); }
template <class T> T make(int64_t x) { return T(x); }
template <> std::string make<std::string>(int64_t x) { return x == 0 ? std::string() : "01234567890123456789" + std::to_string(x); }
template <class T, size_t N> static void cmp(const SmallVector<T, N>& a, const std::vector<T>& b, const char* what) {
  CHECK("size", a.size() == b.size() && a.empty() == b.empty(), "%s: size %zu expected %zu", what, a.size(), b.size());
  CHECK("capacity", a.capacity() >= a.size(), "capacity %zu below size %zu", a.capacity(), a.size());
  for (size_t i = 0; i < b.size(); i++) CHECK("element", key(a[i]) == key(b[i]) && key(*(a.begin() + i)) == key(b[i]) && key(a.data()[i]) == key(b[i]), "%s: element %zu is %lld expected %lld", what, i, (long long)key(a[i]), (long long)key(b[i]));
  CHECK("end", a.end() - a.begin() == (ptrdiff_t)b.size(), "end - begin");
  if (b.size()) CHECK("ends", key(a.front()) == key(b.front()) && key(a.back()) == key(b.back()), "front/back");
}
template <class T, size_t N> static void runs(const char* nm, int reps, int len) {
  Rng g(seed() * 77 + N);
  for (int r = 0; r < reps; r++) {
    std::set<const void*> L; live = &L;
    {
      typedef SmallVector<T, N> S; typedef std::vector<T> V;
      const int K = 3; S* a[K]; V b[K]; for (int i = 0; i < K; i++) a[i] = new S();
      std::string hist; int64_t ctr = 1;
      for (int k = 0; k < len; k++) {
        int o = (int)g.in(0, 22), i = (int)g.in(0, K - 1), j = (int)g.in(0, K - 1); size_t n = b[i].size(); char h[120];
        size_t q = n ? (size_t)g.in(0, (int64_t)n - 1) : 0; int64_t x = ctr++;
        size_t m = (size_t)g.in(0, (int64_t)N * 2 + 2);
        snprintf(h, sizeof h, "%d(%d,%d,%zu,%zu) ", o, i, j, q, m); hist += h; input("%s N=%zu history (op(i,j,q,m)): %s", nm, N, hist.size() > 3000 ? hist.c_str() + hist.size() - 3000 : hist.c_str());
        switch (o) {
          case 0: case 1: case 2: { T t = make<T>(x); a[i]->pushBack(t); b[i].push_back(t); break; }
          case 3: a[i]->pushBack(make<T>(x)); b[i].push_back(make<T>(x)); break;
          case 4: if (n) { a[i]->pushBack((*a[i])[q]); T t = b[i][q]; b[i].push_back(t); } break;
          case 5: { T t = make<T>(x); size_t p = (size_t)g.in(0, (int64_t)n); T* it = a[i]->insert(a[i]->begin() + p, t); b[i].insert(b[i].begin() + p, t); CHECK("insert", it == a[i]->begin() + p, "returned position"); break; }
          case 6: if (n) { size_t p = (size_t)g.in(0, (int64_t)n); T t = b[i][q]; a[i]->insert(a[i]->begin() + p, (*a[i])[q]); b[i].insert(b[i].begin() + p, t); } break;
          case 7: a[i]->clear(); b[i].clear(); break;
          case 8: { size_t c = a[i]->capacity(); a[i]->reserve(m); CHECK("reserve", a[i]->capacity() >= m && a[i]->capacity() >= c, "capacity %zu after reserve(%zu)", a[i]->capacity(), m); break; }
          case 9: a[i]->resize(m); b[i].resize(m); break;
          case 10: { T t = make<T>(x); a[i]->resize(m, t); b[i].resize(m, t); break; }
          case 11: if (n) { T t = b[i][q]; a[i]->resize(m, (*a[i])[q]); b[i].resize(m, t); } break;
          case 12: if (n) { (*a[i])[q] = make<T>(x); b[i][q] = make<T>(x); } break;
          case 13: *a[i] = *a[j]; b[i] = b[j]; break;
          case 14: *a[i] = std::move(*a[j]); if (i != j) { b[i] = b[j]; b[j].clear(); a[j]->clear(); } break;
          case 15: { S c(*a[i]); cmp(c, b[i], "copy"); if (n) c[q] = make<T>(-5); break; }
          case 16: { S c(std::move(*a[i])); cmp(c, b[i], "moved"); CHECK("moved-from", a[i]->size() == 0, "moved-from vector has %zu elements", a[i]->size()); *a[i] = std::move(c); break; }
          case 17: std::swap(*a[i], *a[j]); std::swap(b[i], b[j]); break;
          case 18: { S c(b[i]); cmp(c, b[i], "from vector"); break; }
          case 19: { ArrayView<T> v(a[i]->data(), a[i]->size()); CHECK("view", v.size() == n && v.empty() == (n == 0) && v.data() == a[i]->data(), "view"); for (size_t z = 0; z < n; z++) CHECK("view", key(v[z]) == key(b[i][z]) && key(*(v.begin() + z)) == key(b[i][z]), "view element %zu", z); CHECK("view", v.end() - v.begin() == (ptrdiff_t)n, "view length"); if (n) CHECK("view", key(v.front()) == key(b[i].front()) && key(v.back()) == key(b[i].back()), "view ends");
            S c(v); cmp(c, b[i], "from view"); ArrayView<T> w(b[j]); CHECK("view-eq", (v == w) == (b[i] == b[j]) && (v != w) == (b[i] != b[j]), "comparison of views"); if (n) { V d = b[i]; d[q] = make<T>(-7); CHECK("view-eq", !(v == ArrayView<T>(d)), "views that differ at %zu compare equal", q); V e = b[i]; e.pop_back(); CHECK("view-eq", v != ArrayView<T>(e), "views of different length compare equal"); } break; }
          case 20: { T t = make<T>(x); S c(m, t); cmp(c, V(m, t), "fill"); S d(m); cmp(d, V(m), "sized"); break; }
          case 21: { S c{make<T>(x), make<T>(x + 1), make<T>(x + 2)}; cmp(c, V{make<T>(x), make<T>(x + 1), make<T>(x + 2)}, "list"); break; }
          case 22: if (i != j) { delete a[i]; a[i] = new S(*a[j]); b[i] = b[j]; } break;
        }
        for (int z = 0; z < K; z++) cmp(*a[z], b[z], "vector");
        for (int y = 0; y < K; y++) for (int z = 0; z < y; z++) if (a[y]->capacity() && a[y]->data() == a[z]->data()) fail("shared", "two vectors share their elements");
      }
      for (int z = 0; z < K; z++) delete a[z];
    }
    CHECK("leak", L.empty(), "%zu objects were never destroyed", L.size());
  }
}
#define NOSELF
GROUP(objects5) { runs<Obj, 5>("counted object", thorough() ? 3000 : 300, 60); }
GROUP(objects2) { runs<Obj, 2>("counted object", thorough() ? 3000 : 300, 60); }
GROUP(objects1) { runs<Obj, 1>("counted object", thorough() ? 3000 : 200, 60); }
GROUP(ints) { runs<int64_t, 5>("int64_t", thorough() ? 5000 : 500, 80); }
GROUP(strings) { runs<std::string, 3>("string", thorough() ? 3000 : 300, 60); }
GROUP(views) {
  for (size_t n = 0; n < 12; n++) {
    std::vector<int64_t> v(n); for (size_t i = 0; i < n; i++) v[i] = (int64_t)i * 3 - 5;
    input("views of %zu elements", n);
    SizeVector s(v); IntArrayView a(v), b(s), c = s.view(), d(v.data(), n);
    for (auto& x : {a, b, c, d}) { CHECK("view", x.size() == n && (n == 0) == x.empty(), "size"); for (size_t i = 0; i < n; i++) CHECK("view", x[i] == v[i], "element"); size_t k = 0; for (auto y : x) { CHECK("view", y == v[k], "iteration"); k++; } CHECK("view", k == n, "iteration length"); CHECK("view-eq", x == a && !(x != a) && s == x && !(s != x), "equality"); }
    SizeVector t(a); CHECK("copy", t.size() == n, "size"); for (size_t i = 0; i < n; i++) CHECK("copy", t[i] == v[i], "element");
    if (n) { CHECK("range", rejects([&] { volatile int64_t q = a[n]; (void)q; }), "index past the end accepted"); }
  }
}
MAIN
