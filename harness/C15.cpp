// C15: samplers and the data loader.  Oracle: the list of indices the sampler reports, cut into batches.
#include "common.h"
#include "Data/DataLoader.h"
#include "Data/Dataset.h"
#include "Data/Sampler.h"
#include <memory>
using namespace tinytorch::data;
typedef std::vector<size_t> VS;
struct Set : Dataset { size_t n; mutable std::vector<size_t> asked; explicit Set(size_t k) : n(k) {} size_t size() const override { return n; }
  std::vector<Tensor> getItem(size_t i) override { asked.push_back(i); CHECK("sample-range", i < n, "sample %zu of %zu requested", i, n); Nd a({2}); a.v = {(double)i, (double)i * 2 + 1}; return {mk(a), mk(Nd({1}, -(double)i)), mki({(int64_t)i}, {})}; } };
struct Fixed : Sampler { VS v; explicit Fixed(VS x) : v(std::move(x)) {} VS indices() const override { return v; } size_t size() const override { return v.size(); } };
static std::string vs(const VS& v) { std::string r = "["; for (size_t i = 0; i < v.size() && i < 40; i++) r += (i ? "," : "") + std::to_string(v[i]); return r + (v.size() > 40 ? ",..]" : "]"); }
// one pass: returns the indices seen; checks batch numbers, sizes and contents
static VS pass(const DataLoader& l, Set& s, size_t bs, size_t n, bool drop) {
  VS seen; size_t nb = 0; size_t want = drop ? n / bs : n / bs + (n % bs ? 1 : 0);
  CHECK("batch-count", l.size() == want, "reported number of batches %zu, expected %zu", l.size(), want);
  CHECK("batch-size", l.batchSize() == bs, "batch size"); s.asked.clear();
  for (auto [k, b] : l) {
    CHECK("batch-number", k == nb, "batch number %zu, expected %zu", k, nb); nb++;
    CHECK("batch-number", nb <= want, "more batches than reported");
    size_t m = nb < want || n % bs == 0 || drop ? bs : n % bs;
    CHECK("batch-parts", b.size() == 3, "%zu tensors per sample", b.size());
    CHECK("batch-shape", shp(b[0]) == VI({(int64_t)m, 2}) && shp(b[1]) == VI({(int64_t)m, 1}) && shp(b[2]) == VI({(int64_t)m}), "batch %zu has shapes %s %s %s, expected %zu samples", k, str(shp(b[0])).c_str(), str(shp(b[1])).c_str(), str(shp(b[2])).c_str(), m);
    Nd x = rd(b[0]), y = rd(b[1]), z = rd(b[2]);
    for (size_t i = 0; i < m; i++) { size_t q = (size_t)z.v[i]; CHECK("batch-content", x.v[2 * i] == (double)q && x.v[2 * i + 1] == (double)q * 2 + 1 && y.v[i] == -(double)q, "row %zu of batch %zu mixes samples", i, k); seen.push_back(q); }
  }
  CHECK("batch-count", nb == l.size(), "%zu batches produced, %zu reported", nb, l.size());
  CHECK("sample-once", s.asked == seen, "samples read %s, delivered %s", vs(s.asked).c_str(), vs(seen).c_str());
  return seen;
}
static VS cut(VS v, size_t bs, bool drop) { if (drop) v.resize(v.size() / bs * bs); return v; }
GROUP(sequential) {
  for (size_t n = 0; n <= 23; n++) for (size_t bs = 1; bs <= 9; bs++) for (bool drop : {false, true}) {
    input("sequential sampler over %zu samples, batches of %zu, dropLast %d", n, bs, drop);
    auto s = std::make_shared<Set>(n); VS e; for (size_t i = 0; i < n; i++) e.push_back(i);
    auto sm = std::make_shared<SequentialSampler>(n); CHECK("sequential", sm->indices() == e && sm->size() == n, "indices %s", vs(sm->indices()).c_str());
    DataLoader l(s, bs, sm, true, drop); CHECK("order", pass(l, *s, bs, n, drop) == cut(e, bs, drop), "order"); CHECK("order", pass(l, *s, bs, n, drop) == cut(e, bs, drop), "order of the second pass");
    DataLoader d(s, bs, nullptr, false, drop); CHECK("order", pass(d, *s, bs, n, drop) == cut(e, bs, drop), "order without sampler and shuffling");
    CHECK("dataset", &d.dataset() == s.get(), "dataset");
  }
}
static void perm(const char* key, VS v, size_t n) { VS q = v; std::sort(q.begin(), q.end()); bool ok = q.size() == n; for (size_t i = 0; ok && i < n; i++) ok = q[i] == i; CHECK(key, ok, "not a permutation of 0..%zu: %s", n ? n - 1 : 0, vs(v).c_str()); }
GROUP(random) {
  for (size_t n = 0; n <= 23; n++) for (size_t bs : {1, 2, 3, 5, 8}) for (bool drop : {false, true}) for (unsigned long sd : {0ul, 1ul, 77ul}) {
    input("random sampler over %zu samples seed %lu, batches of %zu, dropLast %d", n, sd, bs, drop);
    auto s = std::make_shared<Set>(n); auto sm = std::make_shared<RandomSampler>(n, sd); perm("random", sm->indices(), n); CHECK("random", sm->size() == n, "size");
    RandomSampler again(n, sd); CHECK("random-seed", again.indices() == sm->indices(), "the same seed gives another order");
    for (size_t ep : {1u, 2u, 5u, 0u}) { sm->setEpoch(ep); perm("random-epoch", sm->indices(), n); CHECK("random-epoch", sm->size() == n, "size"); }
    CHECK("random-epoch", sm->indices() == again.indices(), "going back to epoch 0 gives another order");
    sm->setEpoch(3); VS e = sm->indices(); DataLoader l(s, bs, sm, false, drop); CHECK("order", pass(l, *s, bs, n, drop) == cut(e, bs, drop), "order differs from the sampler's"); CHECK("order", pass(l, *s, bs, n, drop) == cut(e, bs, drop), "second pass");
    DataLoader d(s, bs, nullptr, true, drop); VS o = pass(d, *s, bs, n, drop); if (!drop) perm("shuffle", o, n); std::set<size_t> u(o.begin(), o.end()); CHECK("shuffle", u.size() == o.size(), "a sample was delivered twice"); CHECK("shuffle", pass(d, *s, bs, n, drop) == o, "second pass");
  }
  { input("random order of 200 samples changes with the epoch"); RandomSampler r(200, 5); VS a = r.indices(); r.setEpoch(1); CHECK("random-epoch", r.indices() != a, "same order in two epochs"); }
}
GROUP(chosen) {   // samplers that choose some indices, in any order, also repeatedly
  for (uint64_t k = 0; k < (thorough() ? 3000u : 400u); k++) {
    Rng g(seed() * 17 + k); size_t n = (size_t)g.in(1, 30), m = (size_t)g.in(0, 40), bs = (size_t)g.in(1, 12); bool drop = g.coin(); VS v; for (size_t i = 0; i < m; i++) v.push_back((size_t)g.in(0, (int64_t)n - 1));
    input("sampler %s over %zu samples, batches of %zu, dropLast %d", vs(v).c_str(), n, bs, drop);
    auto s = std::make_shared<Set>(n); DataLoader l(s, bs, std::make_shared<Fixed>(v), g.coin(), drop); CHECK("order", pass(l, *s, bs, m, drop) == cut(v, bs, drop), "order differs from the sampler's");
  }
}
struct Huge : Dataset { size_t n; explicit Huge(size_t k) : n(k) {} size_t size() const override { return n; } std::vector<Tensor> getItem(size_t) override { return {}; } };
GROUP(large) {   // the number of batches of datasets beyond single precision
  for (size_t n : {(size_t)16777217}) for (size_t bs : {(size_t)1, (size_t)2, (size_t)16777216}) for (bool drop : {false, true}) { input("%zu samples, batches of %zu, dropLast %d", n, bs, drop); DataLoader l(std::make_shared<Huge>(n), bs, nullptr, false, drop); size_t w = drop ? n / bs : n / bs + (n % bs ? 1 : 0); CHECK("batch-count", l.size() == w, "%zu batches, expected %zu", l.size(), w); }
}
MAIN
