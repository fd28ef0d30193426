// C22: indices the distributed sampler gives to the ranks.  The file is not part of this build's library: it is
// compiled here together with a stand-in for the process group (which is asked only when ranks are left out).
#include "common.h"
#include "Distributed/DistributedSampler.cpp"
namespace tinytorch::distributed { __attribute__((weak)) void ProcessGroup::shutdown() {} }
using namespace tinytorch::distributed;
typedef std::vector<size_t> VS;
static std::string vs(const VS& v) { std::string r = "["; for (size_t i = 0; i < v.size() && i < 40; i++) r += (i ? "," : "") + std::to_string(v[i]); return r + (v.size() > 40 ? ",..]" : "]"); }
static void one(size_t n, size_t R, bool sh_, unsigned long sd, bool drop, size_t ep) {
  input("dataset of %zu, %zu ranks, shuffle %d seed %lu dropLast %d epoch %zu", n, R, sh_, sd, drop, ep);
  size_t per = drop ? n / R : n / R + (n % R ? 1 : 0); VS all; std::vector<VS> by;
  for (size_t r = 0; r < R; r++) {
    DistributedSampler s(n, R, r, sh_, sd, drop); if (ep) s.setEpoch(ep); VS v = s.indices();
    CHECK("equal", v.size() == per && s.size() == per, "rank %zu gets %zu indices, expected %zu", r, v.size(), per);
    for (size_t x : v) CHECK("range", x < n, "rank %zu gets index %zu", r, x);
    by.push_back(v); all.insert(all.end(), v.begin(), v.end());
    DistributedSampler t(n, R, r, sh_, sd, drop); t.setEpoch(ep + 1); t.setEpoch(ep); CHECK("epoch", t.indices() == v, "rank %zu: going back to the epoch gives other indices", r);
  }
  std::map<size_t, size_t> cnt; for (size_t x : all) cnt[x]++;
  if (drop) { for (auto& c : cnt) CHECK("disjoint", c.second == 1, "index %zu given %zu times: %s", c.first, c.second, vs(all).c_str()); CHECK("cover", cnt.size() == n / R * R, "%zu distinct indices, only %zu may be dropped", cnt.size(), n % R); if (!sh_) for (size_t i = 0; i < all.size(); i++) CHECK("order", all[i] == i, "unshuffled order %s", vs(all).c_str()); }
  else {
    CHECK("cover", cnt.size() == n, "%zu of %zu indices covered: %s", cnt.size(), n, vs(all).c_str());
    size_t lo = n ? per * R / n : 0; for (auto& c : cnt) CHECK("padding", c.second >= lo && c.second <= lo + (per * R % n ? 1 : 0), "index %zu given %zu times, padding repeats the beginning of the order: %s", c.first, c.second, vs(all).c_str());
    for (size_t i = n; i < all.size(); i++) CHECK("padding", all[i] == all[i - n], "padding is not the beginning of the order: %s", vs(all).c_str());
    if (!sh_) for (size_t i = 0; i < all.size(); i++) CHECK("order", all[i] == i % n, "unshuffled order %s", vs(all).c_str());
  }
}
GROUP(small) { for (size_t n = 0; n <= 20; n++) for (size_t R = 1; R <= 9; R++) for (bool s : {false, true}) for (bool d : {false, true}) for (size_t e : {0u, 3u}) one(n, R, s, n % 3 ? 0 : 9, d, e); }
GROUP(random) { for (uint64_t k = 0; k < (thorough() ? 3000u : 300u); k++) { Rng g(seed() * 19 + k); one((size_t)g.in(0, 400), (size_t)g.in(1, 64), g.coin(), (unsigned long)g.in(0, 9), g.coin(), (size_t)g.in(0, 5)); } }
GROUP(large) { for (size_t n : {(size_t)16777217, (size_t)33554435}) for (bool d : {false, true}) { size_t R = 2; input("dataset of %zu, 2 ranks, dropLast %d", n, d); DistributedSampler a(n, R, 0, false, 0, d), b(n, R, 1, false, 0, d); size_t per = d ? n / R : (n + R - 1) / R; CHECK("equal", a.size() == per && b.size() == per, "ranks get %zu and %zu, expected %zu", a.size(), b.size(), per); CHECK("cover", a.indices().back() == per - 1 && b.indices().front() == per && b.indices()[n - 1 - per < per ? n - 1 - per : per - 1] == std::min(n - 1, 2 * per - 1), "halves"); } }
MAIN
