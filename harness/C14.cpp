// C14: saving and loading; damaged files.  The mapping of the file is replaced by a heap copy of exactly its bytes, so a
// read outside the file is reported by AddressSanitizer.
// LINK: -Wl,--wrap=mmap,--wrap=munmap
#include "common.h"
#include "Modules.h"
#include "Serializer.h"
#include <sys/stat.h>
using namespace H;
static std::map<void*, bool> maps_;
extern "C" void* __real_mmap(void*, size_t, int, int, int, off_t);
extern "C" int __real_munmap(void*, size_t);
extern "C" void* __wrap_mmap(void* a, size_t n, int pr, int fl, int fd, off_t off) {
  if (fd < 0) return __real_mmap(a, n, pr, fl, fd, off);
  if (n == 0) { errno = EINVAL; return MAP_FAILED; }
  char* p = (char*)malloc(n); size_t g = 0; while (g < n) { ssize_t k = pread(fd, p + g, n - g, off + (off_t)g); if (k <= 0) break; g += (size_t)k; }
  maps_[p] = true; return p;
}
extern "C" int __wrap_munmap(void* a, size_t n) { if (maps_.count(a)) { maps_.erase(a); free(a); return 0; } return __real_munmap(a, n); }

struct Spec { std::string name; VI s; DType t; };
struct Mod : nn::Module {
  std::vector<std::pair<std::string, Tensor>> own;
  std::vector<std::pair<std::string, TensorPtr>> namedParameters_() override { std::vector<std::pair<std::string, TensorPtr>> r; for (auto& p : own) r.push_back({p.first, &p.second}); return r; }
};
typedef std::vector<uint8_t> Bytes;
static Bytes raw(const Tensor& t) { const uint8_t* p = (const uint8_t*)t.dataPtr<>(); return Bytes(p, p + t.numel() * (int64_t)dtypeSize(t.dtype())); }
static void fillRaw(Tensor& t, Rng& r) { uint8_t* p = (uint8_t*)t.dataPtr<>(); for (int64_t i = 0; i < t.numel() * (int64_t)dtypeSize(t.dtype()); i++) p[i] = (uint8_t)r.in(0, 255); }
static const std::vector<DType> DT = {DType::Float32, DType::Int64, DType::Int32, DType::Bool, DType::Float16, DType::BFloat16};
static std::vector<Spec> specs(Rng& r, int maxn) {
  std::vector<Spec> v; int n = (int)r.in(0, maxn);
  for (int i = 0; i < n; i++) { Spec s; s.name = "t" + std::to_string(i); int l = (int)r.in(0, 12); for (int k = 0; k < l; k++) s.name += (char)r.in('a', 'z'); if (r.in(0, 2) == 0) s.name = "layer." + s.name; int d = (int)r.in(0, 4); for (int k = 0; k < d; k++) s.s.push_back(r.in(k ? 1 : 0, 5)); s.t = DT[(size_t)r.in(0, 5)]; v.push_back(s); }
  return v;
}
static Mod make(const std::vector<Spec>& v, Rng& r) { Mod m; for (auto& s : v) { Tensor t = Tensor::empty(av(s.s), options::dtype(s.t)); fillRaw(t, r); m.own.push_back({s.name, t}); } return m; }
static std::string desc(const std::vector<Spec>& v) { std::string d; for (auto& s : v) d += s.name + str(s.s) + ":" + std::to_string((int)s.t) + " "; return d.substr(0, 800); }
static std::string path(const char* n) { return std::string(getenv("HARNESS_WORK") ? getenv("HARNESS_WORK") : ".") + "/c14_" + std::to_string(getpid()) + "_" + n; }
static Bytes slurp(const std::string& p) { Bytes b; FILE* f = fopen(p.c_str(), "rb"); if (!f) return b; int c; while ((c = fgetc(f)) != EOF) b.push_back((uint8_t)c); fclose(f); return b; }
static void dump(const std::string& p, const Bytes& b) { FILE* f = fopen(p.c_str(), "wb"); fwrite(b.data(), 1, b.size(), f); fclose(f); }
GROUP(round_trip) {
  Rng r(seed()); std::string f = path("rt");
  for (int rep = 0; rep < (thorough() ? 3000 : 400); rep++) {
    auto sp = specs(r, 6); Mod a = make(sp, r), b = make(sp, r); std::vector<Bytes> want; for (auto& p : a.own) want.push_back(raw(p.second));
    input("save and load of %s", desc(sp).c_str());
    // a clone of a destination tensor keeps its bytes; the loaded tensor keeps its handle
    std::vector<Tensor> cl, handle; std::vector<Bytes> old; bool share = r.coin(); for (auto& p : b.own) { if (share) cl.push_back(p.second.clone()); handle.push_back(p.second); old.push_back(raw(p.second)); }
    CHECK("save", save(a, f), "saving failed"); for (size_t i = 0; i < want.size(); i++) CHECK("save", raw(a.own[i].second) == want[i], "saving changed tensor %zu", i);
    CHECK("load", load(b, f, r.coin()), "loading failed");
    for (size_t i = 0; i < want.size(); i++) { CHECK("load", raw(b.own[i].second) == want[i], "tensor %s differs after loading", b.own[i].first.c_str()); CHECK("load", raw(handle[i]) == want[i], "another handle of %s does not see the loaded elements", b.own[i].first.c_str()); geo("load", b.own[i].second); CHECK("load", b.own[i].second.dtype() == sp[i].t && shp(b.own[i].second) == sp[i].s, "type or shape of %zu", i); if (share) CHECK("load", raw(cl[i]) == old[i], "loading %s changed a clone of it", b.own[i].first.c_str()); }
    // destination tensors in another order, and a second load
    Mod c; std::vector<size_t> ord; for (size_t i = 0; i < sp.size(); i++) ord.push_back(i); for (size_t i = sp.size(); i > 1; i--) std::swap(ord[i - 1], ord[(size_t)r.in(0, (int64_t)i - 1)]);
    for (auto i : ord) { Tensor t = Tensor::empty(av(sp[i].s), options::dtype(sp[i].t)); fillRaw(t, r); c.own.push_back({sp[i].name, t}); }
    CHECK("load", load(c, f), "loading in another order failed"); for (size_t i = 0; i < ord.size(); i++) CHECK("load", raw(c.own[i].second) == want[ord[i]], "tensor %s differs after loading in another order", c.own[i].first.c_str());
    // saving over a longer file
    auto sp2 = specs(r, 2); Mod d = make(sp2, r), e = make(sp2, r); CHECK("save", save(d, f) && load(e, f), "saving over an existing file"); for (size_t i = 0; i < sp2.size(); i++) CHECK("save", raw(e.own[i].second) == raw(d.own[i].second), "tensor differs");
    // views: the tensor is an entry of a larger one
    Tensor big = mk(rnd({3, 2, 4}, r)); Nd bo = rd(big); Mod g; g.own.push_back({"v", op::index(big, IntArrayView{1})}); Mod h; h.own.push_back({"v", mk(Nd({2, 4}))});
    CHECK("save", save(g, f) && load(h, f), "saving a view"); for (int i = 0; i < 8; i++) CHECK("save", rd(h.own[0].second).v[(size_t)i] == bo.v[(size_t)(8 + i)], "element %d of a view", i);
    fillRaw(h.own[0].second, r); Bytes hv = raw(h.own[0].second); CHECK("load", save(h, f) && load(g, f), "loading into a view"); CHECK("load", raw(g.own[0].second) == hv, "view differs after loading"); Bytes bb = raw(big), ob(96), nb;
    for (size_t i = 0; i < 24; i++) if (i < 8 || i >= 16) { float x = (float)bo.v[i]; CHECK("load", !memcmp(&x, bb.data() + 4 * i, 4), "loading into a view changed element %zu outside it", i); }
  }
  unlink(f.c_str());
}
// every tensor holds either its old bytes or, for a tensor the file describes, the bytes saved for it
static void intact(Mod& b, const std::vector<Bytes>& old, const std::vector<Bytes>& want, bool data) {
  for (size_t i = 0; i < old.size(); i++) { Bytes g = raw(b.own[i].second); CHECK("damage", g.size() == old[i].size(), "the size of tensor %zu changed", i); CHECK("damage", !data || g == old[i] || (i < want.size() && g == want[i]), "tensor %s holds neither its old nor the saved elements", b.own[i].first.c_str()); }
}
GROUP(truncated) {
  Rng r(seed() + 1); std::string f = path("tr"), f2 = path("tr2");
  for (int rep = 0; rep < (thorough() ? 60 : 15); rep++) {
    auto sp = specs(r, 3); Mod a = make(sp, r); std::vector<Bytes> want; for (auto& p : a.own) want.push_back(raw(p.second)); save(a, f); Bytes b = slurp(f);
    for (size_t n = 0; n < b.size(); n++) {
      dump(f2, Bytes(b.begin(), b.begin() + (long)n)); input("file of %zu bytes cut to %zu, tensors %s", b.size(), n, desc(sp).c_str()); Mod d = make(sp, r); std::vector<Bytes> old; for (auto& p : d.own) old.push_back(raw(p.second));
      CHECK("truncated", !load(d, f2), "accepted"); intact(d, old, want, true);
      Mod e = make(sp, r); CHECK("truncated", !load(e, f2, false), "accepted when not strict");
    }
  }
  unlink(f.c_str()); unlink(f2.c_str());
}
GROUP(corrupt_header) {
  Rng r(seed() + 2); std::string f = path("ch");
  for (int rep = 0; rep < (thorough() ? 150 : 30); rep++) {
    auto sp = specs(r, 3); Mod a = make(sp, r); std::vector<Bytes> want; for (auto& p : a.own) want.push_back(raw(p.second)); save(a, f); Bytes b = slurp(f);
    // field offsets of the format: magic, version, count, then per tensor name length, rank, type, data offset, data size, name, extents
    std::vector<std::pair<size_t, const char*>> fl; size_t o = 0; auto field = [&](const char* n, size_t len) { for (size_t k = 0; k < len; k++) fl.push_back({o + k, n}); o += len; };
    field("magic", 8); field("version", 8); field("count", 8);
    for (auto& s : sp) { field("name length", 8); field("rank", 8); field("type", 8); field("data offset", 8); field("data size", 8); field("name", s.name.size()); field("extent", 8 * s.s.size()); }
    for (auto& [off, nm] : fl) for (int k = 0; k < 3; k++) {
      Bytes c = b; uint8_t x = k == 0 ? 0xff : k == 1 ? (uint8_t)(1 << r.in(0, 7)) : 0x80; if (!x) continue; c[off] ^= x; dump(f, c);
      bool dataOff = !strcmp(nm, "data offset");
      input("byte %zu (%s) of a file of %zu bytes changed from %d to %d, tensors %s", off, nm, b.size(), b[off], c[off], desc(sp).c_str());
      Mod d = make(sp, r); std::vector<Bytes> old; for (auto& p : d.own) old.push_back(raw(p.second));
      bool ok = load(d, f); if (!dataOff) CHECK("header", !ok, "accepted"); intact(d, old, want, !dataOff);
      if (dataOff) { uint64_t v; size_t st = off; while (st > 0 && fl[st - 1].second == nm && fl[st - 1].first + 1 == fl[st].first) st--; }
      Mod e = make(sp, r); load(e, f, false);
    }
  }
  // values chosen against the checks of a reader
  for (int rep = 0; rep < (thorough() ? 400 : 60); rep++) {
    std::vector<Spec> sp = {{"w", {r.in(1, 4), 3}, DType::Float32}, {"b", {r.in(1, 6)}, DType::Int64}}; Mod a = make(sp, r); std::vector<Bytes> want; for (auto& p : a.own) want.push_back(raw(p.second)); save(a, f); Bytes b = slurp(f); uint64_t n = b.size();
    size_t h1 = 24, h2 = 24 + 40 + 1 + 16;
    for (size_t h : {h1, h2}) for (int fld = 0; fld < 5; fld++) for (uint64_t v : std::vector<uint64_t>{0, 1, 2, 8, 9, 1000, n, n - 1, n + 1, n - 4, (uint64_t)-1, (uint64_t)-8, (uint64_t)-16, (uint64_t)-40, 1ull << 63, 1ull << 61, (1ull << 61) + 1, (1ull << 32) + 1, (1ull << 63) + 3, (uint64_t)0 - n}) {
      Bytes c = b; uint64_t cur; memcpy(&cur, c.data() + h + 8 * (size_t)fld, 8); if (cur == v) continue; memcpy(c.data() + h + 8 * (size_t)fld, &v, 8); dump(f, c); static const char* fn[] = {"name length", "rank", "type", "data offset", "data size"};
      input("%s of tensor %d set from %llu to %llu in a file of %llu bytes, tensors %s", fn[fld], h == h2, (unsigned long long)cur, (unsigned long long)v, (unsigned long long)n, desc(sp).c_str());
      Mod d = make(sp, r); std::vector<Bytes> old; for (auto& p : d.own) old.push_back(raw(p.second)); bool ok = load(d, f, rep & 1);
      uint64_t size = want[h == h2 ? 1 : 0].size();
      if (fld != 3 && (fld != 0 || v > 1 || !(rep & 1))) { if ((rep & 1) || fld >= 1) CHECK("header", !ok, "accepted"); intact(d, old, want, true); }
      if (fld == 3 && (v > n || size > n - v)) { CHECK("header", !ok, "data outside the file was accepted"); intact(d, old, want, true); }
    }
  }
  unlink(f.c_str());
}
GROUP(mismatch) {
  Rng r(seed() + 3); std::string f = path("mm");
  for (int rep = 0; rep < (thorough() ? 3000 : 500); rep++) {
    auto sp = specs(r, 4); if (sp.empty()) continue; Mod a = make(sp, r); std::vector<Bytes> want; for (auto& p : a.own) want.push_back(raw(p.second)); save(a, f);
    auto s2 = sp; size_t k = (size_t)r.in(0, (int64_t)sp.size() - 1); int kind = (int)r.in(0, 5); const char* what = "";
    bool lax = false; // accepted when not strict
    if (kind == 0) { what = "another type"; s2[k].t = DT[(size_t)((std::find(DT.begin(), DT.end(), sp[k].t) - DT.begin() + r.in(1, 5)) % 6)]; }
    else if (kind == 1) { what = "an extent changed"; if (s2[k].s.empty()) s2[k].s.push_back(2); else s2[k].s[(size_t)r.in(0, (int64_t)s2[k].s.size() - 1)] += 1; }
    else if (kind == 2) { what = "a unit extent more (same size)"; s2[k].s.insert(s2[k].s.begin() + r.in(0, (int64_t)s2[k].s.size()), 1); }
    else if (kind == 3) { what = "extents exchanged"; std::reverse(s2[k].s.begin(), s2[k].s.end()); if (s2[k].s == sp[k].s) continue; }
    else if (kind == 4) { what = "one tensor missing in the file"; s2.push_back({"extra", {2}, DType::Float32}); lax = true; k = s2.size() - 1; }
    else { what = "one tensor missing in the module"; s2.erase(s2.begin() + (long)k); lax = true; k = 99; }
    for (int strict = 0; strict < 2; strict++) {
      input("%s, strict %d, file %s module %s", what, strict, desc(sp).c_str(), desc(s2).c_str()); Mod d = make(s2, r); std::vector<Bytes> old; for (auto& p : d.own) old.push_back(raw(p.second));
      bool ok = load(d, f, strict); CHECK("mismatch", ok == (lax && !strict), "loading returned %d", ok);
      for (size_t i = 0; i < s2.size(); i++) { Bytes g = raw(d.own[i].second); if (i == k) CHECK("mismatch", g == old[i], "a tensor that does not match was written"); else if (lax && !strict) { size_t j = 0; while (sp[j].name != s2[i].name) j++; CHECK("mismatch", g == want[j], "tensor %s was not loaded", s2[i].name.c_str()); } CHECK("mismatch", shp(d.own[i].second) == s2[i].s && d.own[i].second.dtype() == s2[i].t, "shape or type of %s changed", s2[i].name.c_str()); }
    }
  }
  unlink(f.c_str());
}
GROUP(files) {
  Rng r(seed() + 4); std::vector<Spec> sp = {{"w", {2, 3}, DType::Float32}}; Mod a = make(sp, r); Bytes o = raw(a.own[0].second);
  std::string nd = path("none") + "/x", dir = getenv("HARNESS_WORK") ? getenv("HARNESS_WORK") : ".";
  input("load of a file that does not exist"); CHECK("files", !load(a, nd), "accepted"); input("load of a directory"); CHECK("files", !load(a, dir), "accepted");
  input("save into a directory that does not exist"); CHECK("files", !save(a, nd), "reported as saved"); input("save over a directory"); CHECK("files", !save(a, dir), "reported as saved");
  std::string f = path("fl"); dump(f, Bytes()); input("load of an empty file"); CHECK("files", !load(a, f), "accepted"); Bytes z(4096, 0); dump(f, z); input("load of zeros"); CHECK("files", !load(a, f), "accepted");
  for (int k = 0; k < 200; k++) { Bytes q((size_t)r.in(1, 300)); for (auto& x : q) x = (uint8_t)r.in(0, 255); uint64_t m = 0x54494E59, v = 1; if (q.size() > 16 && k % 2) { memcpy(q.data(), &m, 8); memcpy(q.data() + 8, &v, 8); } dump(f, q); input("load of %zu random bytes", q.size()); CHECK("files", !load(a, f), "accepted"); }
  CHECK("files", raw(a.own[0].second) == o, "the tensor changed"); unlink(f.c_str());
}
GROUP(modules) {
  // real modules, nested
  Rng r(seed() + 5); std::string f = path("md");
  auto build = [] { return nn::Sequential({std::make_shared<nn::Conv2D>(2, 3, 3), std::make_shared<nn::Relu>(), std::make_shared<nn::Flatten>(1), std::make_shared<nn::Linear>(12, 5), std::make_shared<nn::LayerNorm>(IntArrayView({5})), std::make_shared<nn::Linear>(5, 2, false), std::make_shared<nn::RoPE>(4, 8)}); };
  auto a = build(), b = build(); a.initParameters(); b.initParameters(); for (auto* s : a.states()) fillRaw(*s, r); input("nested modules"); CHECK("modules", save(a, f) && load(b, f), "save or load failed"); auto x = a.namedStates(), y = b.namedStates(); CHECK("modules", x.size() == 8 && y.size() == 8, "%zu states", x.size());
  for (size_t i = 0; i < x.size(); i++) CHECK("modules", x[i].first == y[i].first && raw(*x[i].second) == raw(*y[i].second), "state %s differs", x[i].first.c_str());
  for (auto* p : b.parameters()) CHECK("modules", p->requiresGrad(), "a loaded parameter does not require a gradient"); unlink(f.c_str());
}
MAIN
