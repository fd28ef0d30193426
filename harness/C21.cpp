// C21: modules list every parameter and buffer once, and pass mode, gradient clearing and type down
#include "common.h"
#include "Modules.h"
using namespace H;
typedef std::vector<std::pair<std::string, Tensor*>> Named;
static std::vector<int> modeCalls;
struct Leaf : nn::Module {
  std::vector<std::pair<std::string, Tensor>> ps, bs;
  bool mode = true; int resets = 0;
  Named namedParameters_() override { Named r; for (auto& p : ps) r.push_back({p.first, &p.second}); return r; }
  Named namedStates_() override { Named r; for (auto& p : ps) r.push_back({p.first, &p.second}); for (auto& p : bs) r.push_back({p.first, &p.second}); return r; }
  bool training() const { return training_; }
  void resetParameters() override { resets++; Module::resetParameters(); }
};
struct Tree { std::vector<std::shared_ptr<Leaf>> all; Named params, states; };
static std::shared_ptr<Leaf> build(Rng& r, int depth, const std::string& pre, Tree& t, int& id) {
  auto m = std::make_shared<Leaf>(); t.all.push_back(m); int np = (int)r.in(0, 3), nb = (int)r.in(0, 2);
  for (int i = 0; i < np; i++) m->ps.push_back({"p" + std::to_string(i), mk(Nd({2, r.in(1, 3)}, (double)id++), DType::Float32, r.in(0, 4) != 0)});
  for (int i = 0; i < nb; i++) m->bs.push_back({"b" + std::to_string(i), mk(Nd({r.in(1, 3)}, (double)id++))});
  for (auto& p : m->ps) { t.params.push_back({pre + p.first, &p.second}); t.states.push_back({pre + p.first, &p.second}); } for (auto& p : m->bs) t.states.push_back({pre + p.first, &p.second});
  int nc = depth ? (int)r.in(0, 3) : 0; std::vector<std::pair<std::string, std::reference_wrapper<nn::Module>>> batch; bool useBatch = r.coin();
  for (int i = 0; i < nc; i++) { std::string n = r.coin() ? "sub" + std::to_string(i) : std::to_string(i); auto c = build(r, depth - 1, pre + n + ".", t, id); if (useBatch) batch.push_back({n, *c}); else m->registerModule(n, *c); }
  if (useBatch) m->registerModules(batch);
  return m;
}
static std::string names(const Named& n) { std::string s; for (auto& p : n) s += p.first + " "; return s.substr(0, 1500); }
static void same(const char* key, Named a, Named b) {
  CHECK(key, a.size() == b.size(), "%zu listed, expected %zu: %s instead of %s", a.size(), b.size(), names(a).c_str(), names(b).c_str());
  std::set<std::string> ns; std::set<Tensor*> ts; for (auto& p : a) { CHECK(key, ns.insert(p.first).second, "name %s listed twice", p.first.c_str()); CHECK(key, ts.insert(p.second).second, "%s is listed twice", p.first.c_str()); }
  std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); for (size_t i = 0; i < a.size(); i++) CHECK(key, a[i] == b[i], "%s listed, expected %s", a[i].first.c_str(), b[i].first.c_str());
}
GROUP(trees) {
  Rng r(seed());
  for (int rep = 0; rep < (thorough() ? 3000 : 400); rep++) {
    Tree t; int id = 1; auto m = build(r, (int)r.in(0, 4), "", t, id); input("module tree %d with %zu modules, parameters %s", rep, t.all.size(), names(t.states).c_str());
    for (int k = 0; k < 2; k++) { same("namedParameters", m->namedParameters(), t.params); same("namedStates", m->namedStates(), t.states); } // listing twice
    Named pp; for (auto& p : t.params) pp.push_back({"x." + p.first, p.second}); same("namedParameters", m->namedParameters("x."), pp);
    auto ps = m->parameters(); std::set<Tensor*> s(ps.begin(), ps.end()); CHECK("parameters", ps.size() == t.params.size() && s.size() == ps.size(), "%zu parameters listed, %zu expected", ps.size(), t.params.size()); for (auto& p : t.params) CHECK("parameters", s.count(p.second), "%s is not listed", p.first.c_str());
    auto ss = m->states(); std::set<Tensor*> s2(ss.begin(), ss.end()); CHECK("states", ss.size() == t.states.size() && s2.size() == ss.size(), "%zu states listed, %zu expected", ss.size(), t.states.size()); for (auto& p : t.states) CHECK("states", s2.count(p.second), "%s is not listed", p.first.c_str());
    // order of parameters() follows namedParameters()
    auto np = m->namedParameters(); for (size_t i = 0; i < np.size(); i++) CHECK("parameters", np[i].second == ps[i], "parameter %zu differs from the named list", i);
    for (int k = 0; k < 4; k++) { bool mode = k % 2; if (k < 2) m->train(mode); else if (mode) m->train(); else m->eval(); for (size_t i = 0; i < t.all.size(); i++) CHECK("mode", t.all[i]->training() == mode, "module %zu of %zu is in mode %d after switching to %d", i, t.all.size(), t.all[i]->training(), mode); }
    // switching one nested module leaves the others
    if (t.all.size() > 1) { m->train(); auto& c = t.all.back(); c->eval(); CHECK("mode", !c->training() && m->training(), "switching a nested module changed its parent"); }
    m->resetParameters(); for (auto& l : t.all) CHECK("reset", l->resets == 1, "resetParameters reached a module %d times", l->resets);
    // gradients
    for (auto& p : t.params) if (p.second->requiresGrad()) { Tensor y = function::mul(*p.second, mk(Nd(shp(*p.second), 3))); y.backward(mk(Nd(shp(*p.second), 1))); eq("grad", p.second->grad(), Nd(shp(*p.second), 3)); }
    m->zeroGrad(); for (auto& p : t.params) { Tensor g = p.second->requiresGrad() ? p.second->grad() : Tensor(); if (g.defined()) eq("zeroGrad", g, Nd(shp(*p.second), 0)); }
    for (auto& p : t.params) if (p.second->requiresGrad()) { Tensor y = function::mul(*p.second, mk(Nd(shp(*p.second), 2))); y.backward(mk(Nd(shp(*p.second), 1))); eq("zeroGrad", p.second->grad(), Nd(shp(*p.second), 2)); }
    // type
    std::vector<Nd> v; std::vector<bool> rg; for (auto& p : t.states) { v.push_back(rd(*p.second)); rg.push_back(p.second->requiresGrad()); }
    for (auto d : {DType::Float16, DType::Float32, DType::BFloat16, DType::BFloat16, DType::Float32}) {
      if (r.coin()) m->to(d); else m->to(d, Device::cpu()); same("to", m->namedStates(), t.states);
      for (size_t i = 0; i < v.size(); i++) { auto& p = t.states[i]; CHECK("to", p.second->dtype() == d, "%s has type %d after conversion to %d", p.first.c_str(), (int)p.second->dtype(), (int)d); CHECK("to", p.second->requiresGrad() == rg[i], "%s changed whether it requires a gradient", p.first.c_str()); eq("to", *p.second, v[i]); }
    }
    m->to(Device::cpu()); for (size_t i = 0; i < v.size(); i++) eq("to", *t.states[i].second, v[i]);
    for (auto& p : t.params) if (p.second->requiresGrad()) { p.second->zeroGrad(); Tensor y = function::mul(*p.second, mk(Nd(shp(*p.second), 5))); y.backward(mk(Nd(shp(*p.second), 1))); eq("grad", p.second->grad(), Nd(shp(*p.second), 5)); }
  }
}
static void listed(const char* what, nn::Module& m, const std::vector<std::pair<std::string, VI>>& ps, const std::vector<std::pair<std::string, VI>>& extra = {}) {
  input("%s", what); auto a = m.namedParameters(); CHECK("builtin", a.size() == ps.size(), "%zu parameters", a.size());
  for (auto& p : ps) { auto it = std::find_if(a.begin(), a.end(), [&](auto& q) { return q.first == p.first; }); CHECK("builtin", it != a.end(), "%s is missing", p.first.c_str()); CHECK("builtin", shp(*it->second) == p.second, "%s has shape %s", p.first.c_str(), str(shp(*it->second)).c_str()); CHECK("builtin", it->second->requiresGrad(), "%s does not require a gradient", p.first.c_str()); }
  auto b = m.namedStates(); CHECK("builtin", b.size() == ps.size() + extra.size(), "%zu states", b.size()); for (auto* l : {&ps, &extra}) for (auto& p : *l) { auto it = std::find_if(b.begin(), b.end(), [&](auto& q) { return q.first == p.first; }); CHECK("builtin", it != b.end() && shp(*it->second) == p.second, "state %s", p.first.c_str()); }
  std::set<Tensor*> s; for (auto& p : a) s.insert(p.second); CHECK("builtin", s.size() == a.size(), "one tensor under two names");
}
GROUP(builtin) {
  using namespace nn; VI n5{5};
  { Linear m(3, 2); listed("Linear", m, {{"weight", {2, 3}}, {"bias", {2}}}); auto p = m.namedParameters(); CHECK("builtin", p[0].second == &m.weight() || p[1].second == &m.weight(), "the listed weight is not the module's"); CHECK("builtin", p[0].second == &m.bias() || p[1].second == &m.bias(), "bias"); }
  { Linear m(3, 2, false); listed("Linear without bias", m, {{"weight", {2, 3}}}); }
  { Conv2D m(2, 4, {3, 2}); listed("Conv2D", m, {{"weight", {4, 2, 3, 2}}, {"bias", {4}}}); } { Conv2D m(2, 4, 3, 1, 0, false); listed("Conv2D without bias", m, {{"weight", {4, 2, 3, 3}}}); }
  { LayerNorm m(av(n5)); listed("LayerNorm", m, {{"weight", {5}}, {"bias", {5}}}); } { LayerNorm m(av(n5), 1e-5f, false); listed("LayerNorm without bias", m, {{"weight", {5}}}); } { RMSNorm m(av(n5)); listed("RMSNorm", m, {{"weight", {5}}}); }
  { Embedding m(7, 3); listed("Embedding", m, {{"weight", {7, 3}}}); } { RoPE m(4, 8); listed("RoPE", m, {}, {{"rope", {8, 4, 2}}}); }
  { Flatten a; listed("Flatten", a, {}); Relu b; listed("Relu", b, {}); Gelu c; listed("Gelu", c, {}); Silu d; listed("Silu", d, {}); Dropout e; listed("Dropout", e, {}); Softmax f(0); listed("Softmax", f, {}); LogSoftmax g(0); listed("LogSoftmax", g, {}); MaxPool2D h(2); listed("MaxPool2D", h, {}); }
  // containers
  auto inner = std::make_shared<Sequential>(std::initializer_list<std::shared_ptr<Module>>{std::make_shared<Linear>(2, 2), std::make_shared<Dropout>(0.999f)});
  Sequential seq({std::make_shared<Linear>(3, 2), std::make_shared<Relu>(), inner}); seq.pushBack(std::make_shared<LayerNorm>(IntArrayView({2}))); seq.emplaceBack<Linear>(2, 1, false); seq.emplaceBack<RoPE>(2, 3);
  listed("Sequential", seq, {{"0.weight", {2, 3}}, {"0.bias", {2}}, {"2.0.weight", {2, 2}}, {"2.0.bias", {2}}, {"3.weight", {2}}, {"3.bias", {2}}, {"4.weight", {1, 2}}}, {{"5.rope", {3, 2, 2}}});
  ModuleList ml({std::make_shared<Linear>(1, 1), std::make_shared<Linear>(1, 1)}); ml.emplaceBack<Linear>(1, 1); ml.pushBack(std::make_shared<RMSNorm>(IntArrayView({3}))); for (int i = 0; i < 9; i++) ml.emplaceBack<RMSNorm>(IntArrayView({1}));
  std::vector<std::pair<std::string, VI>> e; for (int i = 0; i < 3; i++) { e.push_back({std::to_string(i) + ".weight", {1, 1}}); e.push_back({std::to_string(i) + ".bias", {1}}); } e.push_back({"3.weight", {3}}); for (int i = 4; i < 13; i++) e.push_back({std::to_string(i) + ".weight", {1}});
  listed("ModuleList", ml, e); input("ModuleList size"); CHECK("builtin", ml.size() == 13 && !ml.empty(), "size %zu", ml.size());
  // mode reaches nested dropout
  inner->initParameters(); Tensor x = mk(Nd({50, 2}, 1)); input("eval of a nested Dropout"); seq.eval(); CHECK("mode", rd((*inner)(x)).v == rd((*inner)(x)).v, "dropout is still active after eval"); double z = 0; for (auto v : rd((*inner)(x)).v) z += v != 0; CHECK("mode", z > 50, "dropout is still active after eval"); input("train of a nested Dropout"); seq.train(); z = 0; for (auto v : rd((*inner)(x)).v) z += v != 0; CHECK("mode", z < 30, "dropout is inactive after train");
  // type and reset reach nested modules
  input("type of nested modules"); seq.to(DType::BFloat16); for (auto& p : seq.namedStates()) CHECK("to", p.second->dtype() == DType::BFloat16, "%s", p.first.c_str()); seq.to(DType::Float32);
  input("reset of nested modules"); for (auto& p : seq.namedParameters()) p.second->fill_(77); seq.resetParameters(); for (auto& p : seq.namedParameters()) for (auto v : rd(*p.second).v) CHECK("reset", std::fabs(v) < 10, "%s was not reset: %g", p.first.c_str(), v);
  // gradients of every nested parameter are cleared
  { Sequential s2({std::make_shared<Linear>(3, 2), std::make_shared<Relu>(), std::make_shared<Sequential>(std::initializer_list<std::shared_ptr<Module>>{std::make_shared<Linear>(2, 2)})}); s2.resetParameters(); Tensor y = s2(mk(Nd({4, 3}, 1))); y.backward(mk(Nd({4, 2}, 1))); input("zeroGrad of nested modules"); s2.zeroGrad(); for (auto& p : s2.namedParameters()) { Tensor g = p.second->grad(); if (g.defined()) eq("zeroGrad", g, Nd(shp(g), 0)); } }
}
MAIN
