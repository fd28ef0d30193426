// C11: the backward pass.  Oracle: a tape in double precision over random computations; probe operations that log
// when they are evaluated.
#include "common.h"
#include "Tensor/Function.h"
typedef std::vector<double> VD;
static std::vector<int> order_;
// y = scale * x, logs its number when it is evaluated backward
class Probe1 : public Function<Probe1> { public:
  static Tensor forward(AutogradContext* ctx, const Tensor& x, float scale, int id) { if (ctx) { ctx->pushData(scale); ctx->pushData((int32_t)id); } return op::mul(x, Tensor::scalar(scale, x.options().noGrad())); }
  static void backward(AutogradContext* ctx, const Tensor& grad) { order_.push_back(ctx->savedData[1].toInt32()); auto& x = ctx->savedInputs[0]; if (x.requiresGrad()) x.addGrad(op::mul(grad, Tensor::scalar(ctx->savedData[0].toFloat(), grad.options().noGrad()))); } };
// y = x + scale * z
class Probe2 : public Function<Probe2> { public:
  static Tensor forward(AutogradContext* ctx, const Tensor& x, const Tensor& z, float scale, int id) { if (ctx) { ctx->pushData(scale); ctx->pushData((int32_t)id); } return op::add(x, op::mul(z, Tensor::scalar(scale, z.options().noGrad())), 1); }
  static void backward(AutogradContext* ctx, const Tensor& grad) { order_.push_back(ctx->savedData[1].toInt32()); auto& x = ctx->savedInputs[0]; auto& z = ctx->savedInputs[1]; if (x.requiresGrad()) x.addGrad(grad); if (z.requiresGrad()) z.addGrad(op::mul(grad, Tensor::scalar(ctx->savedData[0].toFloat(), grad.options().noGrad()))); } };

struct Node { int op; int a, b; float c; bool rec; };   // op: 0 leaf 1 probe1 2 probe2 3 add 4 sub 5 mul 6 relu-free sin 7 reshape+back
static std::string show(const std::vector<Node>& ns) { static const char* N[] = {"leaf", "probe1", "probe2", "add", "sub", "mul", "sin", "div", "const"}; std::string r; for (size_t i = 0; i < ns.size(); i++) { char b[80]; if (ns[i].op == 0 || ns[i].op == 8) snprintf(b, 80, " n%zu=%s", i, N[ns[i].op]); else snprintf(b, 80, " n%zu=%s(n%d,n%d,%g)", i, N[ns[i].op], ns[i].a, ns[i].b, ns[i].c); r += b; } return r; }
static void one(uint64_t salt, int shape_kind) {
  Rng g(seed() * 104729 + salt); VI s = shape_kind == 0 ? VI{} : shape_kind == 1 ? VI{2} : VI{2, 2}; size_t e = (size_t)prod(s);
  std::vector<Node> ns; std::vector<Tensor> t; std::vector<VD> val; int leaves = (int)g.in(1, 3), ops = (int)g.in(1, 9);
  std::vector<Nd> lv;
  for (int i = 0; i < leaves + 1; i++) { Node n{i < leaves ? 0 : 8, -1, -1, 0, i < leaves}; ns.push_back(n); Nd v = rnd(s, g, 0.6f, 1.6f); for (auto& x : v.v) x = (double)(float)x; lv.push_back(v); Tensor x = mk(v); if (i < leaves) x.setRequiresGrad(true); t.push_back(x); val.push_back(v.v); }
  for (int i = 0; i < ops; i++) {
    Node n; n.op = (int)g.in(1, 7); int last = (int)ns.size() - 1; n.a = g.in(0, 2) ? (int)g.in(std::max(0, last - 2), last) : (int)g.in(0, last); n.b = (int)g.in(0, last); n.c = (float)g.in(-2, 3) * 0.5f;
    const VD &A = val[(size_t)n.a], &B = val[(size_t)n.b]; VD r(e); double mx = 0;
    bool bin = n.op != 1 && n.op != 6; if (!bin) n.b = n.a;
    if (n.op == 7) { bool bad = false; for (double x : B) bad = bad || std::fabs(x) < 0.3; if (bad) n.op = 3; }
    n.rec = ns[(size_t)n.a].rec || (bin && ns[(size_t)n.b].rec);
    for (size_t k = 0; k < e; k++) { double x = A[k], y = B[k]; r[k] = n.op == 1 ? n.c * x : n.op == 2 ? x + n.c * y : n.op == 3 ? x + y : n.op == 4 ? x - y : n.op == 5 ? x * y : n.op == 6 ? std::sin(x) : x / y; mx = std::max(mx, std::fabs(r[k])); }
    if (mx > 20) continue;
    Tensor x = t[(size_t)n.a], y = t[(size_t)n.b], o; int id = (int)ns.size();
    switch (n.op) { case 1: o = Probe1::apply(x, n.c, id); break; case 2: o = Probe2::apply(x, y, n.c, id); break; case 3: o = x + y; break; case 4: o = x - y; break; case 5: o = x * y; break; case 6: o = x.sin(); break; default: o = x / y; }
    CHECK("recorded", o.requiresGrad() == n.rec, "node %d: requiresGrad is %d, expected %d", id, (int)o.requiresGrad(), (int)n.rec);
    ns.push_back(n); t.push_back(o); val.push_back(r);
  }
  std::vector<Tensor> kept(t.begin(), t.begin() + leaves);
  std::vector<VD> lead((size_t)leaves, VD(e, 0)); std::vector<bool> has((size_t)leaves, false);
  for (int i = 0; i < leaves; i++) if (g.in(0, 3) == 0) { Nd q = rnd(s, g); for (auto& x : q.v) x = (double)(float)x; kept[(size_t)i].setGrad(mk(q)); lead[(size_t)i] = q.v; has[(size_t)i] = true; }
  int passes = (int)g.in(1, 3); bool drop = g.coin();
  std::vector<int> roots; for (int i = 0; i < passes; i++) { int r; int tries = 0; do r = g.in(0, 1) ? (int)ns.size() - 1 : (int)g.in(0, (int64_t)ns.size() - 1); while (!ns[(size_t)r].rec && ++tries < 50); if (ns[(size_t)r].rec) roots.push_back(r); }
  std::vector<Tensor> rt; for (int r : roots) rt.push_back(t[(size_t)r]);
  if (drop) t.clear();   // the user keeps only the leaves and the results
  std::string hist = show(ns) + (drop ? " intermediates dropped" : "");
  for (size_t pi = 0; pi < roots.size(); pi++) {
    int r = roots[pi]; Nd up = rnd(s, g); for (auto& x : up.v) x = (double)(float)x; if (s.empty() && g.coin()) up.v[0] = 1;
    hist += " backward(n" + std::to_string(r) + "," + strv(up.v) + ")";
    std::string ls; for (auto& q : lv) ls += strv(q.v); input("leaves %s%s", ls.c_str(), hist.c_str());
    order_.clear(); Tensor seed_ = mk(up);
    if (s.empty() && up.v[0] == 1) rt[pi].backward(); else rt[pi].backward(seed_);
    CHECK("seed-changed", rd(seed_).v == up.v, "the pass changed the gradient it was given");
    // the tape
    std::vector<VD> gr(ns.size(), VD(e, 0)); std::vector<bool> reach(ns.size(), false); gr[(size_t)r] = up.v; reach[(size_t)r] = true;
    for (int i = (int)ns.size() - 1; i >= 0; i--) if (reach[(size_t)i] && ns[(size_t)i].op != 0 && ns[(size_t)i].op != 8) {
      const Node& n = ns[(size_t)i]; bool bin = n.op != 1 && n.op != 6;
      if (ns[(size_t)n.a].rec) reach[(size_t)n.a] = true; if (bin && ns[(size_t)n.b].rec) reach[(size_t)n.b] = true;
      for (size_t k = 0; k < e; k++) { double G = gr[(size_t)i][k], x = val[(size_t)n.a][k], y = val[(size_t)n.b][k], da = 0, db = 0; switch (n.op) { case 1: da = n.c; break; case 2: da = 1; db = n.c; break; case 3: da = db = 1; break; case 4: da = 1; db = -1; break; case 5: da = y; db = x; break; case 6: da = std::cos(x); break; default: da = 1 / y; db = -x / (y * y); } gr[(size_t)n.a][k] += G * da; if (bin) gr[(size_t)n.b][k] += G * db; }
    }
    for (int i = 0; i < leaves; i++) {
      if (reach[(size_t)i]) { has[(size_t)i] = true; for (size_t k = 0; k < e; k++) lead[(size_t)i][k] += gr[(size_t)i][k]; }
      Tensor gt = kept[(size_t)i].grad();
      if (!has[(size_t)i]) { CHECK("grad-unreached", !gt.defined(), "leaf %d is not reachable and got a gradient", i); continue; }
      CHECK("grad-missing", gt.defined(), "leaf %d got no gradient", i);
      Nd w(s); w.v = lead[(size_t)i]; double sc = 1; for (double x : w.v) sc = std::max(sc, std::fabs(x));
      eq("leaf-gradient", gt, w, 2e-4, 2e-4 * sc);
      CHECK("leaf-value", rd(kept[(size_t)i]).v == lv[(size_t)i].v, "leaf %d changed", i);
    }
    // every probe reachable once, consumers first
    std::map<int, int> pos; for (size_t k = 0; k < order_.size(); k++) { CHECK("visited-twice", !pos.count(order_[k]), "operation n%d evaluated twice", order_[k]); pos[order_[k]] = (int)k; }
    for (size_t i = 0; i < ns.size(); i++) if (ns[i].op == 1 || ns[i].op == 2) CHECK("visited", pos.count((int)i) == (reach[i] && ns[i].rec ? 1u : 0u), "operation n%zu is %sreachable and was %sevaluated", i, reach[i] && ns[i].rec ? "" : "not ", pos.count((int)i) ? "" : "not ");
    std::vector<std::set<int>> cons(ns.size()); for (size_t i = 0; i < ns.size(); i++) if (ns[i].op != 0 && ns[i].op != 8 && reach[i]) for (int q : {ns[i].a, ns[i].b}) { cons[(size_t)q].insert((int)i); }
    for (int i = (int)ns.size() - 1; i >= 0; i--) { std::set<int> all = cons[(size_t)i]; for (int q : cons[(size_t)i]) all.insert(cons[(size_t)q].begin(), cons[(size_t)q].end()); cons[(size_t)i] = all; if (pos.count(i)) for (int q : all) if (pos.count(q)) CHECK("order", pos[q] < pos[i], "n%d evaluated before its consumer n%d", i, q); }
  }
}
GROUP(random_scalar) { for (uint64_t i = 0; i < (thorough() ? 20000u : 1500u); i++) one(i, 0); }
GROUP(random_vector) { for (uint64_t i = 0; i < (thorough() ? 20000u : 1500u); i++) one(i + 1000000, 1); }
GROUP(random_matrix) { for (uint64_t i = 0; i < (thorough() ? 20000u : 1500u); i++) one(i + 2000000, 2); }
GROUP(modes) {   // nothing is recorded while recording is off; nesting restores the previous mode
  Nd a({2}, 3); Tensor x = mk(a); x.setRequiresGrad(true);
  auto rec = [&]() { Tensor y = x * x; Tensor z = x.reshape({2, 1}); Tensor c = x.clone(); Tensor w = Probe1::apply(x, 2.f, 1); bool r = y.requiresGrad(); CHECK("mode", z.requiresGrad() == r && w.requiresGrad() == r, "operations disagree about the mode"); CHECK("mode-clone", c.requiresGrad() == r, "a clone requires a gradient: %d, recording: %d", (int)c.requiresGrad(), (int)r); return r; };
  input("nested NoGradGuard"); CHECK("mode", rec() && NoGradGuard::isGradEnabled(), "recording is on initially");
  { NoGradGuard g1; CHECK("mode", !rec() && !NoGradGuard::isGradEnabled(), "inside one guard");
    { NoGradGuard g2; CHECK("mode", !rec(), "inside two guards"); { NoGradGuard g3; CHECK("mode", !rec(), "inside three guards"); } CHECK("mode", !rec(), "inside two guards, after the third"); }
    CHECK("mode", !rec() && !NoGradGuard::isGradEnabled(), "back inside one guard"); }
  CHECK("mode", rec() && NoGradGuard::isGradEnabled(), "after all guards");
  WithNoGrad { CHECK("mode", !rec(), "WithNoGrad"); WithNoGrad { CHECK("mode", !rec(), "WithNoGrad twice"); } CHECK("mode", !rec(), "WithNoGrad after inner"); }
  CHECK("mode", rec(), "after WithNoGrad");
  input("early return leaves the scope"); [&]() { NoGradGuard g1; if (x.defined()) return; NoGradGuard g2; }(); CHECK("mode", rec(), "after an early return");
  input("results made without recording are constants"); Tensor y; { NoGradGuard g; y = x * x; } Tensor z = x * y; z.backward(mk(a)); eq("mode-constant", x.grad(), Nd({2}, 27));
  CHECK("mode-constant", !y.requiresGrad(), "y");
  input("all operations"); { NoGradGuard g; Nd m({2, 2}, 1); Tensor q = mk(m); q.setRequiresGrad(true);
    std::vector<Tensor> r = {q + q, q - q, q * q, q / q, q + 1.f, 1.f - q, q.sin(), q.cos(), q.sqrt(), q.pow(2.f), function::relu(q), function::softmax(q), function::logSoftmax(q), q.sum(), q.mean(), q.max(), q.min(), q.var(), q.reshape({4}), q.view({4}), q.flatten(), q.permute(), q.t(), q.unsqueeze(0), q.matmul(q), function::linear(q, q), function::mseLoss(q, mk(m)), function::dropout(q, 0.5f, true), function::dropout(q, 0.5f, false), q.narrow(0, 0, 1), q.tril(), q.clone(), function::concat(ArrayView<Tensor>{q, q}), function::stack(ArrayView<Tensor>{q, q})};
    for (size_t i = 0; i < r.size(); i++) CHECK("mode-all", !r[i].requiresGrad(), "result %zu of an operation made while recording is off requires a gradient", i); for (auto& p : q.split(1, 0)) CHECK("mode-all", !p.requiresGrad(), "split"); }
}
GROUP(ownership) {   // gradients held by one tensor are not changed by accumulation into another
  for (int k = 0; k < 6; k++) {
    Nd a({2, 2}, 2), u = iota({2, 2}); Tensor x = mk(a), y = mk(a); x.setRequiresGrad(true); y.setRequiresGrad(true); input("case %d", k);
    auto f = [&](int c) -> Tensor { switch (c) { case 0: return x + y; case 1: return x - y; case 2: return (x + y).reshape({2, 2}); case 3: return x.reshape({4}).reshape({2, 2}) + y.flatten().unflatten(0, IntArrayView{2, 2}); case 4: return function::dropout(x, 0.5f, false) + y; default: return (x + y) + (x + y); } };
    Tensor z = f(k); Tensor up = mk(u); z.backward(up); Nd gx = rd(x.grad()), gy = rd(y.grad());
    Tensor hx = x.grad(); Nd b4 = rd(hx);
    x.addGrad(mk(u)); CHECK("ownership", rd(y.grad()).v == gy.v, "adding to x's gradient changed y's: %s", strv(rd(y.grad()).v).c_str()); CHECK("ownership-seed", rd(up).v == u.v, "adding to x's gradient changed the seed");
    gx = rd(x.grad()); y.addGrad(mk(u)); CHECK("ownership", rd(x.grad()).v == gx.v, "adding to y's gradient changed x's");
    gy = rd(y.grad()); x.zeroGrad(); CHECK("ownership", rd(y.grad()).v == gy.v, "clearing x's gradient changed y's"); for (double v : rd(x.grad()).v) CHECK("zero", v == 0, "not cleared");
    Tensor z2 = f(k); z2.backward(up); CHECK("ownership-seed", rd(up).v == u.v, "second pass changed the seed"); Tensor o = mk(u); x.setGrad(Tensor()); x.addGrad(o); x.addGrad(o); CHECK("ownership", rd(o).v == u.v, "addGrad changed its argument to %s", strv(rd(o).v).c_str());
    Tensor o2 = mk(u); y.setGrad(Tensor()); y.addGrad(Tensor(o2)); y.addGrad(mk(u)); CHECK("ownership", rd(o2).v == u.v, "addGrad of a temporary handle changed the other handle to %s", strv(rd(o2).v).c_str());
  }
}
static int hookn; static Nd hookg; static void hookf(void*, Tensor& g) { hookn++; hookg = rd(g); }
GROUP(hooks) {   // a leaf is visited once, after all contributions
  for (int k = 1; k <= 5; k++) { Nd a({2}, 2); Tensor x = mk(a); x.setRequiresGrad(true); x.registerHook(hookf, nullptr); Tensor z = x * 1.f; for (int i = 1; i < k; i++) z = z + x * (float)i; hookn = 0; input("hook on a leaf used %d times", k); z.backward(mk(Nd({2}, 1))); double e = 1; for (int i = 1; i < k; i++) e += i; CHECK("hook", hookn == 1, "hook called %d times", hookn); CHECK("hook", hookg.v[0] == e, "hook saw gradient %g, complete gradient is %g", hookg.v[0], e); }
}
GROUP(shapes_of_use) {
  { Nd a({2}, 2); Tensor x = mk(a); x.setRequiresGrad(true); input("backward on a leaf, twice"); x.backward(mk(Nd({2}, 5))); eq("leaf-root", x.grad(), Nd({2}, 5)); x.backward(mk(Nd({2}, 1))); eq("leaf-root", x.grad(), Nd({2}, 6)); }
  { Nd a({2}, 2); Tensor x = mk(a); x.setRequiresGrad(true); input("chain of 3000 operations"); Tensor y = x; for (int i = 0; i < 3000; i++) y = y + 1.f; y.backward(mk(Nd({2}, 3))); eq("long-chain", x.grad(), Nd({2}, 3)); }
  { Nd a({1}, 1); Tensor x = mk(a); x.setRequiresGrad(true); input("doubling 20 times: 2^20 paths"); Tensor y = x; for (int i = 0; i < 20; i++) y = y + y; y.backward(mk(Nd({1}, 1))); eq("paths", x.grad(), Nd({1}, 1048576)); }
  { Nd a({1}, 1); Tensor x = mk(a); x.setRequiresGrad(true); input("result reused in a second computation after its own pass"); Tensor y = Probe1::apply(x, 3.f, 1); y.backward(mk(Nd({1}, 1))); Tensor z = Probe1::apply(y, 2.f, 2); z.backward(mk(Nd({1}, 1))); eq("reuse", x.grad(), Nd({1}, 9)); Tensor w = Probe1::apply(z, 2.f, 3); w.backward(mk(Nd({1}, 1))); eq("reuse", x.grad(), Nd({1}, 21)); z.backward(mk(Nd({1}, 1))); eq("reuse", x.grad(), Nd({1}, 27)); }
  { Nd a({2, 3}, 1); Tensor x = mk(a); x.setRequiresGrad(true); input("wrong gradient shape is refused"); Tensor y = x * 2.f; y.backward(mk(Nd({3}, 1))); CHECK("refused", !x.grad().defined(), "a gradient of the wrong shape was used"); y.backward(); CHECK("refused", !x.grad().defined(), "an omitted gradient of a non-scalar was used"); }
  { Nd a({2, 3}, 1); Tensor x = mk(a), y = mk(a); x.setRequiresGrad(true); input("tensor that does not require a gradient"); y.backward(mk(a)); CHECK("refused", !y.requiresGrad(), "y"); }
  { Nd a({2}, 3); Tensor x = mk(a); x.setRequiresGrad(true); input("asked again for gradients after use: x=3, y=x*x, x.setRequiresGrad(true), y.backward"); Tensor y = x * x; x.setRequiresGrad(true); y.backward(mk(Nd({2}, 1))); eq("asked-again", x.grad(), Nd({2}, 6)); CHECK("asked-again", x.isLeaf(), "x is no leaf"); }
  { Nd a({2}, 3); Tensor x = mk(a); x.setRequiresGrad(true); input("a result asked for gradients after use: y=x*x, z=y*y, y.setRequiresGrad(true), z.backward"); Tensor y = x * x; Tensor z = y * y; y.setRequiresGrad(true); z.backward(mk(Nd({2}, 1))); eq("asked-again", x.grad(), Nd({2}, 108)); }
}
MAIN
