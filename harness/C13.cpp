// C13: optimizers and the step schedule.  Oracle: the published update rules in double precision.
#include "common.h"
#include "Optimizer.h"
#include "Scheduler.h"
#include <memory>
using namespace tinytorch::optim;
typedef std::vector<double> VD;
struct Hyp { double lr, mom, damp, wd, init, eps, lrDecay, alpha, rho, b1, b2; bool nest, cent, ams; int amsvar; };
struct St { VD a, b, c; bool has = false; };
// one published step for one parameter; step counts from 1
static void rule(const std::string& k, const Hyp& h, double lr, int step, VD& p, VD g, St& s) {
  size_t n = p.size(); auto z = [&](VD& v, double x) { if (v.empty()) v.assign(n, x); };
  if (k == "AdamW") { for (auto& x : p) x *= 1 - lr * h.wd; }
  else if (h.wd != 0) for (size_t i = 0; i < n; i++) g[i] += h.wd * p[i];
  if (k == "SGD") {
    if (h.mom != 0) {
      if (!s.has) { s.a = g; s.has = true; } else for (size_t i = 0; i < n; i++) s.a[i] = h.mom * s.a[i] + (1 - h.damp) * g[i];
      for (size_t i = 0; i < n; i++) g[i] = h.nest ? g[i] + h.mom * s.a[i] : s.a[i];
    }
    for (size_t i = 0; i < n; i++) p[i] -= lr * g[i];
  } else if (k == "Adagrad") {
    z(s.a, h.init); double c = lr / (1 + (step - 1) * h.lrDecay);
    for (size_t i = 0; i < n; i++) { s.a[i] += g[i] * g[i]; p[i] -= c * g[i] / (std::sqrt(s.a[i]) + h.eps); }
  } else if (k == "RMSprop") {
    z(s.a, 0); z(s.b, 0); z(s.c, 0);
    for (size_t i = 0; i < n; i++) {
      s.a[i] = h.alpha * s.a[i] + (1 - h.alpha) * g[i] * g[i]; double v = s.a[i];
      if (h.cent) { s.b[i] = h.alpha * s.b[i] + (1 - h.alpha) * g[i]; v -= s.b[i] * s.b[i]; }
      double u = g[i] / (std::sqrt(v) + h.eps);
      if (h.mom != 0) { s.c[i] = h.mom * s.c[i] + u; u = s.c[i]; }
      p[i] -= lr * u;
    }
  } else if (k == "AdaDelta") {
    z(s.a, 0); z(s.b, 0);
    for (size_t i = 0; i < n; i++) { s.a[i] = h.rho * s.a[i] + (1 - h.rho) * g[i] * g[i]; double d = std::sqrt(s.b[i] + h.eps) / std::sqrt(s.a[i] + h.eps) * g[i]; s.b[i] = h.rho * s.b[i] + (1 - h.rho) * d * d; p[i] -= lr * d; }
  } else {
    z(s.a, 0); z(s.b, 0); z(s.c, 0);
    double c1 = 1 - std::pow(h.b1, step), c2 = 1 - std::pow(h.b2, step);
    for (size_t i = 0; i < n; i++) {
      s.a[i] = h.b1 * s.a[i] + (1 - h.b1) * g[i]; s.b[i] = h.b2 * s.b[i] + (1 - h.b2) * g[i] * g[i]; double vh = s.b[i] / c2;
      if (h.ams) { if (h.amsvar) { s.c[i] = std::max(s.c[i], vh); vh = s.c[i]; } else { s.c[i] = std::max(s.c[i], s.b[i]); vh = s.c[i] / c2; } }
      p[i] -= lr * (s.a[i] / c1) / (std::sqrt(vh) + h.eps);
    }
  }
}
static std::unique_ptr<Optimizer> make(const std::string& k, const Hyp& h, std::vector<TensorPtr> ps) {
  auto f = [](double x) { return (float)x; };
  if (k == "SGD") return std::make_unique<SGD>(std::move(ps), f(h.lr), f(h.mom), f(h.damp), f(h.wd), h.nest);
  if (k == "Adagrad") return std::make_unique<Adagrad>(std::move(ps), f(h.lr), f(h.lrDecay), f(h.wd), f(h.init), f(h.eps));
  if (k == "RMSprop") return std::make_unique<RMSprop>(std::move(ps), f(h.lr), f(h.alpha), f(h.eps), f(h.wd), f(h.mom), h.cent);
  if (k == "AdaDelta") return std::make_unique<AdaDelta>(std::move(ps), f(h.lr), f(h.rho), f(h.eps), f(h.wd));
  if (k == "Adam") return std::make_unique<Adam>(std::move(ps), f(h.lr), std::make_pair(f(h.b1), f(h.b2)), f(h.eps), f(h.wd), h.ams);
  return std::make_unique<AdamW>(std::move(ps), f(h.lr), std::make_pair(f(h.b1), f(h.b2)), f(h.eps), f(h.wd), h.ams);
}
static std::string hs(const Hyp& h) { char b[300]; snprintf(b, 300, "lr %g momentum %g dampening %g decay %g init %g eps %g lrDecay %g alpha %g rho %g betas %g,%g nesterov %d centered %d amsgrad %d", h.lr, h.mom, h.damp, h.wd, h.init, h.eps, h.lrDecay, h.alpha, h.rho, h.b1, h.b2, h.nest, h.cent, h.ams); return b; }
static void run(const std::string& k, Hyp h, uint64_t salt) {
  for (double* x : {&h.lr, &h.mom, &h.damp, &h.wd, &h.init, &h.eps, &h.lrDecay, &h.alpha, &h.rho, &h.b1, &h.b2}) *x = (double)(float)*x;
  Rng g(seed() * 7919 + salt);
  std::vector<VI> shapes_ = {{3}, {2, 2}, {}, {1, 3, 1}}; size_t np = 1 + (size_t)g.in(0, 3);
  std::vector<Nd> p0; std::vector<Tensor> t; std::vector<VD> p; std::vector<St> s(np), s2(np); std::vector<VD> pv;
  for (size_t i = 0; i < np; i++) { p0.push_back(rnd(shapes_[i], g)); for (auto& x : p0[i].v) x = (double)(float)x; Tensor x = (salt + i) % 3 == 0 && !p0[i].s.empty() ? mkview(p0[i]) : mk(p0[i]); x.setRequiresGrad(true); t.push_back(x); p.push_back(p0[i].v); }
  pv = p;
  std::vector<Tensor> clones; for (auto& x : t) clones.push_back(x.clone());
  std::vector<TensorPtr> ptr; for (auto& x : t) ptr.push_back(&x);
  auto o = make(k, h, ptr); double lr = h.lr; std::string hist;
  CHECK("lr", o->getLr() == (float)lr, "learning rate");
  bool live = g.coin();   // gradients accumulate in place instead of being replaced
  std::vector<bool> frozen(np, false); if (np > 1 && g.in(0, 3) == 0) { size_t q = (size_t)g.in(0, (int64_t)np - 1); frozen[q] = true; hist += " p" + std::to_string(q) + " is frozen from the third step;"; }
  for (int step = 1; step <= 6; step++) {
    if (step == 3) for (size_t i = 0; i < np; i++) if (frozen[i]) t[i].setRequiresGrad(false);
    if (g.in(0, 4) == 0) { lr = (double)(float)(lr * 0.7); o->setLr((float)lr); hist += " setLr " + std::to_string(lr); }
    bool zg = g.in(0, 3) == 0;
    if (zg) { o->zeroGrad(); hist += " zeroGrad"; }
    std::vector<Nd> gs(np); std::vector<bool> has(np); std::vector<Nd> before(np);
    for (size_t i = 0; i < np; i++) {
      int w = (int)g.in(0, 5);
      if (frozen[i] && !t[i].requiresGrad()) { has[i] = false; before[i] = rd(t[i]); continue; }
      if (w == 0) { t[i].setGrad(Tensor()); has[i] = false; hist += " [p" + std::to_string(i) + " none]"; }
      else if (w == 1 && zg) { gs[i] = Nd(p0[i].s); has[i] = true; hist += " [p" + std::to_string(i) + " zero]"; }
      else {
        Nd q = rnd(p0[i].s, g); for (auto& x : q.v) x = (double)(float)x;
        if (live && t[i].grad().defined()) { Nd old = rd(t[i].grad()); t[i].addGrad(mk(q)); for (size_t j = 0; j < q.v.size(); j++) q.v[j] = (double)((float)q.v[j] + (float)old.v[j]); }
        else t[i].setGrad(mk(q));
        gs[i] = q; has[i] = true; hist += " [p" + std::to_string(i) + " " + strv(q.v, 6) + "]";
      }
      if (has[i]) gs[i] = rd(t[i].grad());
      before[i] = rd(t[i]);
    }
    hist += " step;";
    std::string start; for (auto& x : p0) start += strv(x.v, 6);
    input("%s %s parameters %s history%s", k.c_str(), hs(h).c_str(), start.c_str(), hist.c_str());
    o->step();
    for (size_t i = 0; i < np; i++) {
      std::string key = k;
      CHECK("shape", shp(t[i]) == p0[i].s, "parameter %zu changed shape", i);
      if (frozen[i] && step >= 3) { CHECK("no-grad-touched", rd(t[i]).v == before[i].v && !t[i].requiresGrad(), "frozen parameter %zu changed at step %d", i, step); continue; }
      CHECK("requires-grad", t[i].requiresGrad() && t[i].isLeaf(), "parameter %zu is no longer a leaf that requires a gradient", i);
      if (!has[i]) {
        CHECK("no-grad-touched", rd(t[i]).v == before[i].v, "parameter %zu without a gradient changed at step %d", i, step);
        CHECK("no-grad-touched", !t[i].grad().defined(), "parameter %zu got a gradient", i);
        continue;
      }
      CHECK("grad-changed", rd(t[i].grad()).v == gs[i].v, "the step changed the gradient of parameter %zu", i);
      Hyp h1 = h, h2 = h; h1.amsvar = 1; h2.amsvar = 0;
      rule(k, h1, lr, step, p[i], gs[i].v, s[i]); rule(k, h2, lr, step, pv[i], gs[i].v, s2[i]);
      Nd got = rd(t[i]); bool ok1 = true, ok2 = true; size_t bad = 0;
      for (size_t j = 0; j < got.v.size(); j++) {
        double tol = 2e-4 * std::max(1.0, std::fabs(p[i][j]));
        if (h.cent) tol *= 20;
        bool c1 = std::fabs(got.v[j] - p[i][j]) <= tol, c2 = std::fabs(got.v[j] - pv[i][j]) <= tol;
        if (!c1 && ok1) bad = j;
        ok1 = ok1 && c1; ok2 = ok2 && c2;
      }
      CHECK(key.c_str(), ok1 || ok2, "parameter %zu element %zu after step %d is %.9g, expected %.9g", i, bad, step, got.v[bad], p[i][bad]);
    }
  }
  for (size_t i = 0; i < np; i++) CHECK("clone-changed", rd(clones[i]).v == p0[i].v, "a clone of parameter %zu taken before the steps changed", i);
}
static Hyp base() { Hyp h{}; h.lr = 0.1; h.eps = 1e-6; h.alpha = 0.9; h.rho = 0.8; h.b1 = 0.8; h.b2 = 0.9; return h; }
static int reps() { return thorough() ? 40 : 6; }
GROUP(sgd) { uint64_t n = 0; for (double m : {0.0, 0.9, 0.5}) for (double d : {0.0, 0.3}) for (double w : {0.0, 0.2}) for (bool ne : {false, true}) for (double lr : {0.1, 1.5}) { if (ne && (m == 0 || d != 0)) continue; for (int r = 0; r < reps(); r++) { Hyp h = base(); h.lr = lr; h.mom = m; h.damp = d; h.wd = w; h.nest = ne; run("SGD", h, ++n); } } }
GROUP(adagrad) { uint64_t n = 1000; for (double ld : {0.0, 0.5}) for (double w : {0.0, 0.2}) for (double in : {0.0, 0.7}) for (double e : {1e-6, 0.3}) for (int r = 0; r < reps(); r++) { Hyp h = base(); h.lrDecay = ld; h.wd = w; h.init = in; h.eps = e; run("Adagrad", h, ++n); } }
GROUP(rmsprop) { uint64_t n = 2000; for (double m : {0.0, 0.6}) for (double w : {0.0, 0.2}) for (bool c : {false, true}) for (double e : {1e-3, 0.3}) for (double a : {0.9, 0.5}) for (int r = 0; r < reps(); r++) { Hyp h = base(); h.lr = 0.05; h.mom = m; h.wd = w; h.cent = c; h.eps = c ? std::max(e, 0.05) : e; h.alpha = a; run("RMSprop", h, ++n); } }
GROUP(adadelta) { uint64_t n = 3000; for (double w : {0.0, 0.2}) for (double e : {1e-4, 0.2}) for (double rho : {0.9, 0.5}) for (double lr : {1.0, 0.3}) for (int r = 0; r < reps(); r++) { Hyp h = base(); h.wd = w; h.eps = e; h.rho = rho; h.lr = lr; run("AdaDelta", h, ++n); } }
GROUP(adam) { uint64_t n = 4000; for (double w : {0.0, 0.2}) for (double e : {1e-6, 0.2}) for (bool a : {false, true}) for (double b1 : {0.9, 0.5}) for (double b2 : {0.99, 0.6}) for (int r = 0; r < reps(); r++) { Hyp h = base(); h.wd = w; h.eps = e; h.ams = a; h.b1 = b1; h.b2 = b2; run("Adam", h, ++n); } }
GROUP(adamw) { uint64_t n = 5000; for (double w : {0.0, 0.2}) for (double e : {1e-6, 0.2}) for (bool a : {false, true}) for (double b1 : {0.9, 0.5}) for (double b2 : {0.99, 0.6}) for (int r = 0; r < reps(); r++) { Hyp h = base(); h.wd = w; h.eps = e; h.ams = a; h.b1 = b1; h.b2 = b2; run("AdamW", h, ++n); } }
GROUP(training) {   // gradients from a real backward pass; the parameter used through every handle is the stepped one
  for (int mom = 0; mom < 2; mom++) {
    Nd w0({3}); w0.v = {1, -2, 0.5}; Tensor w = mk(w0); w.setRequiresGrad(true);
    SGD o({&w}, 0.1f, mom ? 0.5f : 0.f); VD p = w0.v; St s; Hyp h = base(); h.mom = mom ? 0.5 : 0;
    for (int k = 1; k <= 5; k++) {
      o.zeroGrad(); input("loss sum(w*w), SGD momentum %g, step %d, w %s", h.mom, k, strv(rd(w).v).c_str());
      VD g(3); for (int i = 0; i < 3; i++) g[i] = 2 * p[i];
      Tensor l = (w * w).sum(); l.backward(); o.step(); rule("SGD", h, (double)0.1f, k, p, g, s);
      Nd e({3}); e.v = p; eq("training", w, e, 1e-4, 1e-5);
    }
  }
}
GROUP(zero_grad) {   // clearing gradients does not disturb the state
  uint64_t n = 0;
  for (std::string k : {"SGD", "Adagrad", "RMSprop", "AdaDelta", "Adam", "AdamW"}) for (double wd : {0.0, 0.1}) for (int b = 0; b < 2; b++) {
    Rng g(seed() * 3 + ++n); Hyp h = base(); h.mom = k == "SGD" || k == "RMSprop" ? 0.5 : 0; h.wd = wd; h.cent = b; h.ams = b; h.nest = b; h.eps = 0.1;
    Nd a = rnd({2, 3}, g); Tensor x = mk(a), y = mk(a); x.setRequiresGrad(true); y.setRequiresGrad(true);
    auto ox = make(k, h, {&x}), oy = make(k, h, {&y});
    for (int s = 0; s < 5; s++) {
      Nd q = rnd({2, 3}, g); input("%s %s: with and without clearing the gradient after each step, step %d", k.c_str(), hs(h).c_str(), s + 1);
      x.setGrad(mk(q)); ox->step(); ox->zeroGrad(); if (x.grad().defined()) for (double v : rd(x.grad()).v) CHECK("zero-grad", v == 0, "gradient not cleared");
      if (s % 2) { Tensor held = x.grad(); x.addGrad(mk(q)); ox->zeroGrad(); ox->zeroGrad(); }
      y.setGrad(mk(q)); oy->step();
      CHECK("zero-grad-state", rd(x).v == rd(y).v, "clearing the gradients changed the update: %s, without %s", strv(rd(x).v).c_str(), strv(rd(y).v).c_str());
    }
  }
}
GROUP(independent) {   // the update of a parameter does not depend on the other parameters
  uint64_t n = 0;
  for (std::string k : {"SGD", "Adagrad", "RMSprop", "AdaDelta", "Adam", "AdamW"}) for (int b = 0; b < 2; b++) {
    Rng g(seed() * 5 + ++n); Hyp h = base(); h.mom = k == "SGD" || k == "RMSprop" ? 0.5 : 0; h.wd = 0.1; h.cent = b; h.ams = b; h.nest = b; h.eps = 0.1;
    std::vector<Nd> a = {rnd({3}, g), rnd({3}, g), rnd({3}, g)}; std::vector<Tensor> x, y; for (auto& q : a) { x.push_back(mk(q)); y.push_back(mk(q)); x.back().setRequiresGrad(true); y.back().setRequiresGrad(true); }
    auto all = make(k, h, {&x[0], &x[1], &x[2]}); std::vector<std::unique_ptr<Optimizer>> one; for (int i = 0; i < 3; i++) one.push_back(make(k, h, {&y[(size_t)i]}));
    for (int s = 0; s < 4; s++) {
      input("%s %s: three parameters together and apart, step %d", k.c_str(), hs(h).c_str(), s + 1);
      for (size_t i = 0; i < 3; i++) { if ((s + (int)i) % 4 == 3) { x[i].setGrad(Tensor()); y[i].setGrad(Tensor()); continue; } Nd q = rnd({3}, g); x[i].setGrad(mk(q)); y[i].setGrad(mk(q)); }
      all->step(); for (auto& o : one) o->step();
      for (size_t i = 0; i < 3; i++) CHECK("independent", rd(x[i]).v == rd(y[i]).v, "parameter %zu: together %s, alone %s", i, strv(rd(x[i]).v).c_str(), strv(rd(y[i]).v).c_str());
    }
  }
}
GROUP(step_lr) {
  for (int64_t size : {1, 2, 3, 5, 7}) for (float gamma : {0.1f, 0.5f, 0.9f, 2.f}) for (float lr : {1.f, 0.01f}) {
    Nd a({2}, 1); Tensor x = mk(a); x.setRequiresGrad(true); SGD o({&x}, lr); lr_scheduler::StepLR s(o, size, gamma);
    for (int64_t k = 0; k <= 20; k++) {
      input("StepLR size %lld gamma %g from %g after %lld steps", (long long)size, gamma, lr, (long long)k);
      double e = lr * std::pow((double)gamma, (double)(k / size));
      CHECK("step-lr", close(o.getLr(), e, 1e-4, 0), "rate %.9g, expected %.9g", o.getLr(), e);
      CHECK("step-lr", s.getLastLr() == o.getLr() && s.getLastEpoch() == k, "last rate %.9g epoch %lld", s.getLastLr(), (long long)s.getLastEpoch());
      x.setGrad(mk(a)); o.step(); s.step();
    }
  }
}
MAIN
