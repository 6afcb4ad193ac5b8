// C01 (ev/alw/boolean value at the evaluation time), C02 (until), C03 (whole signal):
// every formula of the grammar up to the depth bound, on every trace over the value alphabet.
#include "gen.hpp"
using namespace gen;
#ifndef PROP
#define PROP 1
#endif

struct P : mc::Property {
  std::vector<FP> F;
  struct B { int f; int g; };
  std::vector<B> blk;
  int NG = 3;
  static const int LONG = 100;             // g >= LONG: long traces on grid g - LONG
  static const int SCALE = 200;            // g >= SCALE: many samples, large values, times far from 0
  std::vector<Iv> I, J;
  std::vector<Iv> W{{0, 0}, {0.5, 0.5}, {1, 1}, {0, 1}, {0.25, 1}};

  void formulas() {
    FP x = xg(), X = xl(), y = yg();
    std::vector<FP> d1, d2;
    if (PROP == 1 || PROP == 3 || PROP == 15) {
      I = {{0, 0}, {0, 1}, {1, 2}, {0.5, 0.75}, {1, 1}, {0, 2}};
      for (auto& a : {x, X}) { F.push_back(a); apply_unary(a, I, d1); }
      apply_bool(x, y, d1); apply_bool(X, y, d1); apply_bool(y, x, d1);
      std::vector<Iv> I2 = thorough ? I : std::vector<Iv>{{0, 1}, {0.5, 0.75}, {1, 2}, {1, 1}};
      for (auto& f : d1) {
        apply_unary(f, I2, d2);
        apply_bool(f, y, d2); apply_bool(y, f, d2);
      }
      std::vector<FP> t1; apply_unary(x, {{0, 1}, {0.5, 1.5}}, t1, false);
      std::vector<FP> t2; apply_unary(y, {{0, 1}, {0.5, 1.5}}, t2, false);
      for (auto& a : t1) for (auto& b : t2) apply_bool(a, b, d2);
    }
    if (PROP == 2 || PROP == 3 || PROP == 15) {
      std::vector<Iv> U{{0, 1}, {1, 2}, {0, 0}, {1, 1}, {0.5, 0.75}, {0, 2}};
      std::vector<FP> u1; apply_until(x, y, U, u1); apply_until(X, y, U, u1);
      for (auto& f : u1) d1.push_back(f);
      std::vector<Iv> I2 = thorough ? std::vector<Iv>{{0, 1}, {1, 2}, {0.5, 0.75}, {0, 0}, {1, 1}} : std::vector<Iv>{{0, 1}, {0.5, 0.75}};
      std::vector<Iv> U2 = thorough ? std::vector<Iv>{{0, 1}, {1, 2}, {0.5, 0.75}, {0, 0}, {1, 1}} : std::vector<Iv>{{0, 1}, {0.5, 0.75}};
      for (auto& f : u1) { apply_unary(f, I2, d2); apply_bool(f, y, d2); apply_bool(xl(0), f, d2); }
      std::vector<FP> lo; apply_unary(x, {{0, 1}, {0.5, 1.5}, {1, 1}}, lo); apply_bool(x, y, lo);
      std::vector<FP> ro; apply_unary(y, {{0, 1}, {0.5, 1.5}, {1, 1}}, ro); apply_bool(X, y, ro);
      for (auto& f : lo) apply_until(f, y, U2, d2);
      for (auto& f : ro) apply_until(x, f, U2, d2);
      apply_until(d1[d1.size() - u1.size()], y, U2, d2);
      for (auto& f : u1) { apply_until(f, y, {{0, 1}}, d2); apply_until(x, f, {{0.5, 1}}, d2); }
    }
    for (auto& f : d1) F.push_back(f);
    size_t k = 0;
    for (auto& f : d2) { if ((PROP == 3 || PROP == 15) && !thorough && (k++ % 2)) continue; F.push_back(f); }
    if (thorough) {                     // depth 3
      std::vector<FP> d3;
      for (auto& f : d2) if (temporal_ops(f) >= 1) apply_unary(f, {{0, 1}, {0.5, 0.75}}, d3, false);
      for (auto& f : d3) F.push_back(f);
    }
  }
  long blocks() override {
    formulas();
    NG = 3;
    for (size_t f = 0; f < F.size(); f++) for (int g = 0; g < 2 * NG; g++) {
      if (!thorough && g >= NG && (f % 4)) continue;          // shifted time axis: every 4th formula in quick
      blk.push_back({(int)f, g});
    }
    for (size_t f = 0; f < F.size(); f++) for (int g = 0; g < 4; g++) {
      if (!thorough && ((int)f + g) % (PROP == 2 ? 2 : 4)) continue;
      blk.push_back({(int)f, LONG + g});
    }
    for (size_t f = 0; f < F.size(); f++) for (int g = 0; g < 8; g++) {
      if (g < 2 && !pointwise(F[f])) continue;
      if (!thorough && ((int)f + g * 5) % (g < 2 ? 30 : 15)) continue;
      blk.push_back({(int)f, SCALE + g});
    }
    return blk.size();
  }
  std::string bounds() override {
    return mc::fmt("%zu formulas (negation, and/or/implies, ev, alw%s nested to depth %d over 3 predicates), 3 sampling grids x time origin 0 and 3, every trace over "
      "values {-2,1,3} (one signal: 5 samples; two signals: 4 samples, y over {-1,2}), evaluation windows [0,0],[.5,.5],[1,1],[0,1],[.25,1]; long traces (8 to 24 samples, 4 grids with decimal or dyadic steps and time origins 0, 0.1, -2.5, 3): every periodic "
      "word over {-2,1,3} of period up to 3, ramps, and a spike up or down at every sample, also evaluated over [0,2], [1.75,1.75] and [0.3,1.6]; a part of the formulas on traces of 300 and 1100 samples, with values from -30000 to 45000, around the times 4194304, -4194304 and 131072, with samples 2^-18 apart (there also over windows ending 2^-18 before or after), and with values of 2^-18",
      F.size(), PROP == 1 ? "" : ", until", thorough ? 3 : 2);
  }
  void run(long b, mc::Run& r) override {
    FP f = F[blk[b].f];
    Params none; double H = horizon(f, none);
    bool lng = blk[b].g >= LONG, scl = blk[b].g >= SCALE;
    double T0 = blk[b].g >= NG ? 3 : 0;
    bool two = uses_y(f);
    int n = two ? 4 : (thorough ? 6 : 5);
    if (two && thorough) n = 5;
    auto G = scl ? scale_grid(blk[b].g - SCALE, H + 2, T0) : lng ? long_grid(blk[b].g - LONG, H + 2, T0, PROP == 15) : grids(T0, T0 + H + 1, n, NG)[blk[b].g % NG];
    n = G.size();
    std::vector<Iv> W = this->W;
    if (lng) { W.push_back({0, 2}); W.push_back({1.75, 1.75}); if (PROP != 15) W.push_back({0.3, 1.6}); }
    if (blk[b].g == SCALE + 6) { const double e = std::ldexp(1., -18); W.push_back({0, 1 - e}); W.push_back({0.25 + e, 1 + e}); W.push_back({e, 0.5}); W.push_back({0.5 - e, 0.5 - e}); }
    auto d = driver_for(strF(f));
    auto m = d.get_monitor("phi");
    if (PROP == 15) m.set_interpol("PREVIOUS");
    double tol = blk[b].g == SCALE + 2 || blk[b].g == SCALE + 6 ? 1e-3 : blk[b].g == SCALE + 7 ? 1e-3 * SMALL : 0;       // steep slopes: breakpoints that are 1e-9 off
    double unit = blk[b].g == SCALE + 7 ? SMALL : 1;
    auto close = [&](double a, double b) { return gen::close(a / unit, b / unit) || std::fabs(a - b) <= tol; };
    const double V[] = {-2, 1, 3}, VY[] = {-1, 2};
    auto one = [&](const std::vector<std::vector<double>>& rows) {
      if (!r.enter([&] { return "phi := " + strF(f) + "  trace " + rows_text(rows); })) return;
      Trace t{rows};
      bool pt = scl && blk[b].g < SCALE + 2 && has(f, F_UNTIL);
      PW z; if (!pt) z = robust(f, t, none, PROP == 15 ? PREVIOUS : LINEAR);
      At val = pt ? at(f, t, PROP == 15 ? PREVIOUS : LINEAR) : At([&](double u) { return z.val(u); });
      m.data = rows;
      r.states(rows.size()); 
      bool varies = false;
      for (auto& w : W) {
        double s = T0 + w.first, e = T0 + w.second;
        if (e + H > t.t1() + 1e-9) continue;
        double got = (s == e) ? m.eval_rob(s) : m.eval_rob(s, e), exp = val(s);
        r.transitions(1); r.outcome(exp);
        if (pt || exp != z.val(z.t0())) varies = true;
        if (PROP != 3 && !(PROP == 15 && e > s)) {
          if (!close(got, exp)) { r.fail(mc::fmt("robustness over [%g,%g]: got %.9g, expected %.9g", s, e, got, exp)); break; }
          if (!close(m.get_rob(), exp)) { r.fail(mc::fmt("stored robustness over [%g,%g]: got %.9g, expected %.9g", s, e, m.get_rob(), exp)); break; }
        } else {
          auto q = m.get_signal();
          if (q.empty() || std::fabs(q.beginTime - s) > 1e-9 || q.endTime < e - 1e-9 || std::fabs(q.front().time - s) > 1e-9) {
            r.fail(mc::fmt("signal over [%g,%g] does not cover it: ", s, e) + sigtext(q)); break; }
          bool bad = false;
          for (size_t i = 0; i + 1 < q.size(); i++) if (q[i].time > q[i + 1].time + 1e-9) bad = true;
          if (bad) { r.fail("times out of order: " + sigtext(q)); break; }
          std::vector<double> c; for (int k = 0; k <= 8; k++) c.push_back(s + (e - s) * k / 8);
          for (double x : z.t) if (x >= s && x <= e) c.push_back(x);
          if (c.size() > 200) { size_t step = c.size() / 100; for (size_t i = 0; i * step < c.size(); i++) c[i] = c[i * step]; c.resize((c.size() - 1) / step + 1); }
          for (double x : c) { double v = value_at(q, x), u = val(x); if (!close(v, u)) { r.fail(mc::fmt("over [%g,%g] at %g: got %.9g, expected %.9g; ", s, e, x, v, u) + sigtext(q)); bad = true; break; } }
          if (bad) break;
        }
      }
      if (varies) r.nontrivial();
    };
    if (lng) {
      auto w = scl ? scale_words(blk[b].g - SCALE, n) : long_words(n);
      for (size_t i = 0; i < w.size(); i++) for (int o : {1, 5, 12}) {
        if (!two && o > 1) break;
        if (o > 5 && !thorough) break;
        const auto& u = w[(i + o * 7) % w.size()];
        std::vector<std::vector<double>> rows; for (int k = 0; k < n; k++) rows.push_back({G[k], w[i][k], u[k]}); one(rows);
      }
      return;
    }
    if (!two) product(n, 3, [&](std::vector<int>& k) {
      std::vector<std::vector<double>> rows; for (int i = 0; i < n; i++) rows.push_back({G[i], V[k[i]], 0.5}); one(rows); });
    else product(n, 6, [&](std::vector<int>& k) {
      std::vector<std::vector<double>> rows; for (int i = 0; i < n; i++) rows.push_back({G[i], V[k[i] % 3], VY[k[i] / 3]}); one(rows); });
  }
};
int main(int c, char** v) { P p; return mc::explore_main(p, c, v); }
