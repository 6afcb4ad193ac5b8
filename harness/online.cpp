// C04 (bounds contain the value of every continuation), C05 (bounds only tighten as samples arrive),
// C06 (bounds meet the value once the horizon is covered, and stay there).
// A state is a trace prefix; the whole tree of prefixes over the sample alphabet is explored, and every
// leaf is a complete trace whose value the reference model gives.
#include "gen.hpp"
using namespace gen;
#ifndef PROP
#define PROP 4
#endif

struct P : mc::Property {
  std::vector<FP> F;
  struct B { int f, g, w, api, prev; };
  std::vector<B> blk;
  std::vector<Iv> W{{0, 0}, {0.5, 0.5}, {0.5, 1.5}, {1, 1}};
  std::vector<Iv> WL{{0, 0}, {0.25, 1.5}, {1.75, 1.75}, {0.5, 3}};        // for the long traces
  int NG = 3;
  static const int LONG = 100, SCALE = 200;             // g >= LONG: long traces on grid g - LONG; scaled-up traces

  void formulas() {
    FP x = xg(), X = xl(), y = yg();
    std::vector<Iv> I{{0, 1}, {1, 2}, {0, 0}, {1, 1}, {0.5, 0.75}}, I2{{0, 1}, {0.5, 1}, {1, 1}};
    std::vector<Iv> U{{0, 1}, {1, 2}, {0, 0}, {1, 1}}, U2{{0, 1}, {0.5, 1}};
    std::vector<FP> d1, d2;
    F.push_back(x); F.push_back(X);
    apply_unary(x, I, d1); apply_unary(X, {{0, 1}, {1, 2}}, d1, false); apply_bool(x, y, d1); apply_bool(yl(), X, d1);
    apply_until(x, y, U, d1); apply_until(y, X, {{0, 1}, {0.5, 1.5}}, d1);
    for (auto& f : d1) { apply_unary(f, thorough ? I : I2, d2); apply_bool(f, y, d2); apply_bool(yl(), f, d2); }
    std::vector<FP> l, rr;
    apply_unary(x, {{0, 1}, {1, 2}}, l); apply_bool(x, y, l); apply_unary(y, {{0, 1}, {0.5, 1}}, rr); apply_until(x, y, {{0.5, 1}}, l);
    for (auto& f : l) { apply_until(f, y, U2, d2); apply_until(yl(), f, U2, d2); }
    for (auto& f : l) for (auto& g : rr) apply_bool(f, g, d2);
    if (thorough) for (auto& f : l) for (auto& g : rr) apply_until(f, g, {{0, 1}, {0.5, 1}}, d2);
    for (auto& f : d1) F.push_back(f);
    for (auto& f : d2) F.push_back(f);
    if (thorough) { std::vector<FP> d3; for (auto& f : d2) if (temporal_ops(f)) apply_unary(f, {{0, 1}, {0.5, 1}}, d3); for (auto& f : d3) F.push_back(f); }
  }
  long blocks() override {
    formulas();
    for (size_t f = 0; f < F.size(); f++) for (int g = 0; g < NG; g++) for (size_t w = 0; w < W.size(); w++) for (int api = 0; api < 2; api++) {
      if (api && (W[w].first != W[w].second || (!thorough && (f + g) % 3))) continue;      // the driver evaluates at one time
      for (int prev = 0; prev < 2; prev++) blk.push_back({(int)f, g, (int)w, api, prev});
    }
    for (size_t f = 0; f < F.size(); f++) for (int g = 0; g < 4; g++) for (size_t w = 0; w < WL.size(); w++) for (int prev = 0; prev < 2; prev++) {
      if (!thorough && (f * 3 + g * 2 + w + prev * 4) % 8) continue;
      blk.push_back({(int)f, LONG + g, (int)w, 0, prev});
    }
    for (size_t f = 0; f < F.size(); f++) for (int g = 0; g < 8; g++) for (int prev = 0; prev < 2; prev++) {
      if (g == 1 || (g == 0 && !pointwise(F[f]))) continue;
      size_t w = (f + g + prev) % WL.size();
      if ((int)(f * 3 + g * 2 + prev * 7) % (thorough ? 7 : g >= 6 ? 19 : 53)) continue;
      blk.push_back({(int)f, SCALE + g, (int)w, 0, prev});
    }
    return blk.size();
  }
  std::string bounds() override {
    return mc::fmt("%zu formulas (not/and/or/implies/ev/alw/until to depth %d), 3 sampling grids, evaluation windows [0,0],[.5,.5],[.5,1.5],[1,1], "
      "both interpolations, BigM 10000 and 64, through a monitor and through the driver, the whole tree of trace prefixes over values {-30,-2,1,3,30} (one signal, 5 samples) or {-30,1,3}x{-2,20} (two signals, 4 samples); long traces (up to 24 samples, 4 grids with decimal or dyadic steps and time origins 0, 0.1, -2.5, 3), at every prefix: every periodic "
      "word over {-2,3,40} of period up to 3, ramps, and a spike up or down at every sample, evaluated over [0,0], [.25,1.5], [1.75,1.75] and [.5,3]; a part of the formulas on traces of 300 samples, with values up to 45000 and BigM 10^6, and around the times 4194304, -4194304 and 131072, with samples 2^-18 apart, and with values of 2^-18",
      F.size(), thorough ? 3 : 2);
  }
  // `w.first` later than the first sample on purpose: a prefix may not even reach the evaluation time
  void run(long b, mc::Run& r) override {
    FP f = F[blk[b].f]; bool lng = blk[b].g >= LONG, scl = blk[b].g >= SCALE; Iv w = (lng ? WL : W)[blk[b].w]; bool api = blk[b].api; Interp in = blk[b].prev ? PREVIOUS : LINEAR;
    double M = blk[b].g == SCALE + 2 ? (PROP == 6 && b % 2 ? 10000 : 1e6) : b % 3 == 1 ? 64 : 10000; STLRom::Signal::set_BigM(M);     // what stands for infinity
    Params none; double H = horizon(f, none);
    bool two = uses_y(f);
    int n = two ? 4 : 5; if (thorough) n++;
    double need = w.second + H;                                // horizon covered from here on
    double T0 = 0; std::vector<double> G;
    if (lng) { G = scl ? scale_grid(blk[b].g - SCALE, need, T0) : long_grid(blk[b].g - LONG, need, T0, in == PREVIOUS); if (PROP == 6) G.push_back(G.back() + 1); w.first += T0; w.second += T0; need += T0; }
    else G = grids(0, PROP == 6 ? need * 0.75 + 0.25 : need, n - (PROP == 6), NG)[blk[b].g];
    if (PROP == 6 && !lng) G.push_back(std::max(need, G.back()) + 1);  // one more sample after (or at) the end
    n = G.size();
    std::vector<std::vector<double>> menu;
    if (two) for (double x : {-30., 1., 3.}) for (double y : {-2., 20.}) menu.push_back({x, y});
    else for (double x : {1., -2., 3., -30., 30.}) menu.push_back({x, 0.5});
    auto d = driver_for(strF(f));
    auto m = d.get_monitor("phi");
    if (in == PREVIOUS) { m.set_interpol("PREVIOUS"); d.set_interpol("PREVIOUS"); }
    std::vector<std::vector<double>> rows;
    struct Q { double lo, up, rob; };
    auto query = [&](Q& q) {
      if (!api) { m.data = rows; q.rob = w.first == w.second ? m.eval_rob(w.first) : m.eval_rob(w.first, w.second); q.lo = m.get_lower_rob(); q.up = m.get_upper_rob(); }
      else { d.data = rows; auto v = d.get_online_rob("phi", w.first); if (v.size() != 3) throw std::runtime_error("no answer"); q.rob = v[0]; q.lo = v[1]; q.up = v[2]; }
    };
    auto text = [&] { return "phi := " + strF(f) + mc::fmt("  over [%g,%g] %s%s  samples ", w.first, w.second, api ? "driver" : "monitor", in == PREVIOUS ? " PREVIOUS" : "") + rows_text(rows); };
    std::vector<Q> path;
    const double tol = blk[b].g == SCALE + 6 ? 2e-3 : blk[b].g == SCALE + 7 ? 1e-3 : 1e-6;        // steep slopes: the oracle takes breakpoints 1e-9 apart for one
    const double unit = blk[b].g == SCALE + 7 ? SMALL : 1;
    auto same = [&](double a, double b) { return gen::close(a / unit, b / unit) || std::fabs(a - b) <= tol * unit; };
    auto ok = [&](double a, double b) { return a <= b + tol * std::max(unit, std::fabs(b)); };
    // one case = one subtree under the first two samples
    const std::vector<double>*lx = nullptr, *ly = nullptr;     // the long trace
    std::function<void(int)> rec = [&](int k) {
      Q q; query(q); r.states(1); if (k > 1) r.transitions(1); r.outcome(q.up - q.lo);
      bool covered = rows.back()[0] >= need - 1e-9;
      if (std::isnan(q.lo) || std::isnan(q.up)) { r.fail("bound is NaN; " + text()); return; }
      if (PROP == 5 && !path.empty()) {
        if (!ok(path.back().lo, q.lo)) { r.fail(mc::fmt("lower bound went from %.9g down to %.9g; ", path.back().lo, q.lo) + text()); return; }
        if (!ok(q.up, path.back().up)) { r.fail(mc::fmt("upper bound went from %.9g up to %.9g; ", path.back().up, q.up) + text()); return; }
        if (q.lo > path.back().lo || q.up < path.back().up) r.nontrivial();
      }
      if (PROP == 5 && path.empty() && (q.lo > q.up + tol)) { r.fail("lower bound above upper bound; " + text()); return; }
      if (covered && PROP == 6) {
        double e = at(f, Trace{rows}, in)(w.first);
        r.nontrivial();
        if (!same(q.lo, e) || !same(q.up, e) || !same(q.rob, e)) { r.fail(mc::fmt("horizon covered: got %.9g in [%.9g,%.9g], expected %.9g; ", q.rob, q.lo, q.up, e) + text()); return; }
      }
      path.push_back(q);
      if (k < n && lng) { rows.push_back({G[k], (*lx)[k], (*ly)[k]}); rec(k + 1); rows.pop_back(); }
      else if (k < n) for (auto& s : menu) { rows.push_back({G[k], s[0], s[1]}); rec(k + 1); rows.pop_back(); }
      else if (PROP == 4) {
        double e = at(f, Trace{rows}, in)(w.first);
        for (size_t i = 0; i < path.size(); i++) {
          size_t len = rows.size() - path.size() + i + 1;
          if (!ok(path[i].lo, e) || !ok(e, path[i].up)) {
            r.fail(mc::fmt("after %zu samples the bounds are [%.9g,%.9g] but the complete trace has robustness %.9g; ", len, path[i].lo, path[i].up, e) + text()); break; }
          if (i + 1 < path.size() && (path[i].lo > -M || path[i].up < M)) r.nontrivial();
        }
      }
      path.pop_back();
    };
    if (lng) {
      auto v = scl ? scale_words(blk[b].g - SCALE, n) : long_words(n, {-2, 3, 40});
      for (size_t i = 0; i < v.size(); i++) {
        lx = &v[i]; ly = &v[(i * 5 + 7) % v.size()];
        rows.clear(); for (int k = 0; k < n; k++) rows.push_back({G[k], (*lx)[k], (*ly)[k]});
        if (!r.enter([&] { return text(); })) continue;
        rows.resize(1); path.clear();
        rec(1);
      }
      return;
    }
    for (auto& s0 : menu) {
      rows = {{G[0], s0[0], s0[1]}};
      if (!r.enter([&] { return text(); })) continue;
      path.clear();
      rec(1);
    }
  }
};
int main(int c, char** v) { P p; return mc::explore_main(p, c, v); }
