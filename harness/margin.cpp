// C20: every formula of a grammar on every trace over an alphabet: the sign of the robustness against the
// Boolean semantics of the interpolated trace (evaluated in exact integer arithmetic on the times where a
// predicate changes its truth value), and the robustness of every two neighbouring traces against the
// Lipschitz bound. (Traces at a greater distance are joined by a chain of neighbours.)
#include "gen.hpp"
using namespace gen;
typedef long long L;

// truth over time: constant at every breakpoint and on every open interval between two of them
struct Truth {
  std::vector<L> t; std::vector<char> p, o;
  bool at(L x) const {
    size_t i = std::upper_bound(t.begin(), t.end(), x) - t.begin() - 1;
    return t[i] == x ? p[i] : o[i];
  }
};
const L UNIT = 128 * 144403552893600LL;                    // of time: every crossing is a multiple of 2
static L tick(double x) { double y = x * 64; if (y != std::floor(y)) throw std::runtime_error("time is not a multiple of 1/64"); return (L)y * (UNIT / 64); }

template <class F> Truth build_truth(std::vector<L> c, L lo, L hi, F f) {
  Truth z; std::sort(c.begin(), c.end());
  c.insert(c.begin(), lo); c.push_back(hi);
  for (L x : c) if (x >= lo && x <= hi && (z.t.empty() || x > z.t.back())) z.t.push_back(x);
  for (size_t i = 0; i < z.t.size(); i++) { z.p.push_back(f(z.t[i])); if (i + 1 < z.t.size()) z.o.push_back(f(z.t[i] + (z.t[i + 1] - z.t[i]) / 2)); }
  Truth y;                                                   // without redundant breakpoints
  for (size_t i = 0; i < z.t.size(); i++) {
    if (i && i + 1 < z.t.size() && z.p[i] == y.o.back() && z.o[i] == y.o.back()) continue;
    y.t.push_back(z.t[i]); y.p.push_back(z.p[i]); if (i + 1 < z.t.size()) y.o.push_back(z.o[i]);
  }
  return y;
}
static bool some(const Truth& f, L lo, L hi, bool want) {
  for (size_t i = 0; i < f.t.size(); i++) {
    if (f.t[i] >= lo && f.t[i] <= hi && f.p[i] == want) return true;
    if (i + 1 < f.t.size() && f.t[i] < hi && f.t[i + 1] > lo && f.o[i] == want) return true;
  }
  return false;
}
static Truth truth(const FP& f, const std::vector<std::vector<double>>& rows, bool step) {
  Params none;
  switch (f->op) {
    case F_GT: case F_LT: {
      std::vector<L> t, v, c;
      for (auto& r : rows) { double d = 16 * (evalE(f->e1, r, none) - evalE(f->e2, r, none)); if (f->op == F_LT) d = -d; if (d != std::floor(d)) throw std::runtime_error("value is not a multiple of 1/16"); t.push_back(tick(r[0])); v.push_back((L)d); }
      auto cross = [&](size_t i) { L s = t[i + 1] - t[i], n = -v[i], d = v[i + 1] - v[i]; L g = std::__gcd(std::llabs(n), std::llabs(d)); n /= g; d /= g; if (s % d) throw std::runtime_error("crossing is not representable"); return t[i] + s / d * n; };
      for (size_t i = 0; i < t.size(); i++) { c.push_back(t[i]); if (!step && i + 1 < t.size() && v[i] * v[i + 1] < 0) c.push_back(cross(i)); }
      return build_truth(c, t.front(), t.back(), [&](L x) {
        size_t i = std::upper_bound(t.begin(), t.end(), x) - t.begin() - 1;
        if (step || x == t[i]) return v[i] > 0;
        if (v[i] >= 0 && v[i + 1] >= 0) return v[i] > 0 || v[i + 1] > 0;
        if (v[i] <= 0 && v[i + 1] <= 0) return false;
        return v[i] > 0 ? x < cross(i) : x > cross(i);
      });
    }
    case F_NOT: { Truth z = truth(f->l, rows, step); for (auto& x : z.p) x = !x; for (auto& x : z.o) x = !x; return z; }
    case F_AND: case F_OR: case F_IMP: {
      Truth a = truth(f->l, rows, step), b = truth(f->r, rows, step);
      std::vector<L> c = a.t; c.insert(c.end(), b.t.begin(), b.t.end());
      return build_truth(c, std::max(a.t.front(), b.t.front()), std::min(a.t.back(), b.t.back()), [&](L x) { bool p = a.at(x), q = b.at(x); return f->op == F_AND ? p && q : f->op == F_OR ? p || q : !p || q; });
    }
    case F_EV: case F_ALW: {
      Truth a = truth(f->l, rows, step); L lo = tick(f->a), hi = tick(f->b); bool ev = f->op == F_EV;
      std::vector<L> c; for (L x : a.t) { c.push_back(x - lo); c.push_back(x - hi); }
      return build_truth(c, a.t.front(), a.t.back() - hi, [&](L x) { return some(a, x + lo, x + hi, ev) == ev; });
    }
    default: {
      Truth a = truth(f->l, rows, step), b = truth(f->r, rows, step); L lo = tick(f->a), hi = tick(f->b);
      std::vector<L> m = a.t, c; m.insert(m.end(), b.t.begin(), b.t.end()); std::sort(m.begin(), m.end()); m.erase(std::unique(m.begin(), m.end()), m.end());
      for (L x : m) { c.push_back(x); c.push_back(x - lo); c.push_back(x - hi); }
      return build_truth(c, std::max(a.t.front(), b.t.front()), std::min(a.t.back(), b.t.back()) - hi, [&](L x) {
        // the points and open intervals from x on, as long as the left operand is true
        if (!a.at(x)) return false;
        if (lo == 0 && b.at(x)) return true;
        L s = x; size_t k = std::upper_bound(m.begin(), m.end(), x) - m.begin();
        for (; s < x + hi && k < m.size(); k++) {
          L e = m[k], q = s + (e - s) / 2;
          if (!a.at(q)) return false;
          if (b.at(q) && s < x + hi && e > x + lo) return true;
          if (e > x + hi) return false;
          if (!a.at(e)) return false;
          if (b.at(e) && e >= x + lo) return true;
          s = e;
        }
        return false;
      });
    }
  }
}
static double lip(const FP& f) {
  if (f->op > F_LT) return std::max(f->l ? lip(f->l) : 0, f->r ? lip(f->r) : 0);
  Params none; double s = 0;
  auto g = [&](double x, double y) { std::vector<double> r{0, x, y}; return evalE(f->e1, r, none) - evalE(f->e2, r, none); };
  s = std::fabs(g(1, 0) - g(0, 0)) + std::fabs(g(0, 1) - g(0, 0));
  return s;
}

struct P : mc::Property {
  std::vector<FP> F;
  struct B { int f, g, step, alpha; };
  std::vector<B> blk;
  void formulas() {
    FP x = xg(), X = xl(), y = yg(), e2 = atom(F_GT, ebin(E_ADD, sig(1), sig(2)), cst(0)), e3 = atom(F_LT, ebin(E_MUL, cst(2), sig(1)), cst(1)), e4 = atom(F_GT, ebin(E_SUB, ebin(E_MUL, cst(2), sig(2)), sig(1)), cst(0));
    std::vector<Iv> I{{0, 1}, {1, 2}, {0.5, 0.75}, {1, 1}, {0, 2}}, U{{0, 1}, {1, 2}, {0.5, 0.75}, {0, 0}, {1, 1}};
    std::vector<FP> d0{x, X, e2, e3, e4}, d1, d2;
    for (auto& a : d0) { F.push_back(a); apply_unary(a, I, d1); }
    apply_bool(x, y, d1); apply_bool(e3, y, d1); apply_bool(x, e4, d1);
    apply_until(x, y, U, d1); apply_until(X, y, U, d1); apply_until(e3, e2, {{0, 1}, {0.5, 1.5}}, d1);
    std::vector<Iv> I2 = thorough ? I : std::vector<Iv>{{0, 1}, {0.5, 0.75}};
    for (auto& f : d1) { apply_unary(f, I2, d2); apply_bool(f, y, d2); apply_until(f, y, {{0.5, 1}}, d2); if (thorough) apply_until(X, f, {{0, 1}, {1, 1.5}}, d2); else apply_until(X, f, {{0, 1}}, d2); }
    for (auto& f : d1) F.push_back(f);
    for (auto& f : d2) F.push_back(f);
  }
  long blocks() override {
    formulas();
    for (size_t f = 0; f < F.size(); f++) for (int g = 0; g < 3; g++) for (int s = 0; s < 2; s++) for (int a = 0; a < 2; a++) {
      if (!thorough && s && (f + g + a) % 2) continue;
      blk.push_back({(int)f, g, s, a});
    }
    nblk = blk.size();
    for (size_t f = 0; f < F.size(); f++) for (int g = 0; g < 5; g++) for (int s = 0; s < 2; s++) if (thorough || (f + g * 3 + s * 5) % (g ? 4 : 9) == 0) blk.push_back({(int)f, g, s, 0});
    return blk.size();
  }
  long nblk = 0;
  // long traces, each with five neighbours
  void large(const B& B0, mc::Run& r) {
    FP f = F[B0.f]; bool step = B0.step; Params none; double H = horizon(f, none), Lf = lip(f), T0 = 0; const double D = 0.25;
    std::vector<double> G;
    if (B0.g) G = long_grid(B0.g - 1, H + 2, T0, true); else for (int i = 0; i < 200 || G.back() < H + 2; i++) G.push_back((3 * (i / 2) + i % 2) * (i < 120 ? 1 : 2) / 64.);
    int n = G.size(); auto W = long_words(n); if (n >= 200) W.resize(50);
    auto d = driver_for(strF(f)); auto m = d.get_monitor("phi"); if (step) m.set_interpol("PREVIOUS");
    for (size_t k = 0; k < W.size(); k++) {
      auto &x = W[k], &y = W[(k * 5 + 2) % W.size()];
      auto rows = [&](int v) { std::vector<std::vector<double>> R; for (int i = 0; i < n; i++) { double e = v == 0 ? 0 : v == 1 ? D : v == 2 ? (i % 2 ? D : -D) : i == (v == 3 ? 1 : v == 4 ? n / 2 : n - 2) ? -D : 0; R.push_back({G[i], x[i] + e, y[i] - e}); } return R; };
      for (int v = 0; v < 6; v++) {
        if (!r.enter([&] { return mc::fmt("long trace, neighbour %d: ", v) + (step ? "PREVIOUS " : "") + "phi := " + strF(f) + "  trace " + rows_text(rows(v)); })) continue;
        auto R = rows(v); Truth T; r.states(n);
        try { T = truth(f, R, step); } catch (const std::runtime_error&) { continue; }        // a crossing that the exact arithmetic cannot hold
        for (int w = 0; w < 3; w++) {
          double t = T0 + w * 0.5; if (t + H > G.back() + 1e-9) continue;
          m.data = rows(0); double base = m.eval_rob(t);
          m.data = R; double g = v ? m.eval_rob(t) : base; bool sat = T.at(tick(t)); r.transitions(1 + (v > 0)); r.outcome(g); if (g != 0) r.nontrivial();
          if ((g > 1e-9 && !sat) || (g < -1e-9 && sat)) { r.fail(mc::fmt("robustness at %g is %.9g, but the trace %s the formula", t, g, sat ? "satisfies" : "violates")); break; }
          if (std::fabs(g - base) > Lf * D + 1e-9) { r.fail(mc::fmt("robustness at %g is %.9g, and %.9g on the trace ", t, g, base) + rows_text(rows(0)) + mc::fmt(" which is only %g away (bound %g)", D, Lf * D)); break; }
        }
      }
    }
  }
  std::string bounds() override {
    return mc::fmt("%zu formulas (negation, and/or/implies, ev, alw, until nested to depth 2 over 6 predicates, three of them over linear expressions), 3 sampling grids, linear and previous interpolation, every trace over "
      "{-2,-1,0,1,2} and over {0,.25,.5,.75,1} (one signal: %d samples) or {-1,0,1} and {0,.25,.5} (two signals: %d samples)%s; evaluation at 0, .5, 1; every two traces with no two samples further apart than one step; %zu (formula, grid, interpolation) on long traces (8 to 200 samples: periodic words, ramps, spikes), each with 5 neighbours",
      F.size(), thorough ? 5 : 4, thorough ? 4 : 3, thorough ? "" : ", half of the combinations for previous interpolation", blk.size() - nblk);
  }
  void run(long b, mc::Run& r) override {
    if (b >= nblk) { large(blk[b], r); return; }
    const B& B0 = blk[b]; FP f = F[B0.f]; bool step = B0.step, two = uses_y(f);
    Params none; double H = horizon(f, none), Lf = lip(f), D = B0.alpha ? 0.25 : 1;
    int n = two ? (thorough ? 4 : 3) : (thorough ? 5 : 4);
    auto G = grids(0, H + 1, n, 3)[B0.g]; n = G.size();
    int nv = two ? 3 : 5, dims = two ? 2 * n : n; double v0 = B0.alpha ? 0 : two ? -1 : -2;
    long N = 1; for (int k = 0; k < dims; k++) N *= nv;
    auto d = driver_for(strF(f)); auto m = d.get_monitor("phi");
    if (step) m.set_interpol("PREVIOUS");
    const double W[] = {0, 0.5, 1};
    auto digits = [&](long i) { std::vector<int> k(dims); for (int q = dims - 1; q >= 0; q--) { k[q] = i % nv; i /= nv; } return k; };
    auto rows = [&](long i) {
      auto k = digits(i); std::vector<std::vector<double>> R;
      for (int q = 0; q < n; q++) R.push_back({G[q], v0 + D * k[q], two ? v0 + D * k[n + q] : 0.5});
      return R;
    };
    std::vector<double> C(3 * N, std::nan(""));
    auto rob = [&](long i, int w) { double& c = C[3 * i + w]; if (std::isnan(c)) { m.data = rows(i); c = m.eval_rob(W[w]); r.transitions(1); } return c; };
    for (long i = 0; i < N; i++) {
      if (!r.enter([&] { return std::string("sign: ") + (step ? "PREVIOUS " : "") + "phi := " + strF(f) + "  trace " + rows_text(rows(i)); })) continue;
      auto R = rows(i); Truth T = truth(f, R, step); r.states(n);
      for (int w = 0; w < 3; w++) {
        if (W[w] + H > G.back() + 1e-9) continue;
        bool sat = T.at(tick(W[w]));
        double v = rob(i, w);
        if (v != 0) r.nontrivial();
        r.outcome(v);
        if ((v > 1e-9 && !sat) || (v < -1e-9 && sat)) { r.fail(mc::fmt("robustness at %g is %.9g, but the trace %s the formula", W[w], v, sat ? "satisfies" : "violates")); break; }
      }
    }
    for (long i = 0; i < N; i++) {
      if (!r.enter([&] { return std::string("neighbours: ") + (step ? "PREVIOUS " : "") + "phi := " + strF(f) + "  trace " + rows_text(rows(i)); })) continue;
      auto k = digits(i);
      bool bad = false;
      std::function<void(int, long)> go = [&](int q, long j) {          // every neighbour j > i
        if (bad) return;
        if (q == dims) {
          if (j <= i) return;
          for (int w = 0; w < 3; w++) {
            if (W[w] + H > G.back() + 1e-9) continue;
            double x = rob(i, w), y = rob(j, w);
            if (std::fabs(x - y) > Lf * D + 1e-9) { r.fail(mc::fmt("robustness at %g is %.9g, and %.9g on the trace ", W[w], x, y) + rows_text(rows(j)) + mc::fmt(" which is only %g away (bound %g)", D, Lf * D)); bad = true; return; }
          }
          return;
        }
        for (int e = -1; e <= 1; e++) if (k[q] + e >= 0 && k[q] + e < nv) go(q + 1, j * nv + k[q] + e);
      };
      go(0, 0);
    }
  }
};
int main(int c, char** v) { P p; return mc::explore_main(p, c, v); }
