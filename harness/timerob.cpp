// C14: time robustness of every signal of a finite family (signals.cpp), and formulas under LEFT_TIME and
// RIGHT_TIME against the reference model with each predicate replaced by its time robustness over the part
// of the trace the evaluation needs it on.
#define PROP 14
#define NO_MAIN
#include "signals.cpp"

static PW cut(const PW& f, double s, double e) {
  PW z; std::vector<double> c(f.t);
  uniq(c, s, e);
  z.t = c;
  for (size_t i = 0; i < c.size(); i++) { z.v.push_back(f.val(c[i])); if (i + 1 < c.size()) { z.r.push_back(f.rlim(c[i])); z.l.push_back(f.llim(c[i + 1])); } }
  return z;
}
static PW time_rob(const PW& m, bool right) {
  auto c = P::zeros(m);
  std::vector<int> T; for (size_t i = 0; i + 1 < c.size(); i++) T.push_back(m.val((c[i] + c[i + 1]) / 2) > 0);
  int last = m.v.back() > 0;
  PW z; z.t = c; size_t n = T.size();
  std::vector<double> lo(n), hi(n);                 // the run of equal truth each piece belongs to
  for (size_t i = 0; i < n; i++) lo[i] = i && T[i - 1] == T[i] ? lo[i - 1] : c[i];
  for (size_t i = n; i-- > 0;) hi[i] = i + 1 < n && T[i + 1] == T[i] ? hi[i + 1] : c[i + 1];
  for (size_t i = 0; i < n; i++) {
    double s = T[i] ? 1 : -1;
    z.r.push_back(s * (right ? hi[i] - c[i] : c[i] - lo[i]));
    z.l.push_back(s * (right ? hi[i] - c[i + 1] : c[i + 1] - lo[i]));
    z.v.push_back(z.r.back());
  }
  z.v.push_back(n && T[n - 1] == last ? z.l.back() : 0);
  return z;
}
static PW trobust(const FP& f, const Trace& tr, Interp in, bool right, double s, double e) {
  Params none;
  switch (f->op) {
    case F_GT: case F_LT: return time_rob(cut(robust(f, tr, none, in), s, e), right);
    case F_NOT: return neg(trobust(f->l, tr, in, right, s, e));
    case F_AND: return combine(trobust(f->l, tr, in, right, s, e), trobust(f->r, tr, in, right, s, e), false);
    case F_OR: return combine(trobust(f->l, tr, in, right, s, e), trobust(f->r, tr, in, right, s, e), true);
    case F_IMP: return combine(neg(trobust(f->l, tr, in, right, s, e)), trobust(f->r, tr, in, right, s, e), true);
    case F_EV: case F_ALW: return window(trobust(f->l, tr, in, right, s + f->a, e + f->b), f->a, f->b, f->op == F_EV, false);
    default: return until(trobust(f->l, tr, in, right, s, e + f->b), trobust(f->r, tr, in, right, s + f->a, e + f->b), f->a, f->b, false);
  }
}

// a predicate that touches zero at an instant within a positive run: whether that ends the run is left open
static bool touches(const FP& f, const Trace& tr, Interp in) {
  if (f->op != F_GT && f->op != F_LT) return touches(f->l, tr, in) || (f->r && touches(f->r, tr, in));
  PW m = robust(f, tr, Params(), in);
  for (size_t i = 1; i + 1 < m.t.size(); i++) if (std::fabs(m.v[i]) < 1e-9 && m.val((m.t[i - 1] + m.t[i]) / 2) > 1e-9 && m.val((m.t[i] + m.t[i + 1]) / 2) > 1e-9) return true;
  return false;
}

// a predicate that is zero at an end of the part it is needed on: its truth at that instant is left open
static bool edge(const FP& f, const Trace& tr, Interp in, double s, double e) {
  switch (f->op) {
    case F_GT: case F_LT: { PW m = robust(f, tr, Params(), in); return std::fabs(m.val(s)) < 1e-9 || std::fabs(m.val(e)) < 1e-9; }
    case F_NOT: return edge(f->l, tr, in, s, e);
    case F_EV: case F_ALW: return edge(f->l, tr, in, s + f->a, e + f->b);
    case F_UNTIL: return edge(f->l, tr, in, s, e + f->b) || edge(f->r, tr, in, s + f->a, e + f->b);
    default: return edge(f->l, tr, in, s, e) || edge(f->r, tr, in, s, e);
  }
}

struct Q : P {
  std::vector<FP> F; long nsig = 0;
  std::vector<Iv> W{{0, 0}, {0.5, 0.5}, {0, 1}, {0.25, 1}};
  void init() override {
    P::init(); nsig = P::blocks();
    FP x = xg(), X = xl(2), y = yg();
    std::vector<Iv> I{{0, 1}, {1, 2}, {0.5, 0.75}, {1, 1}, {0, 0}, {0, 2}}, I2{{0, 1}, {0.5, 1}, {1, 1}};
    std::vector<FP> d1, d2;
    F = {x, X};
    apply_unary(x, I, d1); apply_unary(X, I2, d1, false); apply_bool(x, y, d1); apply_bool(y, X, d1); apply_until(x, y, I, d1); apply_until(X, y, I2, d1);
    for (auto& f : d1) { apply_unary(f, thorough ? I : I2, d2); apply_bool(f, y, d2); if (thorough) apply_bool(y, f, d2); apply_until(f, y, {{0, 1}}, d2); apply_until(yl(3), f, {{0.5, 1}}, d2); }
    for (auto& f : d1) F.push_back(f);
    for (auto& f : d2) F.push_back(f);
    if (thorough) for (auto& f : d2) if (temporal_ops(f)) apply_unary(f, {{0, 1}, {0.5, 0.75}}, F, false);
  }
  std::vector<std::pair<int, int>> SC;      // formula, scale * 4 + mode
  long blocks() override {
    SC.clear();
    for (size_t f = 0; f < F.size(); f++) for (int g = 0; g < 8; g++) for (int m = 0; m < 4; m++) {
      if (g == 1 || (g == 0 && has(F[f], F_UNTIL)) || ((int)f * 4 + g + m * 9) % (thorough ? 5 : 37)) continue;
      SC.push_back({(int)f, g * 4 + m});
    }
    return nsig + (long)F.size() * 8 + (long)SC.size();
  }
  // many samples, large values, times far from 0
  void scaled(int i, mc::Run& r) {
    FP f = F[SC[i].first]; int how = SC[i].second / 4; bool right = SC[i].second % 2; Interp in = SC[i].second / 2 % 2 ? PREVIOUS : LINEAR;
    Params none; double H = horizon(f, none), T0 = 0;
    auto G = scale_grid(how, H + 2, T0); int n = G.size();
    auto m = driver_for(strF(f)).get_monitor("phi"); m.set_interpol(in == PREVIOUS ? "PREVIOUS" : "LINEAR"); m.set_semantics(right ? "RIGHT_TIME" : "LEFT_TIME");
    auto words = scale_words(how, n);
    for (size_t k = 0; k < words.size(); k++) {
      auto &x = words[k], &y = words[(k * 5 + 2) % words.size()];
      std::vector<std::vector<double>> rows; for (int j = 0; j < n; j++) rows.push_back({G[j], x[j] + 0.015625 * (how == 7 ? SMALL : 1), y[j] - 0.0078125 * (how == 7 ? SMALL : 1)});
      if (!r.enter([&] { return std::string(right ? "RIGHT" : "LEFT") + "_TIME " + (in == PREVIOUS ? "PREVIOUS " : "") + "phi := " + strF(f) + "  trace " + rows_text(rows); })) continue;
      Trace t{rows}; if (touches(f, t, in)) continue;
      m.data = rows; r.states(n);
      for (Iv w : {Iv{0, 0}, Iv{0.25, 0.25}, Iv{0.5, 2}}) {
        double s = T0 + w.first, e = T0 + w.second, got = w.first == w.second ? m.eval_rob(s) : m.eval_rob(s, e);
        if (edge(f, t, in, s, e)) continue;
        double exp = trobust(f, t, in, right, s, e).val(s);
        r.transitions(1); r.outcome(exp); if (exp != 0) r.nontrivial();
        if (!close(got, exp) && std::fabs(got - exp) > 1e-6) { r.fail(mc::fmt("over [%g,%g]: got %.9g, expected %.9g", s, e, got, exp)); break; }
      }
    }
  }
  std::string bounds() override {
    return P::bounds() + mc::fmt("; %zu formulas to depth %d, 3 sampling grids and one with PREVIOUS interpolation, LEFT_TIME and RIGHT_TIME, every trace over {-2,1,3} or {-2,0,3} (one signal, %d samples) or x {-1,2} (two signals, %d samples), windows [0,0],[.5,.5],[0,1],[.25,1]; the bounds and the whole satisfaction signal too; %zu (formula, mode) on traces scaled up: 300 and 1100 samples, values from -30000 to 45000, times about 4194304, -4194304 and 131072, samples 2^-18 apart, values of 2^-18",
      F.size(), thorough ? 3 : 2, thorough ? 6 : 5, thorough ? 5 : 4, SC.size());
  }
  void run(long b, mc::Run& r) override {
    if (b < nsig) { P::run(b, r); return; }
    b -= nsig;
    if (b >= (long)F.size() * 8) { scaled(b - (long)F.size() * 8, r); return; }
    FP f = F[b / 8]; int g = b % 4; bool right = b / 4 % 2; Interp in = g == 3 ? PREVIOUS : LINEAR;
    Params none; double H = horizon(f, none);
    bool two = uses_y(f);
    int n = (two ? 4 : 5) + thorough;
    auto G = grids(0, H + 1, n, 3)[g % 3]; n = G.size();
    auto d = driver_for(strF(f));
    auto m = d.get_monitor("phi");
    m.set_interpol(g == 3 ? "PREVIOUS" : "LINEAR");
    const double V[] = {-2, g % 2 ? 0. : 1., 3}, VY[] = {-1, 2};
    product(n, two ? 6 : 3, [&](std::vector<int>& k) {
      std::vector<std::vector<double>> rows; for (int i = 0; i < n; i++) rows.push_back({G[i], V[k[i] % 3], two ? VY[k[i] / 3] : 0.5});
      if (!r.enter([&] { return std::string(right ? "RIGHT" : "LEFT") + "_TIME " + (g == 3 ? "PREVIOUS " : "") + "phi := " + strF(f) + "  trace " + rows_text(rows); })) return;
      Trace t{rows}; if (g % 2 && touches(f, t, in)) return; PW sp = robust(f, t, none, in);
      m.data = rows; r.states(rows.size());
      for (auto& w : W) {
        if (w.second + H > t.t1() + 1e-9) continue;
        m.set_semantics(right ? "RIGHT_TIME" : "LEFT_TIME");
        double got = w.first == w.second ? m.eval_rob(w.first) : m.eval_rob(w.first, w.second);
        PW z = trobust(f, t, in, right, w.first, w.second);
        double exp = z.val(w.first), s = sp.val(w.first);
        r.transitions(1); r.outcome(exp);
        if (!close(got, exp)) { r.fail(mc::fmt("over [%g,%g]: got %.9g, expected %.9g", w.first, w.second, got, exp)); break; }
        if ((s > 1e-9 && got < -1e-9) || (s < -1e-9 && got > 1e-9)) { r.fail(mc::fmt("over [%g,%g]: got %.9g but the space robustness is %.9g", w.first, w.second, got, s)); break; }
        if (!close(m.get_lower_rob(), exp) || !close(m.get_upper_rob(), exp)) { r.fail(mc::fmt("over [%g,%g]: bounds [%.9g,%.9g], expected %.9g", w.first, w.second, m.get_lower_rob(), m.get_upper_rob(), exp)); break; }
        if (edge(f, t, in, w.first, w.second)) continue;
        auto q = m.get_signal(); std::string e = diff(q, cut(z, w.first, w.second), false);
        if (!e.empty()) { r.fail(mc::fmt("signal over [%g,%g]: ", w.first, w.second) + e + "; " + sigtext(q)); break; }
        if (exp != 0) r.nontrivial();
      }
    });
  }
};
int main(int c, char** v) { Q p; return mc::explore_main(p, c, v); }
