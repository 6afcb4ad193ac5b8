// C16: predicates over every expression tree up to the depth bound, on every trace over the sample alphabet.
#include "gen.hpp"
using namespace gen;

struct P : mc::Property {
  std::vector<EP> L, E1, E2, E;
  std::vector<FP> F;
  std::vector<std::string> T;             // text of the predicate
  static bool linear(const EP& e) { return e->op == E_MUL ? (linear(e->a) && linear(e->b) && (isconst(e->a) || isconst(e->b))) : e->op == E_ABS ? isconst(e->a) : (!e->a || linear(e->a)) && (!e->b || linear(e->b)); }
  static bool isconst(const EP& e) { return e->op != E_SIG && (!e->a || isconst(e->a)) && (!e->b || isconst(e->b)); }
  static EP abs_(EP a) { auto e = std::make_shared<Expr>(); e->op = E_ABS; e->a = a; return e; }
  // sums and differences without parentheses associate to the left
  static std::string flat(const EP& e) {
    if (e->op == E_ADD || e->op == E_SUB) return flat(e->a) + (e->op == E_ADD ? " + " : " - ") + strE(e->b);
    return strE(e);
  }
  void add(EP a, FOp o, EP b, bool fl = false) {
    F.push_back(atom(o, a, b));
    T.push_back(fl ? flat(a) + (o == F_GT ? " > " : " < ") + flat(b) : strF(F.back()));
  }
  void init() override {
    L = {sig(1), sig(2), cst(2), cst(-0.5), par("p")};
    const EOp O[] = {E_ADD, E_SUB, E_MUL};
    for (auto& a : L) { E1.push_back(abs_(a)); for (auto& b : L) for (EOp o : O) E1.push_back(ebin(o, a, b)); }
    for (auto& a : E1) { E2.push_back(abs_(a)); for (auto& b : L) for (EOp o : O) { E2.push_back(ebin(o, a, b)); E2.push_back(ebin(o, b, a)); } }
    if (thorough) for (auto& a : E1) for (auto& b : E1) for (EOp o : O) E2.push_back(ebin(o, a, b));
    E = L; E.insert(E.end(), E1.begin(), E1.end()); E.insert(E.end(), E2.begin(), E2.end());
    size_t k = 0;
    for (auto& e : E) {
      add(e, F_GT, cst(1)); add(cst(-1), F_LT, e); k++;
      if (k % 3 == 0 || thorough) { add(e, F_LT, sig(2)); add(par("p"), F_GT, e); }
    }
    for (auto& a : E1) for (auto& b : E1) if (thorough || (k++ % 4) == 0) { add(a, F_GT, b); add(a, F_LT, b); }
    for (auto& a : L) for (auto& b : L) for (auto& c : L) for (int o = 0; o < 4; o++) {
      EP e = ebin(o & 1 ? E_SUB : E_ADD, ebin(o & 2 ? E_SUB : E_ADD, a, b), c);
      add(e, F_GT, cst(1), true); if (thorough) add(cst(1), F_LT, e, true);
    }
  }
  // large expressions: n terms over m signals
  struct Big { int kind, n, m, how; };
  std::vector<Big> BG;
  long blocks() override {
    BG.clear();
    for (int kind = 0; kind < 6; kind++) for (int n : {3, 8, 17, 33, 64}) for (int m : {1, 2, 9, 20}) for (int how : {0, 2, 3, 4, 5, 7}) {
      if (how == 0 && n * m > 200 && !thorough) continue;
      BG.push_back({kind, n, m, how});
    }
    for (int kind = 0; kind < 6; kind++) for (int n : {5, 60}) BG.push_back({kind, n, 300, 3});
    if (thorough) for (int kind = 0; kind < 6; kind++) for (int n : {150, 400}) for (int how : {2, 3}) BG.push_back({kind, n, 40, how});
    lits();
    return F.size() + BG.size() + LT.size();
  }
  // numbers: every combination of a sign, digits before and digits after the point
  std::vector<std::string> LT;
  void lits() {
    LT.clear();
    for (const char* sg : {"", "-", "+"}) for (const char* i : {"", "0", "7", "12", "00120", "1234567", "16777217", "2147483649", "4294967297", "9007199254740991", "123456789012345678901"})
      for (const char* f : {"", ".", ".5", ".25", ".1", ".000001234", ".123456789012345", ".00000000000000000012"}) {
        if (!*i && (!*f || !f[1])) continue;
        LT.push_back(std::string(sg) + i + f);
      }
  }
  void literal(const std::string& l, mc::Run& r) {
    double L = strtod(l.c_str(), nullptr);
    auto val = [&](const std::string& f, const std::vector<std::vector<double>>& rows, double e, double scale, double t = 0) {
      std::string spec = "signal x\nparam r = " + l + "\nphi := " + f;
      if (!r.enter([&] { return spec + " trace " + rows_text(rows); })) return;
      STLRom::STLDriver d; if (!d.parse_string(spec)) { r.fail("does not parse"); return; }
      if (d.get_param("r") != L) { r.fail(mc::fmt("the parameter is %.17g, not %.17g", d.get_param("r"), L)); return; }
      d.data = rows; auto m = d.get_monitor("phi"); double g = m.eval_rob(t); r.transitions(1); r.states(rows.size()); r.nontrivial(); r.outcome(e);
      if (!(std::fabs(g - e) <= 1e-13 * std::max(scale, std::fabs(e)) + 1e-300)) r.fail(mc::fmt("got %.17g, expected %.17g", g, e));
    };
    double A = std::fabs(L);
    for (const std::string& n : {l, std::string("r")}) for (double k : {0., 1., -0.5}) {
      double x = L + k * std::max(1., A * 0.25);
      std::vector<std::vector<double>> rows{{0, x}, {1, x + 1}};
      val("x[t] > " + n, rows, x - L, A * 1e-3); val("x[t] < " + n, rows, L - x, A * 1e-3); val(n + " < x[t]", rows, x - L, A * 1e-3);
      val("(x[t] - " + n + ") > 0", rows, x - L, A * 1e-3); val("(" + n + " * x[t]) > 0", {{0, k}, {1, 2}}, k * L, A * 1e-3);
      if (A >= 0.125 && L > 0 && A < 1e15) {      // as interval bounds: x rises at slope 1 around time L
        std::vector<std::vector<double>> ramp{{0, 0}, {L / 2, -L / 2}, {2 * L, L}, {3 * L, -L}};
        val("ev_[" + n + ", " + n + "] (x[t] > 0)", ramp, 0, A * 10); val("ev_[0, " + n + "] (x[t] > 0)", {{0, -L}, {2 * L, L}, {3 * L, L}}, 0, A * 10);
        val("alw_[" + n + ", 100000000000000000] (x[t] > 0)", {{0, -L}, {2 * L, L}, {3 * L, L}}, 0, A * 10); val("(x[t] < 1000000000000000000) until_[0, " + n + "] (x[t] > 0)", {{0, -L}, {2 * L, L}, {3 * L, L}}, 0, A * 10);
      }
    }
  }
  static EP chain(const Big& b) {
    auto term = [&](int i) { return b.how == 7 ? sig(i * 7 % b.m + 1) : i % 7 == 5 ? cst(0.5 * (i % 4) + 0.25) : i % 11 == 9 ? par("p") : sig(i * 7 % b.m + 1); };
    auto op = [](int i) { return i * i % 3 ? E_SUB : E_ADD; };
    EP e = term(0);
    if (b.kind < 2) for (int i = 1; i < b.n; i++) e = ebin(op(i), e, term(i));
    else if (b.kind == 2) { e = term(b.n - 1); for (int i = b.n - 2; i >= 0; i--) e = ebin(op(i), term(i), e); }
    else if (b.kind == 3) { std::function<EP(int, int)> t = [&](int l, int h) { return h - l == 1 ? term(l) : ebin(op(l + h), t(l, (l + h) / 2), t((l + h) / 2, h)); }; e = t(0, b.n); }
    else if (b.kind == 4) for (int i = 1; i < b.n; i++) e = abs_(ebin(op(i), e, term(i)));
    else for (int i = 1; i < b.n; i++) e = i % 3 == 1 ? ebin(E_MUL, e, cst(i % 2 ? 2 : -0.5)) : i % 3 == 2 ? ebin(E_MUL, cst(i % 2 ? 0.5 : -2), e) : ebin(op(i), e, term(i));
    return e;
  }
  void big(const Big& b, mc::Run& r) {
    EP e = chain(b); bool lin = b.kind != 4;
    double T0; auto G = scale_grid(b.how, 2, T0); int n = G.size(); auto W = scale_words(b.how, n);
    std::string decl = "signal "; for (int i = 1; i <= b.m; i++) { std::string s = strE(sig(i)); decl += (i > 1 ? ", " : "") + s.substr(0, s.size() - 3); }
    Params Pm{{"p", 1.5}};
    for (int lt = 0; lt < 2; lt++) for (int in = 0; in < 2; in++) {
      FP f = b.how == 7 ? lt ? atom(F_LT, e, sig(1)) : atom(F_GT, e, cst(0)) : lt ? atom(F_LT, e, cst(1)) : atom(F_GT, cst(1), e); double unit = b.how == 7 ? SMALL : 1;
      auto close = [&](double x, double y) { return gen::close(x / unit, y / unit); };
      std::string text = b.kind == 0 ? b.how == 7 ? lt ? flat(e) + " < " + strE(sig(1)) : flat(e) + " > 0" : lt ? flat(e) + " < 1" : "1 > " + flat(e) : strF(f);
      STLRom::STLDriver d;
      bool ok = d.parse_string(decl + "\nparam p=1.5\nphi := " + text);
      auto m = d.get_monitor("phi"); m.set_interpol(in ? "PREVIOUS" : "LINEAR");
      for (int w = 0; w < 8; w++) {
        std::vector<std::vector<double>> rows; for (int i = 0; i < n; i++) { rows.push_back({G[i]}); for (int s = 0; s < b.m; s++) rows.back().push_back(W[(w * 5 + s * 3) % W.size()][i] + s * 0.25 * unit); }
        if (!r.enter([&] { return decl + "; " + text + (in ? " PREVIOUS trace " : " trace ") + rows_text(rows); })) continue;
        if (!ok) { r.fail("does not parse"); continue; }
        m.data = rows; r.states(n); r.nontrivial();
        PW z = robust(f, Trace{rows}, Pm, in ? PREVIOUS : LINEAR);
        for (int i : {0, 1, 2, n / 2, n / 2 + 1, n - 2}) for (int mid = 0; mid < 2; mid++) {
          if (mid && !lin && !in) continue;
          double t = G[i] + (mid ? (G[i + 1] - G[i]) / 2 : 0); if (t < T0) continue;
          double got = m.eval_rob(t), x = z.val(t); r.transitions(1); r.outcome(x);
          if (!close(got, x) || !close(m.get_lower_rob(), x) || !close(m.get_upper_rob(), x)) { r.fail(mc::fmt("at %.9g: got %.9g in [%.9g,%.9g], expected %.9g", t, got, m.get_lower_rob(), m.get_upper_rob(), x)); break; }
        }
        m.eval_rob(T0, G[n - 1]); auto q = m.get_signal(); r.transitions(1);
        for (int i = 0; i < n; i++) if (G[i] >= T0 && (q.empty() || !close(value_at(q, G[i]), z.val(G[i])))) { r.fail(mc::fmt("over the whole trace, at %.9g: expected %.9g; ", G[i], z.val(G[i])) + sigtext(q)); break; }
      }
    }
  }
  std::string bounds() override {
    return mc::fmt("%zu predicates over every expression of +, -, *, abs up to depth 2%s on {x, y, 2, -0.5, parameter}, both comparisons, also unparenthesised sums; every trace of 3 samples over x {-2,1,3} y {-1,2} on 2 grids; "
      "both interpolations; evaluated at every sample time, (linear expressions and PREVIOUS) between samples, and over windows; %zu large expressions (sums without parentheses, nested to either side or evenly, nested abs, products: 3 to %d operands over 1 to %d signals) "
      "on 8 traces each: 300 samples, values from -30000 to 45000, times about 4194304, -4194304, 131072, values of 2^-18; %zu numbers (sign, up to 21 digits before the point, up to 20 after it) as a literal and as a parameter's value, in predicates, products and interval bounds", F.size(), thorough ? " (3 for pairs)" : "", BG.size(), thorough ? 400 : 64, 300, LT.size());
  }
  void run(long b, mc::Run& r) override {
    if (b >= (long)(F.size() + BG.size())) { literal(LT[b - F.size() - BG.size()], r); return; }
    if (b >= (long)F.size()) { big(BG[b - F.size()], r); return; }
    FP f = F[b]; std::string text = T[b];
    STLRom::STLDriver d;
    if (!d.parse_string("signal x, y\nparam p=1.5\nphi := " + text)) { r.enter([&] { return text; }); r.fail("does not parse"); return; }
    auto m = d.get_monitor("phi");
    Params Pm{{"p", 1.5}};
    bool lin = linear(f->e1) && linear(f->e2);
    for (int g = 0; g < 2; g++) for (int in = 0; in < 2; in++) {
      std::vector<double> G = g ? std::vector<double>{-0.5, 0.25, 2} : std::vector<double>{0, 1, 2};
      m.set_interpol(in ? "PREVIOUS" : "LINEAR");
      const double V[] = {-2, 1, 3}, VY[] = {-1, 2};
      product(3, 6, [&](std::vector<int>& k) {
        std::vector<std::vector<double>> rows; for (int i = 0; i < 3; i++) rows.push_back({G[i], V[k[i] % 3], VY[k[i] / 3]});
        if (!r.enter([&] { return text + (in ? " PREVIOUS trace " : " trace ") + rows_text(rows); })) return;
        m.data = rows; r.states(3);
        PW z = robust(f, Trace{rows}, Pm, in ? PREVIOUS : LINEAR);
        auto inside = [&](double t) { return lin || in || t == G[0] || t == G[1] || t == G[2]; };
        for (double t : {0., 0.25, 0.5, 1., 1.5, 2.}) {
          if (!inside(t)) continue;
          double got = m.eval_rob(t), e = z.val(t);
          r.transitions(1); r.outcome(e);
          if (!close(got, e)) { r.fail(mc::fmt("at %g: got %.9g, expected %.9g", t, got, e)); return; }
          if (!close(m.get_lower_rob(), e) || !close(m.get_upper_rob(), e)) { r.fail(mc::fmt("at %g: bounds [%.9g,%.9g], expected %.9g", t, m.get_lower_rob(), m.get_upper_rob(), e)); return; }
        }
        for (Iv w : std::vector<Iv>{{0, 2}, {0.25, 1.5}}) {
          m.eval_rob(w.first, w.second); auto q = m.get_signal(); r.transitions(1);
          if (q.empty() || q.front().time > w.first + 1e-9 || q.endTime < w.second - 1e-9) { r.fail("signal does not cover the window: " + sigtext(q)); return; }
          for (double t = w.first; t <= w.second; t += 0.125) if (inside(t)) {
            double v = value_at(q, t);
            if (!close(v, z.val(t))) { r.fail(mc::fmt("over [%g,%g] at %g: got %.9g, expected %.9g; ", w.first, w.second, t, v, z.val(t)) + sigtext(q)); return; }
          }
        }
        if (z.v[0] != z.v[1] || z.v[1] != z.v[2]) r.nontrivial();
      });
    }
  }
};
int main(int c, char** v) { P p; return mc::explore_main(p, c, v); }
