// C10: every sequence of parameter changes (monitor, driver, re-declaration) and evaluations up to a depth;
// each answer must be the one of the formula with the current values written as literals, in one text
// without named sub-formulas.
#include "gen.hpp"
#include <unordered_map>
using namespace gen;
using STLRom::Signal; using STLRom::STLDriver; using STLRom::STLMonitor;

// parameters: p, q thresholds; a <= b interval bounds
static const double PV[3][4] = {{0.5, -1, 0, 1}, {2, 0.5, 0.5, 1.5}, {-1.25, 3, 1, 1}};   // value index k: p,q,a,b

struct P : mc::Property {
  // definitions as they are given to the driver, and phi as one text; parameters are the letters p q a b between #
  struct W { std::vector<std::string> defs; std::string phi; };
  std::vector<W> Wd = {
    {{"phi := x[t] > p"}, "x[t] > #p#"},
    {{"phi := p > x[t]"}, "#p# > x[t]"},
    {{"phi := (x[t] + p) < (y[t] * q)"}, "(x[t] + #p#) < (y[t] * #q#)"},
    {{"s := x[t] > p", "phi := ev_[a, b] s"}, "ev_[#a#, #b#] (x[t] > #p#)"},
    {{"s := y[t] < q", "phi := alw_[0, b] s"}, "alw_[0, #b#] (y[t] < #q#)"},
    {{"s := x[t] > p", "r := y[t] < q", "phi := s until_[a, b] r"}, "(x[t] > #p#) until_[#a#, #b#] (y[t] < #q#)"},
    {{"s := ev_[a, 2] (x[t] > q)", "phi := not s"}, "not (ev_[#a#, 2] (x[t] > #q#))"},
    {{"s := (x[t] > p) and (y[t] > q)", "r := s or s", "phi := alw_[a, b] (ev_[0, b] r)"}, "alw_[#a#, #b#] (ev_[0, #b#] (((x[t] > #p#) and (y[t] > #q#)) or ((x[t] > #p#) and (y[t] > #q#))))"},
    {{"s := (abs(x[t] - p)) < 2", "phi := s => (ev_[0, b] (y[t] > p))"}, "((abs(x[t] - #p#)) < 2) => (ev_[0, #b#] (y[t] > #p#))"},
    {{"s := (x[t] > 0) until_[0, b] (y[t] > p)", "phi := ev_[a, 1] s"}, "ev_[#a#, 1] ((x[t] > 0) until_[0, #b#] (y[t] > #p#))"},
    {{"s := alw_[a, b] (x[t] > p)", "r := s until_[a, b] (y[t] > 0)", "phi := r and s"}, "((alw_[#a#, #b#] (x[t] > #p#)) until_[#a#, #b#] (y[t] > 0)) and (alw_[#a#, #b#] (x[t] > #p#))"},
    {{"phi := ev_[a, b] (alw_[a, b] (x[t] > y[t] - q))"}, "ev_[#a#, #b#] (alw_[#a#, #b#] (x[t] > y[t] - #q#))"},
  };
  struct V { int k[4] = {0, 0, 0, 0}; bool operator==(const V& o) const { return !memcmp(k, o.k, sizeof k); } };
  static const int NOPS = 17;
  int depth() { return thorough ? 5 : 4; }
  long nseq() { return (long)Wd.size() * NOPS * (thorough ? NOPS : 1); }
  long blocks() override { return nseq() + 5 * 4 * 5; }
  // n parameters with names that begin alike, each changed on its own and all together
  static std::string pname(int i, int style) { return style == 0 ? "p" + std::to_string(i) : style == 1 ? std::string(i + 1, 'p') : style == 2 ? "k" + std::string(i % 3, '_') + std::to_string(i / 3) : (i % 2 ? "Q" : "q") + std::to_string(i / 2) + "_"; }
  void many(int b, mc::Run& r) {
    static const int N[] = {2, 5, 17, 40, 100}; int n = N[b / 20], style = b / 5 % 4, form = b % 5; bool close_by = form == 4; double far = 0; if (form == 3) far = 16777217.3; if (form > 2) form = 0;
    auto text = [&](std::function<std::string(int)> p) {
      std::string s;
      if (form == 0) { s = "((x[t] + " + p(0) + ") > 0)"; for (int i = 1; i < n; i++) s = "(" + s + (i % 2 ? " and " : " or ") + (i % 3 ? "((x[t] + " + p(i) + ") > 0))" : "(y[t] < " + p(i) + "))"); }
      else if (form == 1) { s = "x[t]"; for (int i = 0; i < n; i++) s = "(" + s + (i % 2 ? " + " : " - ") + p(i) + ")"; s = "(" + s + " > 0)"; }
      else { s = "(x[t] > 0)"; for (int i = 0; i + 1 < n; i += 2) s = std::string(i % 4 ? "ev" : "alw") + "_[" + p(i) + ", " + p(i + 1) + "] " + s; }
      return s;
    };
    std::vector<double> v(n); auto reset = [&] { for (int i = 0; i < n; i++) v[i] = form == 2 ? (i % 2 ? 0.125 + i / 64. : 0.0625) : form == 1 ? (i % 5) * 0.25 - 0.5 : far + 2.5 + (i * 7 % 13) * 0.25; };
    auto changed = [&](int i) { return close_by ? v[i] + std::ldexp(i % 2 ? 1. : -1., i % 3 == 0 ? -26 : i % 3 == 1 ? -18 : -14) : form == 2 ? (i % 2 ? v[i] + 0.5 : 0.03125) : -far - 1.5 - i * 0.0625; };
    std::string decl = "param "; reset(); for (int i = 0; i < n; i++) decl += (i ? ", " : "") + pname(i, style) + "=" + num(v[i]);
    std::string head = "signal x, y\n" + decl + "\nphi := " + text([&](int i) { return pname(i, style); });
    std::vector<std::vector<double>> D; for (int i = 0; i < 40; i++) D.push_back({i * 0.75, (i * 5 % 7) - 2.5, (i * 3 % 11) - 4.});
    for (int who = 0; who < 3; who++) for (int i = -1; i <= n; i++) {
      if (!r.enter([&] { return mc::fmt("%d parameters (names %d, formula %d), %s of %s", n, style, form, i < 0 ? "none changed" : i < n ? ("change " + pname(i, style)).c_str() : "all changed", who == 0 ? "a monitor" : who == 1 ? "the driver" : "a re-declaration"); })) continue;
      STLDriver d; if (!d.parse_string(head)) { r.fail("does not parse"); continue; }
      d.data = D; auto m = d.get_monitor("phi"); m.eval_rob(0.25); d.get_online_rob("phi", 0.25); reset(); r.states(n);
      for (int k = 0; k < n; k++) if (i == n || k == i) {
        v[k] = changed(k); r.transitions(1);
        if (who == 0) m.set_param(pname(k, style), v[k]); else if (who == 1) d.set_param(pname(k, style), v[k]); else if (!d.parse_string("param " + pname(k, style) + " = " + num(v[k]))) { r.fail("re-declaration does not parse"); return; }
      }
      for (int k = 0; k < n; k++) if ((who == 0 ? m.get_param(pname(k, style)) : d.get_param(pname(k, style))) != v[k]) { r.fail("get_param " + pname(k, style)); return; }
      STLDriver f; if (!f.parse_string("signal x, y\nphi := " + text([&](int k) { return num(v[k]); }))) { r.fail("literals do not parse"); return; }
      f.data = D; std::vector<double> g, e; auto fm = f.get_monitor("phi");
      for (int win = 0; win < 2; win++) { ask(e, fm, win); if (who == 0) ask(g, m, win); else { auto q = d.get_monitor("phi"); ask(g, q, win); } }
      r.nontrivial(); r.outcome(e[0]);
      bool eq = g.size() == e.size(); for (size_t k = 0; eq && k < g.size(); k++) eq = close(g[k], e[k], 1e-9);
      if (!eq) r.fail(mc::fmt("%.9g in [%.9g,%.9g], with literals %.9g in [%.9g,%.9g]", g[0], g[1], g[2], e[0], e[1], e[2]));
      if (who) { auto a = d.get_online_rob("phi", 0.25), c = f.get_online_rob("phi", 0.25); for (int k = 0; k < 3; k++) if (!close(a[k], c[k], 1e-9)) { r.fail("get_online_rob differs"); break; } }
    }
  }
  std::string bounds() override {
    return mc::fmt("%zu formulas with parameters in thresholds, expressions and interval bounds, given as named sub-formulas, in one input or several; every sequence of %d operations out of %d (set_param on two monitors and the driver, re-declaration, taking a monitor, unknown names, evaluation at 2 windows), then every object queried; formulas with 2 to 100 parameters (names that begin alike; values near 1 or 16777217.3), each changed (also by 2^-14 to 2^-26 only) on its own and all together, in three ways",
      Wd.size(), depth(), NOPS);
  }
  static double val(int p, const V& v) { return PV[v.k[p]][p]; }
  std::string literal(int w, const V& v) {
    std::string s; const std::string& t = Wd[w].phi;
    for (size_t i = 0; i < t.size(); i++) if (t[i] == '#') { s += num(val(std::string("pqab").find(t[i + 1]), v)); i += 2; } else s += t[i];
    return s;
  }
  static std::vector<std::vector<double>> data() {
    return {{0, 1, -1}, {0.75, -2, 0.5}, {1.25, 3, 2}, {2.5, 0.25, -1}, {3, -1, 4}, {4.5, 2, 1}, {5.25, 2, -3}};
  }
  static void ask(std::vector<double>& v, STLMonitor& m, int win) {
    v.push_back(win ? m.eval_rob(0.25, 1) : m.eval_rob(0.5)); v.push_back(m.get_lower_rob()); v.push_back(m.get_upper_rob());
    auto s = m.get_signal(); for (auto& x : s) { v.push_back(x.time); v.push_back(x.value); }
  }
  std::unordered_map<long, std::vector<double>> memo;
  const std::vector<double>& fresh(int w, const V& v, int win, int drv, int len) {
    long k = w; for (int x : v.k) k = k * 3 + x; k = ((k * 2 + win) * 2 + drv) * 16 + len;
    auto it = memo.find(k); if (it != memo.end()) return it->second;
    STLDriver d; d.parse_string("signal x, y\nphi := " + literal(w, v));
    auto D = data(); D.resize(len); d.data = D;
    std::vector<double> a;
    if (drv) a = d.get_online_rob("phi", win ? 0.25 : 0.5); else { auto m = d.get_monitor("phi"); ask(a, m, win); }
    return memo[k] = a;
  }
  static const char* opname(int o) {
    static const char* N[] = {"A.p", "A.q", "A.a,b", "A.b,a", "D.p", "D.q", "D.a,b", "D.param p,a", "D.param q,b (new formula)", "B=D.monitor", "B.p,q", "A.set unknown", "D.set unknown", "A.eval(.5)", "A.eval(.25,1)", "D.online(.5)", "A.set same"};
    return N[o];
  }
  void run(long b, mc::Run& r) override {
    memo.clear();
    if (b >= nseq()) { many(b - nseq(), r); return; }
    int w, o0, o1 = -1;
    if (thorough) { w = b / (NOPS * NOPS); o0 = b / NOPS % NOPS; o1 = b % NOPS; } else { w = b / NOPS; o0 = b % NOPS; }
    for (int split = 0; split < 2; split++) for (int len : {7, 3}) product(depth() - (thorough ? 2 : 1), NOPS, [&](std::vector<int>& rest) {
      std::vector<int> ops{o0}; if (o1 >= 0) ops.push_back(o1); ops.insert(ops.end(), rest.begin(), rest.end());
      if (!r.enter([&] { std::string s; for (auto& x : Wd[w].defs) s += x + "; "; s += split ? "(one by one) " : ""; s += mc::fmt("%d samples: ", len); for (int o : ops) s += std::string(opname(o)) + "; "; return s; })) return;
      STLDriver d; bool ok = true;
      if (split) { ok = d.parse_string("signal x, y") && d.parse_string("param p = 0.5, q = -1, a = 0, b = 1"); for (auto& x : Wd[w].defs) ok = ok && d.parse_string(x); }
      else { std::string t = "signal x, y\nparam p = 0.5, q = -1, a = 0, b = 1\n"; for (auto& x : Wd[w].defs) t += x + "\n"; ok = d.parse_string(t); }
      if (!ok) { r.fail("does not parse"); return; }
      auto D0 = data(); D0.resize(len); for (auto& x : D0) d.add_sample(x);
      V A, B, D; STLMonitor ma = d.get_monitor("phi"), mb = d.get_monitor("phi");
      auto cmp = [&](const std::vector<double>& g, const std::vector<double>& e, const char* who) {
        bool eq = g.size() == e.size(); for (size_t i = 0; eq && i < g.size(); i++) eq = close(g[i], e[i], 1e-9);
        r.outcome(e[0]); r.nontrivial();
        if (!eq) r.fail(mc::fmt("%s: %.9g in [%.9g,%.9g], with literals %.9g in [%.9g,%.9g]", who, g.size() ? g[0] : 0, g.size() > 1 ? g[1] : 0, g.size() > 2 ? g[2] : 0, e[0], e[1], e[2]));
        return eq;
      };
      auto em = [&](STLMonitor& m, const V& v, int win, const char* who) {
        for (int k = 0; k < 4; k++) if (m.get_param(std::string(1, "pqab"[k])) != val(k, v)) { r.fail(std::string(who) + " get_param"); return false; }
        std::vector<double> g; ask(g, m, win); return cmp(g, fresh(w, v, win, 0, len), who);
      };
      auto ed = [&](int win) {
        for (int k = 0; k < 4; k++) if (d.get_param(std::string(1, "pqab"[k])) != val(k, D)) { r.fail("driver get_param"); return false; }
        return cmp(d.get_online_rob("phi", win ? 0.25 : 0.5), fresh(w, D, win, 1, len), "driver");
      };
      auto nx = [](V& v, int k) { v.k[k] = (v.k[k] + 1) % 3; };
      int extra = 0;
      auto step = [&](int o) -> bool {
        r.transitions(1);
        switch (o) {
          case 0: nx(A, 0); ma.set_param("p", val(0, A)); break;
          case 1: nx(A, 1); ma.set_param("q", val(1, A)); break;
          case 2: nx(A, 2); A.k[3] = A.k[2]; ma.set_param("a", val(2, A)); ma.set_param("b", val(3, A)); break;
          case 3: nx(A, 3); A.k[2] = A.k[3]; ma.set_param("b", val(3, A)); ma.set_param("a", val(2, A)); break;
          case 4: nx(D, 0); d.set_param("p", val(0, D)); break;
          case 5: nx(D, 1); d.set_param("q", val(1, D)); break;
          case 6: nx(D, 2); D.k[3] = D.k[2]; d.set_param("b", val(3, D)); d.set_param("a", val(2, D)); break;
          case 7: { nx(D, 0); nx(D, 2); D.k[3] = D.k[2];
            if (!d.parse_string("param p = " + num(val(0, D)) + ", a = " + num(val(2, D)) + ", b = " + num(val(3, D)))) { r.fail("re-declaration does not parse"); return false; } break; }
          case 8: { nx(D, 1); nx(D, 3); D.k[2] = D.k[3];
            if (!d.parse_string("param q=" + num(val(1, D)) + ",a=" + num(val(2, D)) + ",b=" + num(val(3, D)) + mc::fmt("\nn%d := phi and (x[t] > q)", extra++))) { r.fail("re-declaration does not parse"); return false; } break; }
          case 9: mb = d.get_monitor("phi"); B = D; break;
          case 10: nx(B, 0); nx(B, 1); mb.set_param("p", val(0, B)); mb.set_param("q", val(1, B)); break;
          case 11: { bool thrown = false; try { ma.set_param("nope", 1); } catch (const std::exception&) { thrown = true; }
            try { ma.get_param("nope"); thrown = false; } catch (const std::exception&) {}
            if (!thrown) { r.fail("unknown parameter accepted by a monitor"); return false; } break; }
          case 12: d.set_param("nope", 1); if (d.param_map.count("nope") || d.param_map.size() != 4) { r.fail("unknown parameter stored by the driver"); return false; } break;
          case 13: return em(ma, A, 0, "A");
          case 14: return em(ma, A, 1, "A");
          case 15: return ed(0);
          case 16: ma.set_param("p", val(0, A)); ma.set_param("a", val(2, A)); break;
        }
        return true;
      };
      r.states(ops.size() + 1);
      for (int o : ops) if (!step(o)) return;
      em(ma, A, 0, "A") && em(mb, B, 1, "B") && ed(1) && em(ma, A, 1, "A");
      STLMonitor mc_ = d.get_monitor("phi"); em(mc_, D, 0, "new monitor");
    });
  }
};
int main(int c, char** v) { P p; return mc::explore_main(p, c, v); }
