// C23: every formula tree up to the depth bound is displayed in every way there is; each displayed text, parsed
// back with the same declarations, must be accepted and answer as the displayed object does on every trace.
#include "gen.hpp"
#include <regex>
#include <set>
using namespace gen;
using STLRom::STLDriver; using STLRom::STLMonitor;

struct P : mc::Property {
  struct Case { std::string t; bool rich; };
  std::vector<Case> F;
  std::set<std::string> seen;
  const char* decl = "signal x, y\nparam p = 0.5, q2 = 1.5\n";
  static EP abs_(EP a) { auto e = std::make_shared<Expr>(); e->op = E_ABS; e->a = a; return e; }
  void add(const FP& f, bool rich) { text(strF(f), rich); }
  void text(const std::string& t, bool rich) { if (seen.insert(t).second) F.push_back({t, rich}); }
  static FP named(FOp o, FP l, FP r, std::string a, std::string b, double av, double bv) { FP f = temp(o, av, bv, l, r); f->an = a; f->bn = b; return f; }
  std::vector<FP> level(const std::vector<FP>& S, const std::vector<FP>& O, const std::vector<FP>& Os) {
    std::vector<FP> v; apply_unary(S, v);
    for (auto& a : S) for (auto& b : O) { binary(a, b, v); }
    for (auto& a : Os) for (auto& b : S) { binary(a, b, v); }
    return v;
  }
  void apply_unary(const std::vector<FP>& S, std::vector<FP>& v) {
    for (auto& a : S) { v.push_back(un(F_NOT, a));
      for (FOp o : {F_EV, F_ALW}) { v.push_back(temp(o, 0, 1, a)); v.push_back(named(o, a, 0, "p", "q2", 0.5, 1.5)); if (S.size() < 50) { v.push_back(temp(o, 0.5, 0.75, a)); v.push_back(named(o, a, 0, "", "p", 0.25, 0.5)); v.push_back(named(o, a, 0, "p", "", 0.5, 2)); } } }
  }
  void binary(const FP& a, const FP& b, std::vector<FP>& v) {
    for (FOp o : {F_AND, F_OR, F_IMP}) v.push_back(bin(o, a, b));
    v.push_back(temp(F_UNTIL, 0, 1, a, b)); v.push_back(named(F_UNTIL, a, b, "p", "q2", 0.5, 1.5));
  }
  void init() override {
    std::vector<EP> L = {sig(1), sig(2), cst(2), cst(-0.5), par("p")}, E1, E2;
    const EOp O[] = {E_ADD, E_SUB, E_MUL};
    for (auto& a : L) { E1.push_back(abs_(a)); for (auto& b : L) for (EOp o : O) E1.push_back(ebin(o, a, b)); }
    for (auto& a : E1) { E2.push_back(abs_(a)); for (auto& b : L) for (EOp o : O) { E2.push_back(ebin(o, a, b)); E2.push_back(ebin(o, b, a)); } }
    if (thorough) { for (auto& a : E1) for (auto& b : E1) for (EOp o : O) E2.push_back(ebin(o, a, b)); }
    else for (size_t i = 0; i < E1.size(); i++) for (size_t j = i % 5; j < E1.size(); j += 5) E2.push_back(ebin(O[(i + j / 5) % 3], E1[i], E1[j]));
    int k = 0;
    for (auto* S : {&L, &E1, &E2}) for (auto& e : *S) {
      if (thorough || k % 2 == 0) add(atom(F_GT, e, cst(1)), true);
      if (thorough || k % 2) add(atom(F_LT, sig(2), e), true);
      k++;
    }
    for (const char* c : {"0.125", "-2.5", "100000", "123456", "-123.456", "0.0001", "-.001", "1.", "+2", "00.50", "0", "-0", "7.0"}) {
      text(std::string("x[t] > ") + c, true); text(std::string("(y[t] - ") + c + ") < x[t]", true); text(std::string(c) + " < (y[t] * " + c + ")", true);
      if (c[0] != '-') { text(std::string("ev_[0, ") + c + "] (x[t] > 0)", true); text(std::string("(x[t] > y[t]) until_[") + c + ", 100001] (y[t] > 0)", true); }
    }
    std::vector<FP> A = {xg(0), yl(1), atom(F_LT, par("p"), sig(1)), atom(F_LT, ebin(E_SUB, sig(1), par("p")), sig(2))};
    std::vector<FP> B = {A[0], A[1]};
    auto L1 = level(A, A, {}); for (auto& f : L1) add(f, true);
    auto M1 = level(B, B, {});                       // smaller operands for deeper trees
    auto L2 = level(L1, A, A); for (auto& f : L2) add(f, false);
    std::vector<FP> v;
    for (size_t i = 0; i < M1.size(); i++) for (size_t j = 0; j < M1.size(); j++) { std::vector<FP> w; binary(M1[i], M1[j], w); if (thorough) v.insert(v.end(), w.begin(), w.end()); else v.push_back(w[(i + j) % w.size()]); }
    if (thorough) { auto M2 = level(M1, B, B); apply_unary(M2, v); for (auto& f : M2) { binary(f, B[0], v); binary(B[1], f, v); } }
    else { auto M2 = level(M1, {B[1]}, {B[0]}); size_t q = 0; for (auto& f : M2) { std::vector<FP> w; apply_unary({f}, w); binary(f, B[0], w); binary(B[1], f, w); v.push_back(w[q++ % w.size()]); } }
    for (auto& f : v) add(f, false);
    // formulas that are written with fewer parentheses, or with names of other formulas
    for (const char* t : {"not x[t] > 0 and y[t] < 1", "x[t] > 0 and y[t] < 1 or x[t] < y[t]", "x[t] > 0 or y[t] < 1 and x[t] < y[t]", "x[t] > 0 => y[t] < 1 => x[t] < y[t]", "not x[t] > 0 => y[t] < 1", "ev_[0,1] x[t] > 0 and y[t] < 1",
      "alw_[0,1] x[t] > 0 until_[0,1] y[t] < 1", "x[t] > 0 until_[0,1] y[t] < 1 until_[p,q2] x[t] > 1", "x[t] - y[t] - 1 > p - 1 - 2", "x[t] + y[t] * 2 > 1", "2 * x[t] + y[t] > 1", "x[t] - 1 * y[t] - p > 1", "abs(x[t] - 2) * 2 > 1", "not not not x[t] > 0", "F[0,1] G_[p 1.5] ! x[t] >= 0 -> y[t] <= 1"}) text(t, true);
  }
  // signals in an order of declaration: every listing shows the columns they have
  struct Names { std::vector<std::string> n; int how; };        // how: 0 in one list, 1 one at a time, 2 in two lists, 3 with repeats
  std::vector<Names> N;
  void names() {
    std::vector<std::string> all = {"b", "a", "B", "ab", "a_1"};
    std::function<void(std::vector<std::string>&)> rec = [&](std::vector<std::string>& v) {
      if (!v.empty()) for (int how = 0; how < 4; how++) N.push_back({v, how});
      if (v.size() < (thorough ? 5 : 4)) for (auto& a : all) if (std::find(v.begin(), v.end(), a) == v.end()) { v.push_back(a); rec(v); v.pop_back(); }
    };
    std::vector<std::string> v; rec(v);
    for (int how = 0; how < 4; how++) for (int c : {12, 140}) { Names x; x.how = how; for (int i = 0; i < c; i++) x.n.push_back(mc::fmt("s%d", (i * 11) % c)); N.push_back(x); std::reverse(x.n.begin(), x.n.end()); N.push_back(x); }
  }
  void one(const Names& c, mc::Run& r) {
    std::vector<std::string> text; size_t n = c.n.size(); std::string all;          // one text per declaration
    if (c.how == 1) for (auto& a : c.n) text.push_back("signal " + a);
    else for (size_t i = 0; i < n; i++) { if (i == 0 || (c.how == 2 && i == n / 2)) text.push_back("signal " + c.n[i]); else text.back() += ", " + c.n[i]; }
    if (c.how == 3) { text.push_back("signal " + c.n[n - 1]); text.push_back("signal " + c.n[0] + (n > 1 ? ", " + c.n[n / 2] : "")); }
    for (auto& t : text) t += "\n";
    for (size_t i = 0; i < n; i++) text.back() += "phi" + std::to_string(i) + " := " + c.n[i] + "[t] > 0\n";
    for (auto& t : text) all += t + "then: ";
    if (!r.enter([&] { return all; })) return;
    STLDriver d; for (auto& t : text) if (!d.parse_string(t)) { r.fail("does not parse"); return; }
    std::vector<std::vector<double>> rows; for (int k = 0; k < 3; k++) { rows.push_back({k * 0.5}); for (size_t i = 0; i < n; i++) rows.back().push_back(10. * (i + 1) + k + 0.25); }
    d.data = rows;
    auto words = [](const std::string& s) { std::istringstream o(s); std::vector<std::string> v; for (std::string w; o >> w;) v.push_back(w); return v; };
    auto check = [&](STLDriver& d, const std::string& who) -> bool {
      if (words(d.get_signals_names()) != c.n) { r.fail(who + ": get_signals_names gives " + d.get_signals_names()); return false; }
      std::ostringstream o; d.print_trace(o); if (cout_of([&] { d.print_trace(); }) != o.str()) { r.fail(who + ": print_trace and print_trace(stream) differ"); return false; }
      std::istringstream in(o.str()); size_t k = 0;
      for (std::string l; std::getline(in, l); k++) { auto w = words(l); bool ok = k < d.data.size() && w.size() == d.data[k].size(); for (size_t i = 0; ok && i < w.size(); i++) ok = atof(w[i].c_str()) == d.data[k][i]; if (!ok) { r.fail(who + ": print_trace shows the row '" + l + "'"); return false; } }
      if (k != d.data.size()) { r.fail(who + mc::fmt(": print_trace shows %zu rows", k)); return false; }
      for (size_t i = 0; i < n; i++) {
        auto v = d.get_online_rob("phi" + std::to_string(i), 0.5); double want = 10. * (i + 1) + 1.25;
        if (v.size() != 3 || v[0] != want) { r.fail(who + mc::fmt(": the robustness of the predicate on ") + c.n[i] + mc::fmt(" is not %g", want)); return false; }
        STLMonitor m = d.get_monitor("phi" + std::to_string(i)); m.data = rows; r.transitions(1); r.outcome(want);
        for (STLMonitor k : {m, STLMonitor(m)}) {
          if (words(k.get_signal_names()) != c.n) { r.fail(who + ", monitor: get_signal_names gives " + k.get_signal_names()); return false; }
          std::map<std::string, std::string> got, exp; for (size_t j = 0; j < n; j++) exp[c.n[j]] = std::to_string(j + 1);
          std::istringstream in(cout_of([&] { k.display_signal_names(); })); for (std::string l; std::getline(in, l);) { size_t q = l.find(':'); got[trim(l.substr(0, q))] = q == std::string::npos ? "" : trim(l.substr(q + 1)); }
          if (got != exp) { r.fail(who + ", monitor: display_signal_names shows something else than the columns"); return false; }
          std::ostringstream o; o << k; std::string s = after(o.str(), "Signal Names:"); for (auto& ch : s) if (ch == ',') ch = ' ';
          auto w = words(s); std::vector<std::string> e = c.n; std::sort(w.begin(), w.end()); std::sort(e.begin(), e.end()); if (w != e) { r.fail(who + ", monitor: the stream operator lists the signals as " + s); return false; }
          if (k.eval_rob(0.5) != want) { r.fail(who + ", monitor: the robustness of the predicate on " + c.n[i] + mc::fmt(" is not %g", want)); return false; }
        }
      }
      return true;
    };
    r.states(n); if (n > 1) r.nontrivial();
    if (!check(d, "driver")) return;
    STLDriver e(d); if (!check(e, "copied driver")) return;
    STLDriver f; f.parse_string("signal a, zz\n"); f = d; check(f, "assigned driver");
  }
  long nf = 0;
  long blocks() override { N.clear(); names(); nf = (F.size() + 7) / 8; return nf + (N.size() + 31) / 32; }
  std::string bounds() override {
    return mc::fmt("%zu formulas (every expression up to depth 2%s over {x, y, 2, -0.5, parameter}, numbers of several forms, every formula of depth 2 over 4 predicates, depth 3 over fewer; intervals with numbers and parameters), displayed by the formula, the monitor (two ways), the driver, a copy, after parameters have changed; every trace of 3 samples over x {-2,0.5,3} y {-1,2} (expressions, depth 1) or x {-2,3} y {-1,2}; %zu declarations of up to %d signals (every order of {b, a, B, ab, a_1}; 12 and 140 signals), in one list, in two, one at a time, with repeats",
      F.size(), thorough ? " (3 for pairs)" : ", part of depth 3", N.size(), thorough ? 5 : 4);
  }
  static std::string trim(std::string s) { while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); size_t i = 0; while (i < s.size() && isspace((unsigned char)s[i])) i++; return s.substr(i); }
  template <class G> static std::string cout_of(G g) { std::ostringstream o; auto b = std::cout.rdbuf(o.rdbuf()); g(); std::cout.rdbuf(b); return o.str(); }
  // the value a listing gives to a parameter
  static std::string listed(const std::string& s, const std::string& p) { std::smatch m; return std::regex_search(s, m, std::regex("(^|[^A-Za-z0-9_])" + p + "\\s*[:=]\\s*([-+0-9.e]+)")) ? m[2].str() : ""; }
  static std::string after(const std::string& s, const std::string& key) { size_t i = s.find(key); if (i == std::string::npos) return ""; i += key.size(); return trim(s.substr(i, s.find('\n', i) - i)); }
  static void answers(STLMonitor& m, const std::vector<std::vector<double>>& rows, std::vector<double>& v) {
    v.clear(); m.data = rows;
    v.push_back(m.eval_rob(0.25)); v.push_back(m.get_lower_rob()); v.push_back(m.get_upper_rob());
    v.push_back(m.eval_rob(0, 1.5)); v.push_back(m.get_lower_rob()); v.push_back(m.get_upper_rob());
    auto q = m.get_signal();
    if (!q.empty()) { v.push_back(q.beginTime); v.push_back(q.endTime); for (double t = 0; t <= 1.5; t += 0.375) v.push_back(t < q.front().time || t > q.endTime ? 0 : value_at(q, t)); }
  }
  static bool same(const std::vector<double>& a, const std::vector<double>& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i]) && !close(a[i], b[i], 1e-9)) return false;
    return true;
  }
  void run(long b, mc::Run& r) override {
    if (b >= nf) { for (size_t i = 32 * (b - nf); i < N.size() && i < 32 * size_t(b - nf) + 32; i++) one(N[i], r); return; }
    for (size_t i = 8 * b; i < F.size() && i < 8 * size_t(b) + 8; i++) one(F[i], r); }
  void one(const Case& c, mc::Run& r) {
    STLDriver d;
    std::string stage = c.t;
    if (!r.enter([&] { return "display of " + stage; })) return;
    if (!d.parse_string(decl + std::string("zeta := y[t] < 0\nphi := ") + c.t + "\nchi := not phi")) { r.fail("does not parse"); return; }
    auto m = d.get_monitor("phi");
    // every way to display it
    struct Shown { std::string how, text; double p, q; };
    std::vector<Shown> S;
    auto show = [&](const std::string& how, const std::string& t, double p, double q) { for (auto& s : S) if (s.text == t && s.p == p && s.q == q) return; S.push_back({how, t, p, q}); };
    auto by_driver = [&](const STLDriver& D, const std::string& how, double p, double q) -> bool {
      std::ostringstream o; D.print(o); std::string s = o.str();
      show(how, after(s, "phi:\n"), p, q);
      double lp = atof(listed(s, "p").c_str()), lq = atof(listed(s, "q2").c_str());
      if (lp != p || lq != q) { r.fail(how + ": lists the parameters as p " + listed(s, "p") + ", q2 " + listed(s, "q2") + mc::fmt("; they are %g, %g", p, q)); return false; }
      return true;
    };
    auto by_monitor = [&](const STLMonitor& M, const std::string& how, double p, double q) -> bool {
      show(how + ", display_formula", trim(cout_of([&] { M.display_formula(); })), p, q);
      std::ostringstream o; o << M; std::string s = o.str();
      show(how, after(s, "Formula:"), p, q);
      double lp = atof(listed(s, "p").c_str()), lq = atof(listed(s, "q2").c_str());
      if (lp != p || lq != q) { r.fail(how + ": lists the parameters as p " + listed(s, "p") + ", q2 " + listed(s, "q2") + mc::fmt("; they are %g, %g", p, q)); return false; }
      return true;
    };
    { std::ostringstream o; o << *d.formula_map["phi"]; show("formula", trim(o.str()), 0.5, 1.5); }
    if (!by_driver(d, "driver", 0.5, 1.5) || !by_monitor(m, "monitor", 0.5, 1.5)) return;
    { std::ostringstream o; d.print(o); if (trim(cout_of([&] { d.print(); })) != trim(o.str()) || trim(cout_of([&] { d.disp(); })) != trim(o.str())) { r.fail("driver: print() and print(stream) differ"); return; }
      std::string t = after(o.str(), "chi:\n"); STLDriver e; if (!e.parse_string(decl + std::string("phi := ") + t)) { r.fail("driver: chi is displayed as '" + t + "', which does not parse"); return; } }
    m.set_param("p", 0.75); if (!by_monitor(m, "monitor with p = 0.75", 0.75, 1.5)) return;
    { STLMonitor n(m); n.set_param("q2", 2); if (!by_monitor(n, "copy with q2 = 2", 0.75, 2) || !by_monitor(m, "copied monitor", 0.75, 1.5)) return; STLMonitor k; k = n; if (!by_monitor(k, "assigned monitor", 0.75, 2)) return; }
    d.set_param("q2", 1); if (!by_driver(d, "driver with q2 = 1", 0.5, 1)) return;
    { STLDriver e(d); if (!by_driver(e, "copied driver", 0.5, 1)) return; auto n = e.get_monitor("phi"); if (!by_monitor(n, "monitor of a copied driver", 0.5, 1)) return; }
    // each text parsed back
    std::vector<STLMonitor> M, O;
    for (auto& s : S) {
      STLDriver e;
      if (!e.parse_string(decl + std::string("phi := ") + s.text)) { r.fail(s.how + ": displayed as '" + s.text + "', which does not parse"); return; }
      M.push_back(e.get_monitor("phi")); M.back().set_param("p", s.p); M.back().set_param("q2", s.q);
    }
    r.states(S.size());
    std::map<std::pair<double, double>, int> at; std::vector<int> ref;
    for (auto& s : S) { auto k = std::make_pair(s.p, s.q); if (!at.count(k)) { at[k] = O.size(); O.push_back(d.get_monitor("phi")); O.back().set_param("p", s.p); O.back().set_param("q2", s.q); } ref.push_back(at[k]); }
    static const double G[] = {0, 0.75, 1.5}, VX3[] = {-2, 0.5, 3}, VX2[] = {-2, 3}, VY[] = {-1, 2};
    int nx = c.rich ? 3 : 2; bool varies = false; double first = 0; int nt = 0;
    product(3, 2 * nx, [&](std::vector<int>& k) {
      std::vector<std::vector<double>> rows; for (int i = 0; i < 3; i++) rows.push_back({G[i], (c.rich ? VX3 : VX2)[k[i] % nx], VY[k[i] / nx]});
      std::vector<std::vector<double>> want(O.size()); std::vector<double> got;
      for (size_t i = 0; i < O.size(); i++) answers(O[i], rows, want[i]);
      if (nt++ == 0) first = want[0][0]; else varies = varies || want[0][0] != first;
      for (size_t i = 0; i < S.size(); i++) {
        answers(M[i], rows, got); r.transitions(1); r.outcome(got[0]);
        if (!same(got, want[ref[i]])) { r.fail(S[i].how + ": displayed as '" + S[i].text + mc::fmt("', which is another formula: with p = %g, q2 = %g and trace %s it gives %.9g [%.9g,%.9g] at 0.25, the displayed one %.9g [%.9g,%.9g]", S[i].p, S[i].q, rows_text(rows).c_str(), got[0], got[1], got[2], want[ref[i]][0], want[ref[i]][1], want[ref[i]][2])); return; }
      }
    });
    // displaying changes nothing
    { std::vector<double> v, w; std::vector<std::vector<double>> rows = {{0, -2, 2}, {0.75, 3, -1}, {1.5, 0.5, 2}}; answers(m, rows, v); std::ostringstream o1, o2; o1 << m; cout_of([&] { m.display_formula(); }); o2 << m; answers(m, rows, w); if (!same(v, w) || o1.str() != o2.str()) r.fail("displaying changed the monitor"); }
    if (varies) r.nontrivial();
  }
};
int main(int c, char** v) { P p; return mc::explore_main(p, c, v); }
