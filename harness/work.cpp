// C25: the work of an evaluation, counted in basic blocks executed in the library, on traces of N and 8 N samples and
// on formulas of K and 4 K operators: the work per sample (per operator) must not grow.
#include "gen.hpp"
using namespace gen;
using STLRom::STLDriver; using STLRom::STLMonitor;
static unsigned long WORK = 0;
extern "C" __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc() { WORK++; }

struct P : mc::Property {
  struct Word { std::string n; std::function<double(int, int)> x, y; };
  std::vector<std::string> F, chains; std::vector<Word> W;
  int N = 96, K = 4;
  // T: an interval that grows with the trace, or is fixed while the samples get denser; S: a short one
  void init() override {
    std::vector<std::string> A = {"(x[t] > 0)", "(y[t] < 1)"}, L1, L2;
    auto level = [&](const std::vector<std::string>& S, const std::vector<std::string>& O, std::vector<std::string>& v, bool few) {
      for (auto& a : S) {
        v.push_back("(not " + a + ")");
        for (const char* o : {"ev", "alw"}) for (const char* i : few ? std::vector<const char*>{"[0, T]", "[S, T]"} : std::vector<const char*>{"[0, T]", "[S, T]", "[0, S]", "[T, T]"}) v.push_back("(" + std::string(o) + "_" + i + " " + a + ")");
        for (auto& b : O) for (const char* o : {"and", "or", "=>", "until_[0, T]", "until_[S, T]", "until_[0, S]"}) { if (few && o[strlen(o) - 2] == 'S') continue; v.push_back("(" + a + " " + o + " " + b + ")"); if (a != b) v.push_back("(" + b + " " + o + " " + a + ")"); }
      }
    };
    level({A[0]}, {A[1], A[0]}, L1, false);
    level(L1, thorough ? A : std::vector<std::string>{A[1]}, L2, !thorough);
    F = {A[0], "((x[t] * (y[t] - 1)) > (abs(x[t] + y[t])))"}; F.insert(F.end(), L1.begin(), L1.end()); F.insert(F.end(), L2.begin(), L2.end());
    // words: periodic, monotone, rising and falling, with spikes that grow, shrink or are rare
    static const double V[] = {-2, 3, 0.5};
    auto per = [](std::vector<int> k, int s) { return [k, s](int i, int) { return V[k[(i + s) % k.size()]]; }; };
    for (auto k : std::vector<std::vector<int>>{{0}, {1}, {0, 1}, {0, 1, 2}, {1, 0, 2}, {0, 0, 1}, {1, 1, 0}}) for (int s = 0; s < 2; s++) W.push_back({"periodic", per(k, 0), per(k, s)});
    typedef std::function<double(int, int)> G;
    std::vector<G> M = {[](int i, int n) { return i * 8. / n - 4; }, [](int i, int n) { return 4 - i * 8. / n; }, [](int i, int n) { return i < n / 2 ? i * 8. / n - 2 : (n - i) * 8. / n - 2; }, [](int i, int n) { return i < n / 2 ? 2 - i * 8. / n : 2 - (n - i) * 8. / n; },
      [](int i, int n) { return (i % 2 ? 1 : -1) * (i + 1.) / n; }, [](int i, int n) { return (i % 2 ? 1 : -1) * (n - i) * 1. / n; }, [](int i, int n) { return (i % 2 ? 2. * i / n : -3) ; }, [](int i, int n) { return i % 2 ? 3 - 2. * i / n : 0.5 * i / n - 1; }, [](int i, int n) { return i == n / 2 ? 5. : -1; },
      [](int i, int n) { int r = (int)std::sqrt((double)n); return (i % r) * 1. / r - 0.5; }, [](int i, int n) { int r = (int)std::sqrt((double)n); return 0.5 - (i % r) * 1. / r + i * 1. / n; }};
    for (size_t a = 0; a < M.size(); a++) for (size_t b = 0; b < M.size(); b++) if (thorough || a == b || (a + b) % 5 == 0) W.push_back({mc::fmt("shapes %zu, %zu", a, b), M[a], M[b]});
    chains = {"(not *)", "(ev_[0, S] *)", "(alw_[S, S] *)", "(* and (y[t] < 1))", "((y[t] < 1) or *)", "(* => (x[t] > 1))", "(* until_[0, S] (y[t] < 1))", "((y[t] < 1) until_[0, S] *)", "(ev_[0, S] (alw_[0, S] *))", "((not *) until_[0, S] (x[t] > 1))", "((x[t] > 1) => (ev_[0, S] *))"};
  }
  long nF = 0;
  long blocks() override { nF = F.size(); return nF * 2 + (long)chains.size(); }
  std::string bounds() override {
    return mc::fmt("%zu formulas (every formula of depth 2), interval bounds that grow with the trace and ones that stay while the samples get denser, %zu shapes of traces, %d and %d samples, SPACE and RIGHT_TIME, LINEAR and PREVIOUS, windows [0,0] and [0,T], adding the samples included; %zu chains of %d and %d operators", F.size(), W.size(), N, 8 * N, chains.size(), K, 4 * K);
  }
  static std::string with(std::string s, const char* v, double x) { size_t i; while ((i = s.find(v)) != std::string::npos) s.replace(i, 1, mc::fmt("%g", x)); return s; }
  struct Setup { STLDriver d; double T; };
  enum { PARSE, ADD, LOG, EVAL, BOUNDS, COPY, NW };
  static const char* what(int k) { return (const char*[]){"reading the formula", "adding the samples", "adding the samples to the driver", "evaluation", "the bounds", "a copy with its evaluation"}[k]; }
  struct Steps { unsigned long n[NW]; };
  static Steps run1(const std::string& f, double T, double S, double dt, const Word& w, int n, int mode) {
    Steps c; STLDriver d; std::string text = "signal x, y\nphi := " + with(with(f, "T", T), "S", S);
    WORK = 0; bool ok = d.parse_string(text); c.n[PARSE] = WORK;
    if (!ok) throw std::runtime_error("does not parse: " + f);
    auto m = d.get_monitor("phi");
    if (mode % 2) m.set_semantics("RIGHT_TIME");
    if (mode / 2 % 2) m.set_interpol("PREVIOUS");
    std::vector<std::vector<double>> rows; for (int i = 0; i < n; i++) rows.push_back({i * dt, w.x(i, n), w.y(i, n)});
    WORK = 0; for (auto& r : rows) m.add_sample(r); c.n[ADD] = WORK;
    WORK = 0; for (auto& r : rows) d.add_sample(r); c.n[LOG] = WORK;
    WORK = 0; m.eval_rob(0, mode / 4 ? T : 0); c.n[EVAL] = WORK;
    WORK = 0; m.get_lower_rob(); m.get_upper_rob(); c.n[BOUNDS] = WORK;
    WORK = 0; { STLMonitor k(m); k.eval_rob(); } c.n[COPY] = WORK;
    return c;
  }
  void run(long b, mc::Run& r) override {
    long nc = chains.size();
    if (b < nc) { chain(b, r); return; }
    b -= nc;
    worst = 0;
    const std::string& f = F[b / 2]; bool dense = b % 2;
    for (auto& w : W) for (int mode = 0; mode < 8; mode++) {
      if (!thorough && (mode == 3 || mode == 5 || mode == 6)) continue;
      if (!r.enter([&] { return f + mc::fmt(" with T %s, %s%swindow [0,%s], trace ", dense ? "fixed" : "growing", mode % 2 ? "RIGHT_TIME " : "", mode / 2 % 2 ? "PREVIOUS " : "", mode / 4 ? "T" : "0") + w.n; })) continue;
      Steps c[2];
      for (int k = 0; k < 2; k++) { int n = k ? 8 * N : N; double T = dense ? 8 : n / 12., dt = dense ? 26. / n : 0.25; c[k] = run1(f, T, 0.5, dt, w, n, mode); }
      r.states(9 * N); r.transitions(2 * NW); r.outcome_hash(c[1].n[EVAL]); r.nontrivial();
      for (int k = ADD; k < NW; k++) if (c[0].n[k] > 200) {
        worst = std::max(worst, c[1].n[k] / 8. / c[0].n[k]);
        if (c[1].n[k] > 8 * c[0].n[k] * LIMIT) { r.fail(mc::fmt("%s: %lu steps for %d samples, %lu for %d", what(k), c[0].n[k], N, c[1].n[k], 8 * N)); return; }
      }
    }
    if (getenv("WORST")) { FILE* o = fopen(getenv("WORST"), "a"); fprintf(o, "%.3f %s\n", worst, f.c_str()); fclose(o); }
  }
  double worst = 0; const double LIMIT = 1.7;
  void chain(int c, mc::Run& r) {
    worst = 0;
    for (auto& w : W) for (int mode = 0; mode < 4; mode++) {
      if (!r.enter([&] { return "chain of " + chains[c] + mc::fmt(", %s%strace ", mode % 2 ? "RIGHT_TIME " : "", mode / 2 ? "PREVIOUS " : "") + w.n; })) continue;
      Steps s[2];
      for (int k = 0; k < 2; k++) {
        std::string f = "(x[t] > 0)"; for (int i = 0; i < (k ? 4 * K : K); i++) { std::string g = chains[c]; g.replace(g.find('*'), 1, f); f = g; }
        s[k] = run1(f, 16, 0.25 / 64, 0.25, w, N, mode + 4);       // a horizon that hardly grows with the chain
      }
      r.states(2 * N); r.transitions(2 * NW); r.outcome_hash(s[1].n[EVAL]); r.nontrivial();
      for (int k = 0; k < NW; k++) if (s[0].n[k] > 200) {
        worst = std::max(worst, s[1].n[k] / 4. / s[0].n[k]);
        if (s[1].n[k] > 4 * s[0].n[k] * LIMIT) { r.fail(mc::fmt("%s: %lu steps for %d operators, %lu for %d", what(k), s[0].n[k], K, s[1].n[k], 4 * K)); return; }
      }
    }
    if (getenv("WORST")) { FILE* o = fopen(getenv("WORST"), "a"); fprintf(o, "%.3f %s\n", worst, chains[c].c_str()); fclose(o); }
  }
};
int main(int c, char** v) { P p; return mc::explore_main(p, c, v); }
