// C08: stateless exploration of every sequence of copy, assign, move, take, destroy, clear and change
// operations on three monitors and two drivers.  After every operation each object is compared with what it
// must look like (what it was, or what it was copied from); at the end every object still alive is evaluated
// and must answer like a freshly built one.  Runs under AddressSanitizer and UndefinedBehaviorSanitizer.
#include "gen.hpp"
#include <unordered_map>
using namespace gen;
using STLRom::Signal; using STLRom::STLDriver; using STLRom::STLMonitor;

struct In { int f = 0; int n = 0; int p = 0, sem = 0, in = 0; int ran = 0; int x = 0; };      // inputs of a monitor (f: formula) or driver
struct Snap { std::vector<double> v; std::string s; bool operator==(const Snap& o) const { return s == o.s && v.size() == o.v.size() && (v.empty() || !memcmp(v.data(), o.v.data(), 8 * v.size())); } };
static const char* SEM[] = {"SPACE", "LEFT_TIME", "RIGHT_TIME"};
static const char* ITP[] = {"LINEAR", "PREVIOUS"};
static const double PV[] = {0.5, 2};

struct P : mc::Property {
  std::vector<std::pair<std::string, std::string>> Wd = {
    {"ev_[0, p] (x[t] > 0)", "not (phi and (y[t] > p))"},
    {"(x[t] > p) until_[p, 2] (y[t] > 0)", "alw_[0, 1] (phi or (x[t] > 1))"},
    {"(x[t] + p) * (abs(y[t] - x[t])) > 1", "phi => (ev_[0, 1] (y[t] > 0))"},
  };
  // x: another specification with the same formula and parameter names, for objects that are overwritten
  std::string spec(int w, int p, int x) {
    if (x) return mc::fmt("signal y, z, x\nparam p = %g, q = 7\nphi := ev_[0, p] (z[t] > x[t])\npsi := phi and (y[t] < q)\nchi := phi\ntest T9: \"env9\", 1, false { c1 { chi, \"c\", \"d\", true } }\n", PV[p]);
    return mc::fmt("signal x, y\nparam p = %g\nphi := ", PV[p]) + Wd[w].first + "\npsi := " + Wd[w].second + "\n"
      "test T1: \"env1\", 3, true { a1 { phi, \"pos\", \"neg\", true } a2 (p=1) { psi, \"\", \"\", false } }\ntest T2: \"env2\", 3, false { a1 (p=2) b { not phi, \"p\", \"n\", false } }\n";
  }
  static std::vector<double> row(int i, int x) {
    static const double A[][3] = {{0, 1, -1}, {0.75, -2, 0.5}, {1.5, 3, 2}, {2.5, 0.25, -1}, {3, -1, 1}, {4.5, 2, 1}, {6, 2, -3}, {8, -2, 2}, {9, 0, 0}, {10, 0, 0}, {11, 0, 1}, {12, 0, 1}};
    if (x) return {A[i][0] + 0.125, A[i][2], -A[i][1], 1};
    return {A[i][0], A[i][1], A[i][2]};
  }
  static const int NOPS = 32;
  int depth() { return thorough ? 4 : 3; }
  long blocks() override { return (long)Wd.size() * NOPS * NOPS * 2; }
  std::string bounds() override {
    return mc::fmt("%zu formula pairs with two legacy test blocks, every sequence of %d operations out of %d on 3 monitor and 2 driver slots, starting without or with a driver and a monitor of another specification (copy and move construction and assignment, self-assignment, get_monitor, destruction, clear, set_param, add_sample, data cleared, modes, evaluation, test runs), every object compared after every operation",
      Wd.size(), depth(), NOPS);
  }
  static void sig(std::vector<double>& v, const Signal& s) { v.push_back(s.size()); v.push_back(s.beginTime); v.push_back(s.endTime); for (auto& x : s) { v.push_back(x.time); v.push_back(x.value); v.push_back(x.derivative); } }
  template <class M> static void common(Snap& q, M& m) {
    for (auto& r : m.data) { q.v.push_back(r.size()); for (double x : r) q.v.push_back(x); }
    for (auto& k : m.param_map) { q.s += k.first + "="; q.v.push_back(k.second); }
    for (auto& k : m.signal_map) { q.s += k.first + ","; q.v.push_back(k.second); }
    q.s += m.get_semantics() + m.get_interpol();
  }
  static Snap snap(STLMonitor& m) {
    Snap q; common(q, m);
    for (double x : {m.rob, m.lower_rob, m.upper_rob, m.start_time, m.end_time}) q.v.push_back(x);
    if (m.formula) { sig(q.v, m.get_signal()); std::ostringstream o; o << m; q.s += o.str(); } else q.s += "no formula";
    return q;
  }
  static Snap snap(STLDriver& d) {
    Snap q; common(q, d);
    std::ostringstream o; d.print(o); q.s += o.str() + d.report + d.test_log;
    for (double x : {(double)d.nb_test_pos, (double)d.nb_test_total, (double)d.error_flag}) q.v.push_back(x);
    for (auto& k : d.stl_test_map) { q.s += k.first + k.second.report_positive; std::ostringstream u; if (k.second.formula) k.second.formula->print(u); q.s += u.str(); }
    for (auto& k : d.trace_test_queue) { q.s += k.id + k.env; for (auto& e : k.tests) { q.s += e.test_id; std::ostringstream u; if (e.formula) e.formula->print(u); q.s += u.str(); for (auto& z : e.param_map) { q.s += z.first; q.v.push_back(z.second); } } }
    return q;
  }
  std::unordered_map<long, std::vector<double>> memo;
  void build(STLDriver& d, int w, const In& i) {
    d.parse_string(spec(w, i.p, i.x));
    for (int j = 0; j < i.n; j++) d.add_sample(row(j, i.x));
    d.set_semantics(SEM[i.sem]); d.set_interpol(ITP[i.in]);
  }
  const std::vector<double>& fresh(int w, const In& i, int drv) {
    long k = (((((long)w * 2 + i.f) * 16 + i.n) * 2 + i.p) * 3 + i.sem) * 2 + i.in; k = (k * 2 + drv) * 2 + i.x;
    auto it = memo.find(k); if (it != memo.end()) return it->second;
    STLDriver d; build(d, w, i);
    std::vector<double> v;
    if (drv) { for (const char* f : {"phi", "psi"}) for (double x : d.get_online_rob(f, 0.25)) v.push_back(x); }
    else { auto m = d.get_monitor(i.f ? "psi" : "phi"); v = {m.eval_rob(0.5, 1), m.get_lower_rob(), m.get_upper_rob()}; sig(v, m.get_signal()); }
    return memo[k] = v;
  }
  static const char* opname(int o) {
    static const char* N[] = {"M1(M0)", "M2=M1", "M0=M0", "M1(move M0)", "M0=move M2", "M0=D0.monitor(phi)", "M2=D1.monitor(psi)", "delete M0", "delete M1",
      "D1(D0)", "D0=D1", "D0=D0", "D1(move D0)", "D0=move D1", "delete D0", "D0.clear+parse", "M0.set_param", "M1.set_param", "M0.add_sample", "M2.add_sample", "M0.eval(.5,1)", "M1.eval(0)",
      "M2.modes", "D0.set_param", "D1.set_param", "D0.add_sample", "D1.modes", "D1.online", "D0.run_tests", "D1.run_tests", "M2.data cleared", "D1.data cleared"};
    return N[o];
  }
  struct World {
    std::unique_ptr<STLMonitor> M[3]; std::unique_ptr<STLDriver> D[2];
    In m[3], d[2]; Snap sm[3], sd[2];
  };
  void run(long b, mc::Run& r) override {
    memo.clear();
    bool other = b % 2; b /= 2;                 // with a second driver and monitor of another specification
    int w = b / (NOPS * NOPS), o0 = b / NOPS % NOPS, o1 = b % NOPS, n = depth();
    product(n - 2, NOPS, [&](std::vector<int>& rest) {
      std::vector<int> ops{o0, o1}; ops.insert(ops.end(), rest.begin(), rest.end());
      if (!r.enter([&] { std::string s = (other ? "[D1, M2 of another specification] phi := " : "phi := ") + Wd[w].first + ", psi := " + Wd[w].second; for (int o : ops) s += std::string("; ") + opname(o); return s; })) return;
      World W;
      W.D[0].reset(new STLDriver); W.d[0].n = 3; build(*W.D[0], w, W.d[0]);
      W.M[0].reset(new STLMonitor(W.D[0]->get_monitor("phi"))); W.m[0] = W.d[0]; W.M[0]->eval_rob(0.25);
      W.M[1].reset(new STLMonitor(W.D[0]->get_monitor("psi"))); W.m[1] = W.d[0]; W.m[1].f = 1;
      for (int k = 0; k < 2; k++) W.sm[k] = snap(*W.M[k]);
      W.sd[0] = snap(*W.D[0]);
      if (other) {
        In& i = W.d[1]; i.x = 1; i.n = 2; i.p = 1; i.sem = 2; i.in = 1;
        W.D[1].reset(new STLDriver); build(*W.D[1], w, i); W.D[1]->run_tests();
        W.M[2].reset(new STLMonitor(W.D[1]->get_monitor("psi"))); W.m[2] = i; W.m[2].f = 1; W.M[2]->eval_rob(0.125, 1);
        W.sd[1] = snap(*W.D[1]); W.sm[2] = snap(*W.M[2]);
      }
      r.states(1);
      for (size_t k = 0; k < ops.size(); k++) {
        std::string bad = step(W, w, ops[k]);
        if (bad == "-") return;                       // not possible here
        r.transitions(1); r.states(1);
        if (!bad.empty()) { r.fail(std::string(opname(ops[k])) + ": " + bad); return; }
        for (int j = 0; j < 3; j++) if (W.M[j] && !(snap(*W.M[j]) == W.sm[j])) { r.fail(mc::fmt("%s changed or miscopied monitor M%d", opname(ops[k]), j)); return; }
        for (int j = 0; j < 2; j++) if (W.D[j] && !(snap(*W.D[j]) == W.sd[j])) { r.fail(mc::fmt("%s changed or miscopied driver D%d", opname(ops[k]), j)); return; }
      }
      r.nontrivial();
      for (int j = 0; j < 3; j++) if (W.M[j] && W.m[j].n) {
        auto& m = *W.M[j];
        std::vector<double> v{m.eval_rob(0.5, 1), m.get_lower_rob(), m.get_upper_rob()}; sig(v, m.get_signal());
        if (v != fresh(w, W.m[j], 0)) { r.fail(mc::fmt("M%d answers %.9g in [%.9g,%.9g], a fresh one %.9g", j, v[0], v[1], v[2], fresh(w, W.m[j], 0)[0])); return; }
        r.outcome(v[0]);
      }
      for (int j = 0; j < 2; j++) if (W.D[j]) {
        std::vector<double> v; for (const char* f : {"phi", "psi"}) for (double x : W.D[j]->get_online_rob(f, 0.25)) v.push_back(x);
        if (v != fresh(w, W.d[j], 1)) { r.fail(mc::fmt("D%d answers otherwise than a fresh driver", j)); return; }
        if (v.size()) r.outcome(v[0]);
      }
    });
  }
  // performs an operation and updates what every object must look like from now on
  std::string step(World& W, int w, int o) {
    auto& M = W.M; auto& D = W.D;
    auto need = [&](std::initializer_list<bool> c) { for (bool x : c) if (!x) return false; return true; };
    switch (o) {
      case 0: if (!M[0]) return "-"; M[1].reset(new STLMonitor(*M[0])); W.m[1] = W.m[0]; W.sm[1] = W.sm[0]; break;
      case 1: if (!M[1]) return "-"; if (M[2]) *M[2] = *M[1]; else { M[2].reset(new STLMonitor); *M[2] = *M[1]; } W.m[2] = W.m[1]; W.sm[2] = W.sm[1]; break;
      case 2: { if (!M[0]) return "-"; STLMonitor& s = *M[0]; *M[0] = s; break; }
      case 3: if (!M[0]) return "-"; M[1].reset(new STLMonitor(std::move(*M[0]))); W.m[1] = W.m[0]; W.sm[1] = W.sm[0]; M[0].reset(); break;
      case 4: if (!M[0] || !M[2]) return "-"; *M[0] = std::move(*M[2]); W.m[0] = W.m[2]; W.sm[0] = W.sm[2]; M[2].reset(); break;
      case 5: case 6: {
        int d = o - 5, j = d ? 2 : 0; if (!D[d]) return "-";
        STLMonitor t = D[d]->get_monitor(d ? "psi" : "phi");
        if (!t.formula) return "no formula";
        if (M[j]) *M[j] = t; else M[j].reset(new STLMonitor(t));
        W.m[j] = W.d[d]; W.m[j].f = d;
        STLDriver f; build(f, w, W.d[d]); STLMonitor e = f.get_monitor(d ? "psi" : "phi"); W.sm[j] = snap(e); break;
      }
      case 7: case 8: if (!M[o - 7]) return "-"; M[o - 7].reset(); break;
      case 9: if (!D[0]) return "-"; D[1].reset(new STLDriver(*D[0])); W.d[1] = W.d[0]; W.sd[1] = W.sd[0]; break;
      case 10: if (!D[0] || !D[1]) return "-"; *D[0] = *D[1]; W.d[0] = W.d[1]; W.sd[0] = W.sd[1]; break;
      case 11: { if (!D[0]) return "-"; STLDriver& s = *D[0]; *D[0] = s; break; }
      case 12: if (!D[0]) return "-"; D[1].reset(new STLDriver(std::move(*D[0]))); W.d[1] = W.d[0]; W.sd[1] = W.sd[0]; D[0].reset(); break;
      case 13: if (!D[0] || !D[1]) return "-"; *D[0] = std::move(*D[1]); W.d[0] = W.d[1]; W.sd[0] = W.sd[1]; D[1].reset(); break;
      case 14: if (!D[0]) return "-"; D[0].reset(); break;
      case 15: {
        if (!D[0]) return "-"; D[0]->clear();
        if (!D[0]->formula_map.empty() || !D[0]->param_map.empty() || !D[0]->trace_test_queue.empty() || !D[0]->report.empty()) return "clear left something";
        D[0]->parse_string(spec(w, 0, W.d[0].x)); W.d[0].p = 0; W.d[0].ran = 0;
        STLDriver f; In i = W.d[0]; build(f, w, i); W.sd[0] = snap(f); break;
      }
      case 16: case 17: { int j = o - 16; if (!M[j]) return "-"; W.m[j].p ^= 1; M[j]->set_param("p", PV[W.m[j].p]); if (M[j]->get_param("p") != PV[W.m[j].p]) return "parameter not set"; W.sm[j] = snap(*M[j]); break; }
      case 18: case 19: { int j = o == 18 ? 0 : 2; if (!M[j]) return "-"; M[j]->add_sample(row(W.m[j].n, W.m[j].x)); W.m[j].n++; if ((int)M[j]->data.size() != W.m[j].n) return "not added"; W.sm[j] = snap(*M[j]); break; }
      case 20: case 21: { int j = o - 20; if (!M[j] || !W.m[j].n) return "-"; if (j) M[j]->eval_rob(0); else M[j]->eval_rob(0.5, 1); W.sm[j] = snap(*M[j]); break; }
      case 22: { if (!M[2]) return "-"; auto& i = W.m[2]; i.sem = (i.sem + 1) % 3; i.in ^= 1; M[2]->set_semantics(SEM[i.sem]); M[2]->set_interpol(ITP[i.in]); W.sm[2] = snap(*M[2]); break; }
      case 23: case 24: { int j = o - 23; if (!D[j]) return "-"; W.d[j].p ^= 1; D[j]->set_param("p", PV[W.d[j].p]); W.sd[j] = snap(*D[j]); break; }
      case 25: if (!D[0]) return "-"; D[0]->add_sample(row(W.d[0].n, W.d[0].x)); W.d[0].n++; W.sd[0] = snap(*D[0]); break;
      case 26: { if (!D[1]) return "-"; auto& i = W.d[1]; i.sem = (i.sem + 1) % 3; i.in ^= 1; D[1]->set_semantics(SEM[i.sem]); D[1]->set_interpol(ITP[i.in]); W.sd[1] = snap(*D[1]); break; }
      case 27: if (!D[1]) return "-"; D[1]->get_online_rob("phi", 0.5); break;
      case 28: case 29: { int j = o - 28; if (!D[j] || !W.d[j].n) return "-"; D[j]->run_tests(); W.sd[j] = snap(*D[j]); break; }
      case 30: if (!M[2]) return "-"; M[2]->reset_signal_data(); W.m[2].n = 0; W.sm[2] = snap(*M[2]); break;
      case 31: if (!D[1]) return "-"; D[1]->data.clear(); W.d[1].n = 0; W.sd[1] = snap(*D[1]); break;
    }
    return "";
  }
};
int main(int c, char** v) { P p; return mc::explore_main(p, c, v); }
