// C07: stateless exploration of every sequence of operations (up to a depth) on a driver, two monitors and
// the process-wide settings.  Every answer given along the way must be, bit for bit, the answer of a freshly
// built object with the same formula, data, parameters, modes and window.
#include "gen.hpp"
#include <unordered_map>
using namespace gen;
using STLRom::Signal; using STLRom::STLDriver; using STLRom::STLMonitor;

struct In { int f = 0; int data = 0, len = 0, mod = 0; int p = 0, sem = 0, in = 0; };
struct Ans { std::vector<double> v; };
static const char* SEM[] = {"SPACE", "LEFT_TIME", "RIGHT_TIME"};
static const char* ITP[] = {"LINEAR", "PREVIOUS"};
static const double PV[] = {0.5, 2};

struct P : mc::Property {
  // phi and psi of each world; p is a parameter, psi may refer to phi
  std::vector<std::pair<std::string, std::string>> Wd = {
    {"ev_[0, p] (x[t] > 0)", "not phi"},
    {"alw_[p, 2] (x[t] < 1)", "phi and (y[t] > p)"},
    {"(x[t] > p) until_[0, 1] (y[t] > 0)", "ev_[0, 1] phi"},
    {"(x[t] > 0) until_[p, 2] (y[t] < 1)", "alw_[0.5, 1] (phi or (x[t] > 1))"},
    {"(x[t] + p) * y[t] > 1", "phi => (ev_[0, 1] (y[t] > 0))"},
    {"(abs(x[t] - y[t])) < p", "(alw_[0, 1] phi) until_[0, p] (y[t] > 0)"},
    {"(ev_[0, 1] (x[t] > p)) or (alw_[0, 1] (y[t] > 0))", "not (phi and phi)"},
    {"alw_[0, 1] (ev_[0, p] (x[t] > p))", "(x[t] > 0) until_[0.5, 1] phi"},
  };
  std::string spec(int w, int p) { return mc::fmt("signal x, y\nparam p = %g\nphi := ", PV[p]) + Wd[w].first + "\npsi := " + Wd[w].second + "\n"; }
  // mod: the values (1) or the time (2) of the first sample are others
  std::vector<double> row(int data, int i, int mod = 0) {
    static const double A[][3] = {{0, 1, -1}, {0.75, -2, 0.5}, {1.5, 3, 2}, {2.5, 0.25, -1}, {3, -1, 1}, {4.5, 2, 1}, {6, 2, -3}, {8, -2, 2}};
    static const double B[][3] = {{0, -3, 2}, {0.5, 0.5, 1}, {1, 1.5, -2}, {2, -1, 3}, {4, 2, 0.5}, {5, 2, 0.5}, {7, -2, 0.5}, {9, 2, -0.5}};
    auto& R = data ? B : A; std::vector<double> v{R[i][0], R[i][1], R[i][2]}; if (i == 0 && mod == 1) { v[1] = 2.5 - v[1]; v[2] += 1.5; } if (i == 0 && mod == 2) v[0] -= 0.5; return v;
  }
  static const int NOPS = 24;
  int depth() { return thorough ? 5 : 4; }
  long blocks() override { return (long)Wd.size() * NOPS * 2; }     // world x first operation x initial length
  std::string bounds() override {
    return mc::fmt("%zu formula pairs, initial data of 2 and 5 samples, every sequence of %d operations out of %d (evaluation at 3 windows, set_param, set_semantics, set_interpol, add_sample, new data, other values or another time of the first sample, on two monitors and the driver; parsing a further formula, taking and using another monitor, changing the process-wide modes) followed by a query of every object",
      Wd.size(), depth(), NOPS);
  }
  // ---- fresh answers
  std::unordered_map<long, Ans> memo;
  static void sig(std::vector<double>& v, const Signal& s) { v.push_back(s.size()); v.push_back(s.beginTime); v.push_back(s.endTime); for (auto& x : s) { v.push_back(x.time); v.push_back(x.value); v.push_back(x.derivative); } }
  static Ans ask(STLMonitor& m, int win) {
    Ans a;
    if (win == 2) { m.set_eval_time(0.25, 1); a.v.push_back(m.eval_rob()); } else a.v.push_back(win ? m.eval_rob(0.5, 1) : m.eval_rob(0));
    a.v.push_back(m.get_rob()); a.v.push_back(m.get_lower_rob()); a.v.push_back(m.get_upper_rob());
    sig(a.v, m.get_signal());
    return a;
  }
  static Ans ask(STLDriver& d, int f, int win) { return {d.get_online_rob(f ? "psi" : "phi", win ? 0.5 : 0)}; }
  const Ans& fresh(int w, const In& i, int win, bool drv) {
    long k = (((((((((long)w * 2 + i.f) * 2 + i.data) * 3 + i.mod) * 16 + i.len) * 2 + i.p) * 3 + i.sem) * 2 + i.in) * 3 + win) * 2 + drv;
    auto it = memo.find(k); if (it != memo.end()) return it->second;
    STLDriver d; d.parse_string(spec(w, i.p));
    for (int j = 0; j < i.len; j++) d.add_sample(row(i.data, j, i.mod));
    d.set_semantics(SEM[i.sem]); d.set_interpol(ITP[i.in]);
    Ans a;
    if (drv) a = ask(d, i.f, win);
    else { auto m = d.get_monitor(i.f ? "psi" : "phi"); a = ask(m, win); }
    return memo[k] = a;
  }
  static bool same(const Ans& a, const Ans& b) { return a.v.size() == b.v.size() && (a.v.empty() || !memcmp(a.v.data(), b.v.data(), 8 * a.v.size())); }
  static std::string show(const Ans& a) { std::string s; for (size_t i = 0; i < a.v.size() && i < 20; i++) s += mc::fmt(" %.9g", a.v[i]); return s; }

  static const char* opname(int o) {
    static const char* N[] = {"A.eval(0)", "A.eval(.5,1)", "A.set_eval_time(.25,1).eval()", "A.set_param", "A.set_semantics", "A.set_interpol", "A.add_sample", "A.data=other",
      "B.eval(0)", "B.eval(.5,1)", "B.set_param", "B.set_semantics+interpol", "B.data=other",
      "D.online(phi,0)", "D.online(psi,.5)", "D.set_param", "D.set_semantics", "D.set_interpol", "D.add_sample", "D.data=other", "D.parse+monitor+eval", "global modes", "A.data[0]=other", "D.data[0]=other"};
    return N[o];
  }
  void run(long b, mc::Run& r) override {
    memo.clear();
    int w = b / (NOPS * 2), first = b / 2 % NOPS, len0 = b % 2 ? 5 : 2, n = depth();
    product(n - 1, NOPS, [&](std::vector<int>& rest) {
      auto text = [&] { std::string s = spec(w, 0) + mc::fmt("%d samples; ", len0) + opname(first); for (int o : rest) s += std::string("; ") + opname(o); return s; };
      if (!r.enter(text)) return;
      STLDriver d; d.parse_string(spec(w, 0));
      In D, A, B; D.len = A.len = B.len = len0; B.f = 1;
      for (int j = 0; j < len0; j++) d.add_sample(row(0, j));
      STLMonitor ma = d.get_monitor("phi"), mb = d.get_monitor("psi");
      Signal::set_semantics("SPACE"); Signal::set_interpol("LINEAR");
      int extra = 0, glob = 0;
      auto load = [&](STLMonitor& m, In& i) { i.data ^= 1; i.len = 4; i.mod = 0; m.reset_signal_data(); for (int j = 0; j < 4; j++) m.add_sample(row(i.data, j)); };
      auto chk = [&](const Ans& a, const In& i, int win, bool drv, const char* who) {
        r.outcome(a.v.empty() ? 0 : a.v[0]); r.nontrivial();
        const Ans& e = fresh(w, i, win, drv);
        if (same(a, e)) return true;
        r.fail(std::string(who) + " answers" + show(a) + " but a fresh object" + show(e)); return false;
      };
      auto step = [&](int o) -> bool {
        r.transitions(1);
        switch (o) {
          case 0: case 1: case 2: return chk(ask(ma, o), A, o, false, "A");
          case 3: A.p ^= 1; ma.set_param("p", PV[A.p]); break;
          case 4: A.sem = (A.sem + 1) % 3; ma.set_semantics(SEM[A.sem]); break;
          case 5: A.in ^= 1; ma.set_interpol(ITP[A.in]); break;
          case 6: if (A.len < 8) ma.add_sample(row(A.data, A.len++)); break;
          case 7: load(ma, A); break;
          case 8: case 9: return chk(ask(mb, o - 8), B, o - 8, false, "B");
          case 10: B.p ^= 1; mb.set_param("p", PV[B.p]); break;
          case 11: B.sem = (B.sem + 1) % 3; mb.set_semantics(SEM[B.sem]); B.in ^= 1; mb.set_interpol(ITP[B.in]); break;
          case 12: load(mb, B); break;
          case 13: D.f = 0; return chk(ask(d, 0, 0), D, 0, true, "driver");
          case 14: D.f = 1; return chk(ask(d, 1, 1), D, 1, true, "driver");
          case 15: D.p ^= 1; d.set_param("p", PV[D.p]); break;
          case 16: D.sem = (D.sem + 1) % 3; d.set_semantics(SEM[D.sem]); break;
          case 17: D.in ^= 1; d.set_interpol(ITP[D.in]); break;
          case 18: if (D.len < 8) d.add_sample(row(D.data, D.len++)); break;
          case 19: D.data ^= 1; D.len = 4; D.mod = 0; d.data.clear(); for (int j = 0; j < 4; j++) d.add_sample(row(D.data, j)); break;
          case 20: {
            std::string nm = mc::fmt("chi%d", extra++);
            d.parse_string(nm + " := alw_[0, 1] (phi or psi)");
            auto c = d.get_monitor(nm); c.set_semantics("LEFT_TIME"); c.set_interpol("PREVIOUS"); c.set_param("p", 1); c.eval_rob(0.25);
            d.get_online_rob(nm, 0.75); break;
          }
          case 21: glob++; Signal::set_semantics(SEM[glob % 3]); Signal::set_interpol(ITP[glob % 2]); break;
          case 22: A.mod = (A.mod + 1) % 3; ma.data[0] = row(A.data, 0, A.mod); break;
          case 23: D.mod = (D.mod + 1) % 3; d.data[0] = row(D.data, 0, D.mod); break;
        }
        return true;
      };
      r.states(n + 1);
      if (!step(first)) return;
      for (int o : rest) if (!step(o)) return;
      // every object, twice over
      for (int rep = 0; rep < 2; rep++) {
        if (!chk(ask(ma, rep), A, rep, false, "A")) return;
        D.f = rep; if (!chk(ask(d, rep, rep), D, rep, true, "driver")) return;
        if (!chk(ask(mb, rep), B, rep, false, "B")) return;
      }
    });
  }
};
int main(int c, char** v) { P p; return mc::explore_main(p, c, v); }
