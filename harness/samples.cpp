// C09: every sequence of attempts to add samples (right and wrong dimension, times before, at and after the
// last one, infinite, not a number) mixed with declarations of signals, resets and evaluations, on a driver
// and a monitor taken from it, against a list that admits exactly the right ones.
#include "gen.hpp"
using namespace gen;
using STLRom::STLDriver; using STLRom::STLMonitor;

struct P : mc::Property {
  typedef std::vector<double> Row;
  static const int NOPS = 17;
  int depth() { return thorough ? 6 : 5; }
  long blocks() override { return 3L * 2 * NOPS * NOPS + 5 * 2 * 8; }
  // many samples of 1 to 40 signals; every k-th attempt is wrong in one of 8 ways
  void many(long b, mc::Run& r) {
    static const int NS[] = {1, 3, 8, 40, 1}; int ns = NS[b / 16], mon = b / 8 % 2, bad = b % 8;
    for (int every : {1, 2, 3, 10, 64, 257}) {
      int n = thorough ? 6000 : 1200; if (b / 16 == 4) { n = 70000; if (every != 257) continue; }
      if (!r.enter([&] { return mc::fmt("%d signals, %s, %d samples, a wrong one (kind %d) after every %d", ns, mon ? "monitor" : "driver", n, bad, every); })) continue;
      std::string decl = "signal x"; for (int k = 1; k < ns; k++) decl += ", x" + std::to_string(k);
      STLDriver d; if (!d.parse_string(decl + "\nphi := ev_[0, 1] (x[t] > 0)")) { r.fail("does not parse"); continue; }
      STLMonitor m = d.get_monitor("phi"); std::vector<Row> model; double t = -1; bool ok = true;
      auto add = [&](const Row& s, bool good) {
        bool thrown = false; try { if (mon) m.add_sample(s); else d.add_sample(s); } catch (const std::exception&) { thrown = true; }
        if (good) model.push_back(s); r.transitions(1); r.states(1);
        if (thrown == good) { r.fail(mc::fmt("sample %zu %s", model.size(), good ? "was rejected" : "was not rejected")); ok = false; }
      };
      for (int i = 0; i < n && ok; i++) {
        t += i % 3 ? 0.1 : 1. / (1 + i); Row s{t}; for (int k = 0; k < ns; k++) s.push_back((i * 7 + k * 3) % 11 - 5 + i * 1e-3);
        add(s, true);
        if (!ok || i % every) continue;
        Row w = s; w[0] = t + 1;
        switch (bad) { case 0: w[0] = t; break; case 1: w[0] = std::nextafter(t, -9); break; case 2: w[0] = model.front()[0]; break; case 3: w[0] = NAN; break; case 4: w.pop_back(); break; case 5: w.push_back(1); break; case 6: w.clear(); break; default: w.insert(w.end(), w.begin(), w.end()); }
        add(w, false);
      }
      r.nontrivial(); r.outcome(model.size());
      if (ok && !eq(mon ? m.data : d.data, model)) { r.fail("the samples stored are not those accepted"); continue; }
      if (!ok) continue;
      STLDriver f; f.parse_string(decl + "\nphi := ev_[0, 1] (x[t] > 0)"); f.data = model;
      for (double at : {-0.25, t - 2, t - 0.5}) {
        auto e = f.get_online_rob("phi", at); std::vector<double> g; if (mon) { double q = m.eval_rob(at); g = {q, m.get_lower_rob(), m.get_upper_rob()}; } else g = d.get_online_rob("phi", at);
        if (g != e) { r.fail("the answer is not the one of the admitted samples"); break; }
      }
    }
  }
  std::string bounds() override {
    return mc::fmt("1, 2 and 3 signals, on a driver and on a monitor; every sequence of %d out of %d operations: samples at 9 times (before, at, just after and long after the last one, infinite, NaN), samples with a value missing, one too many, none at all, only declared signals' values, one more signal declared, data cleared, evaluation; %d samples of 1, 3, 8 and 40 signals with a wrong attempt of 8 kinds after every 1 to 257; 70000 samples of 1 signal", depth(), NOPS, thorough ? 6000 : 1200);
  }
  // NaN-proof equality
  static bool eq(const std::vector<Row>& a, const std::vector<Row>& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) { if (a[i].size() != b[i].size()) return false; if (!a[i].empty() && memcmp(a[i].data(), b[i].data(), 8 * a[i].size())) return false; }
    return true;
  }
  static const char* opname(int o) {
    static const char* N[] = {"t=-1", "t=0", "t=.5", "t=.5-", "t=.5+", "t=1", "t=2", "t=inf", "t=nan", "t=-inf", "short t=9", "long t=9", "no values", "long t=.5", "eval", "clear data", "declare"};
    return N[o];
  }
  void run(long b, mc::Run& r) override {
    if (b >= 3L * 2 * NOPS * NOPS) { many(b - 3L * 2 * NOPS * NOPS, r); return; }
    int ns = b / (NOPS * NOPS) / 2 + 1, mon = b / (NOPS * NOPS) % 2, o0 = b / NOPS % NOPS, o1 = b % NOPS;
    const double TT[] = {-1, 0, 0.5, std::nextafter(0.5, 0), std::nextafter(0.5, 1), 1, 2, INF, std::nan(""), -INF};
    static const char* S[] = {"signal x", "signal x, y", "signal x, y, w"};
    product(depth() - 2, NOPS, [&](std::vector<int>& rest) {
      std::vector<int> ops{o0, o1}; ops.insert(ops.end(), rest.begin(), rest.end());
      if (!r.enter([&] { std::string s = mc::fmt("%s, %s: ", S[ns - 1], mon ? "monitor" : "driver"); for (int o : ops) s += std::string(opname(o)) + "; "; return s; })) return;
      STLDriver d; d.parse_string(std::string(S[ns - 1]) + "\nphi := ev_[0, 1] (x[t] > 0)");
      STLMonitor m = d.get_monitor("phi");
      std::vector<Row> model, other; int dim = ns + 1;
      double v = 1;
      auto chk = [&](const char* o) {
        const std::vector<Row>&got = mon ? m.data : d.data, &oth = mon ? d.data : m.data;
        if (!eq(got, model)) { r.fail(mc::fmt("after %s: %zu samples stored, %zu expected: ", o, got.size(), model.size()) + rows_text(got)); return false; }
        if (!eq(oth, other)) { r.fail(mc::fmt("after %s: the data of the other object changed", o)); return false; }
        return true;
      };
      r.states(1);
      for (int o : ops) {
        r.transitions(1); r.states(1);
        if (o < 14) {
          Row s;
          if (o < 10) { s.push_back(TT[o]); for (int k = 1; k < dim; k++) s.push_back(v += 0.5); }
          else if (o == 12) ;
          else { s.push_back(o == 13 ? 0.5 : 9); for (int k = 0; k < (o == 10 ? dim - 2 : dim); k++) s.push_back(v += 0.5); }
          bool good = (int)s.size() == dim && !std::isnan(s[0]) && (model.empty() || s[0] > model.back()[0]), thrown = false;
          try { if (mon) m.add_sample(s); else d.add_sample(s); } catch (const std::exception&) { thrown = true; }
          if (good) { model.push_back(s); r.nontrivial(); }
          r.outcome(good + 2 * model.size());
          if (thrown == good) { r.fail(mc::fmt("%s %s", opname(o), good ? "was rejected" : "was not rejected")); return; }
        } else if (o == 14) {
          bool fin = !model.empty() && model[0][0] <= 0; for (auto& x : model) if (!std::isfinite(x[0])) fin = false;
          if (fin) {
            STLDriver f; f.parse_string("signal x\nphi := ev_[0, 1] (x[t] > 0)"); f.data = model;
            auto e = f.get_online_rob("phi", 0.);
            std::vector<double> g; if (mon) { double q = m.eval_rob(0); g = {q, m.get_lower_rob(), m.get_upper_rob()}; } else g = d.get_online_rob("phi", 0.);
            if (g != e) { r.fail("the answer is not the one of the admitted samples"); return; }
          }
        } else if (o == 15) { if (mon) m.reset_signal_data(); else d.data.clear(); model.clear(); }
        else { if (mon) continue; if (!d.parse_string(mc::fmt("signal z%d", dim))) { r.fail("declaration rejected"); return; } dim++; }
        if (!chk(opname(o))) return;
      }
    });
  }
};
int main(int c, char** v) { P p; return mc::explore_main(p, c, v); }
