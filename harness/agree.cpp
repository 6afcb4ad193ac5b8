// C24: for every formula, data, mode, parameter value and window, every way of feeding the data and of asking for
// the answer must give the same answer, bit for bit.
#include "gen.hpp"
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace gen;
using STLRom::STLDriver; using STLRom::STLMonitor; using STLRom::Signal;

struct P : mc::Property {
  typedef std::vector<std::vector<double>> Rows;
  std::vector<FP> F; long nL1 = 0; std::vector<Rows> D; std::vector<Iv> W = {{0, 0}, {0.5, 0.5}, {0, 1}, {0.25, 1.5}, {1, 4}, {-1, -1}, {-0.5, 0.5}, {5, 5}, {7, 8}, {1, 0.5}};
  static FP named(FOp o, FP l, FP r, std::string a, std::string b) { FP f = temp(o, 0, 0, l, r); f->an = a; f->bn = b; return f; }
  void init() override {
    std::vector<FP> A = {xg(0), yl(1), atom(F_GT, ebin(E_MUL, sig(1), par("p")), sig(2))}, L1, L2;
    auto level = [&](const std::vector<FP>& S, const std::vector<FP>& O, std::vector<FP>& v) {
      for (auto& a : S) { v.push_back(un(F_NOT, a)); for (FOp o : {F_EV, F_ALW}) { v.push_back(temp(o, 0, 1, a)); v.push_back(temp(o, 0.5, 2, a)); v.push_back(named(o, a, 0, "p", "q")); }
        for (auto& b : O) { for (FOp o : {F_AND, F_OR, F_IMP}) v.push_back(bin(o, a, b)); v.push_back(temp(F_UNTIL, 0, 1, a, b)); v.push_back(named(F_UNTIL, b, a, "p", "q")); } }
    };
    level(A, A, L1); nL1 = A.size() + L1.size(); level(L1, thorough ? A : std::vector<FP>{A[1]}, L2);
    F = A; F.insert(F.end(), L1.begin(), L1.end()); F.insert(F.end(), L2.begin(), L2.end());
    const double V[][2] = {{-2, 2}, {3, -1}, {1, 0.5}};
    for (auto& G : std::vector<std::vector<double>>{{0, 0.75, 1.5}, {-1, 0.5, 3}, {0.25, 1, 4}, {0, 5}, {2}}) product(G.size(), 3, [&](std::vector<int>& k) {
      if (!thorough && G.size() == 3 && (k[0] + k[1] + k[2]) % 2) return;
      Rows r; for (size_t i = 0; i < G.size(); i++) r.push_back({G[i], V[k[i]][0], V[k[i]][1]}); D.push_back(r); });
    for (int q = 0; q < 3; q++) { Rows r; for (int i = 0; i < 9; i++) r.push_back({0.5 * i + (q == 2 ? 0.125 : 0), V[(i + q) % 3][0] + (i % 4) * 0.5, V[i * (q + 1) % 3][1]}); D.push_back(r); }
  }
  long blocks() override { return (long)F.size() * 6; }
  std::string bounds() override { return mc::fmt("%zu formulas (every formula of depth 2 over 3 predicates), %zu traces (half of them each for depth 2, in quick), %zu windows, 3 semantics, both interpolations, 2 parameter values; asked by eval_rob with one, two and no arguments (set_eval_time before), by get_online_rob with and without a time, by the files of dump, by a monitor fed sample by sample, one whose data were assigned, one of a driver built from the data, one of a file, copies, repeated", F.size(), D.size(), W.size()); }
  struct Ans { std::vector<double> v; bool threw = false; };
  static bool same(const Ans& a, const Ans& b) { return a.threw == b.threw && a.v.size() == b.v.size() && (a.v.empty() || !memcmp(a.v.data(), b.v.data(), 8 * a.v.size())); }
  static std::string str(const Ans& a) { if (a.threw) return "an exception"; std::string s; for (size_t i = 0; i < a.v.size() && i < 3; i++) s += mc::fmt("%s%.17g", i ? " " : "", a.v[i]); return s; }
  // whatever was evaluated last, in whatever modes, must not matter
  static void decoy() {
    static STLDriver d; static std::vector<STLMonitor> m; static int i = 0;
    if (m.empty()) { d.parse_string("signal z\nphi := z[t] > 0"); d.add_sample({0, 1}); for (int k = 0; k < 6; k++) { m.push_back(d.get_monitor("phi")); m[k].set_semantics((const char*[]){"SPACE", "LEFT_TIME", "RIGHT_TIME"}[k % 3]); m[k].set_interpol(k / 3 ? "PREVIOUS" : "LINEAR"); } }
    m[i = (i + 1) % 6].eval_rob();
  }
  template <class G> static Ans ask(STLMonitor& m, G g, bool sig = true) {
    Ans a; decoy();
    try {
      double x = g(); a.v = {x, m.get_lower_rob(), m.get_upper_rob()}; if (x != m.get_rob()) a.v.push_back(1e99);
      if (sig) { auto q = m.get_signal(); a.v.push_back(q.beginTime); a.v.push_back(q.endTime); for (auto& s : q) { a.v.push_back(s.time); a.v.push_back(s.value); a.v.push_back(s.derivative); } }
    } catch (std::exception&) { a.v.clear(); a.threw = true; }
    return a;
  }
  static Ans online(STLDriver& d, const char* f, double t) { Ans a; decoy(); try { a.v = d.get_online_rob(f, t); } catch (std::exception&) { a.threw = true; } return a; }
  static std::string scratch() { const char* d = getenv("VERIF_SCRATCH"); return std::string(d ? d : "/tmp") + mc::fmt("/agree.%d", (int)getpid()); }
  void run(long b, mc::Run& r) override {
    const FP& f = F[b / 6]; int mode = b % 6;
    static const char* SEM[] = {"SPACE", "LEFT_TIME", "RIGHT_TIME"}; static const char* INT[] = {"LINEAR", "PREVIOUS"};
    const char *sem = SEM[mode / 2], *in = INT[mode % 2];
    std::string text = strF(f), spec = "signal x, y\nparam p = 0.5, q = 1.5\nphi := " + text + "\npsi := not phi\n";
    STLDriver d; d.parse_string(spec); d.set_semantics(sem); d.set_interpol(in);
    auto c = d.get_monitor("phi");                                // fed sample by sample
    std::string fn = scratch();
    for (size_t k = 0; k < D.size(); k++) for (int p = 0; p < 2; p++) {
      if (p && f->an.empty() && text.find("p") == std::string::npos) continue;
      const Rows& rows = D[k];
      if (!thorough && b / 6 >= nL1 && (k + b / 6) % 2) continue;
      if (!r.enter([&] { return text + " " + sem + " " + in + (p ? " p = 1" : "") + " trace " + rows_text(rows); })) continue;
      d.data.clear(); for (auto& s : rows) d.add_sample(s);
      d.set_param("p", p ? 1 : 0.5);
      auto a = d.get_monitor("phi");                              // takes data, modes and parameters from the driver
      STLMonitor w = a;
      c.reset_signal_data(); for (auto& s : rows) c.add_sample(s);
      c.set_param("p", p ? 1 : 0.5);
      STLDriver e(rows); e.parse_string(spec);
      auto g = e.get_monitor("phi"); g.set_semantics(sem); g.set_interpol(in); g.set_param("p", p ? 1 : 0.5);
      if (k % 4 == 0) { d.dump_trace_file(fn); STLDriver h; h.parse_string(spec); if (!h.read_trace_file(fn)) { r.fail("the trace file cannot be read"); return; } g = h.get_monitor("phi"); g.set_semantics(sem); g.set_interpol(in); g.set_param("p", p ? 1 : 0.5); }
      r.states(rows.size()); bool nt = false;
      auto fresh = ask(a, [&] { return a.eval_rob(); });          // nothing set: at 0
      for (auto& v : W) {
        Ans x = ask(a, [&] { return a.eval_rob(v.first, v.second); });
        auto cmp = [&](const char* how, const Ans& y) { r.transitions(1); if (!same(x, y)) { r.fail(mc::fmt("over [%g,%g]: eval_rob gives %s; %s %s", v.first, v.second, str(x).c_str(), how, str(y).c_str())); return false; } return true; };
        r.outcome(x.threw || x.v.empty() ? 0 : x.v[0]);
        if (!x.threw && x.v[1] != x.v[2]) nt = true;
        if (!x.threw && x.v.size() > 6 && x.v[5] == v.first && x.v[6] != x.v[0]) { r.fail("eval_rob is not the first value of the signal"); return; }
        if (!cmp("asked again", ask(a, [&] { return a.eval_rob(v.first, v.second); }))) return;
        if (!cmp("after set_eval_time", ask(w, [&] { w.set_eval_time(v.first, v.second); return w.eval_rob(); }))) return;
        if (!cmp("a monitor fed sample by sample", ask(c, [&] { return c.eval_rob(v.first, v.second); }))) return;
        if (!cmp("a monitor of another driver", ask(g, [&] { return g.eval_rob(v.first, v.second); }))) return;
        { STLMonitor z(c); if (!cmp("a copy", ask(z, [&] { return z.eval_rob(v.first, v.second); }))) return; }
        if (v.first == v.second) {
          if (!cmp("eval_rob of the time", ask(w, [&] { return w.eval_rob(v.first); }))) return;
          x.v.resize(std::min<size_t>(x.v.size(), 3));
          if (!cmp("get_online_rob", online(d, "phi", v.first))) return;
          if (v.first == 0) {
            Ans o; decoy(); try { o.v = d.get_online_rob("phi"); } catch (std::exception&) { o.threw = true; }
            if (!cmp("get_online_rob without a time", o)) return;
            Ans z = fresh; z.v.resize(std::min<size_t>(z.v.size(), 3)); if (!cmp("eval_rob without a time", z)) return;
          }
        }
      }
      if (p == 0 && k % 2 == 0) {                                 // dump: the signal at 0 of every formula
        char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) throw std::runtime_error("getcwd");
        std::string dir = fn + ".d"; mkdir(dir.c_str(), 0700); if (chdir(dir.c_str())) throw std::runtime_error("chdir");
        decoy(); bool threw = false; try { d.dump(); } catch (std::exception&) { threw = true; }
        for (const char* nm : {"phi", "psi"}) {
          auto m = d.get_monitor(nm); Ans x = ask(m, [&] { return m.eval_rob(0); });
          r.transitions(1);
          if (x.threw != threw) { r.fail("dump: exception"); break; }
          if (threw) continue;
          std::ifstream is((std::string(nm) + ".out").c_str()); std::string l; size_t i = 0; auto q = m.get_signal(); bool ok = is.is_open();
          while (ok && std::getline(is, l)) { double t, u, s; ok = i < q.size() && sscanf(l.c_str(), "%lf %lf %lf", &t, &u, &s) == 3 && close(t, q[i].time, 1e-7) && close(u, q[i].value, 1e-7) && (q[i].time >= q.endTime || close(s, q[i].derivative, 1e-7)); i++; }
          if (!ok || i != q.size()) { r.fail(mc::fmt("%s.out, line %zu: '%s'; signal at 0: ", nm, i, l.c_str()) + sigtext(q)); break; }
        }
        unlink("phi.out"); unlink("psi.out"); if (chdir(cwd)) throw std::runtime_error("chdir"); rmdir(dir.c_str());
      }
      if (nt) r.nontrivial();
    }
    unlink(fn.c_str());
  }
};
int main(int c, char** v) { P p; return mc::explore_main(p, c, v); }
