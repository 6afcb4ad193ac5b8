// C21: every sequence of operations on the legacy test queue of a driver (parsing test blocks, listing tests
// again with and without local parameters, changing parameters and data, running, popping, copying, moving,
// clearing), compared after each operation with an abstract model of queue, report, log, counters and flag.
// The robustness of a listed formula is that of the formula with its parameters as literals.
#include "gen.hpp"
using namespace gen;
using STLRom::STLDriver; using STLRom::STLMonitor;
typedef std::map<std::string, double> PM;

struct MTest { std::string id; PM local; int f; std::string pos, neg; bool err; };
struct MTrace { std::string id, env; double sim; bool visu; std::vector<MTest> t; };
struct Model {
  PM params; int gen = 0;                      // gen: which definitions of phi and psi
  bool defined = true; int data = 0;
  int interp = 1, sem = 0;
  std::map<std::string, MTest> map; std::vector<MTrace> q;
  std::string report, log; int pos = 0, total = 0; bool flag = false;
};

struct P : mc::Property {
  static const int NOPS = 26;
  std::map<std::string, double> cache;
  int depth() { return thorough ? 5 : 4; }
  long blocks() override { return (thorough ? 5L : 2L) * NOPS * NOPS; }
  double case_limit() override { return 20; }
  std::string bounds() override {
    return mc::fmt("%s, every sequence of %d out of %d operations: four kinds of test blocks, listing and adding tests (known, unknown, with local parameters, with a formula), adding a trace test, changing a parameter or the data, interpolation, semantics, running, running and copying, popping, evaluating, copying (original used and destroyed), assigning over another driver, moving, clearing, defining again, dumping the log", thorough ? "5 starting states (two blocks run; tests listed again; one test block queued; nothing queued; two blocks queued)" : "2 starting states (two blocks run; tests listed again)", depth(), NOPS);
  }
  static const char* opname(int o) {
    static const char* N[] = {"block a", "block b c", "list a, b(p=3), a(q=-5)", "list c", "set p=2", "param q=1", "data A", "data B", "run", "run_next", "pop", "add a", "add b(q=1)", "add unknown", "add with formula",
      "add trace test", "copy", "assign", "move", "clear", "define again", "toggle interpolation", "evaluate phi", "dump log", "toggle semantics", "list b(p=1,q=.5) c"};
    return N[o];
  }
  static std::string ftext(int f, double p, double q) {
    switch (f) {
      case 0: return "ev_[0, " + num(p) + "] (x[t] > " + num(q) + ")";
      case 1: return "alw_[0, " + num(p) + "] (x[t] < 2)";
      case 2: return "alw_[0, " + num(p) + "] (x[t] > " + num(q) + ")";
      default: return "(x[t] < " + num(q) + ") or (ev_[0, " + num(p) + "] (x[t] < 0))";
    }
  }
  static std::vector<std::vector<double>> data(int k) {
    switch (k) { case 1: return {{0, -1}, {1, 0.5}, {2, 3}, {3, 3}}; case 2: return {{0, 4}, {2, -2}, {4, 1}}; default: return {}; }
  }
  double rob(int f, const PM& p, const Model& m) {
    std::string t = ftext(f, p.at("p"), p.at("q")), key = t + mc::fmt("|%d%d%d", m.data, m.interp, m.sem);
    auto it = cache.find(key); if (it != cache.end()) return it->second;
    STLDriver d; if (!d.parse_string("signal x\nphi := " + t)) throw std::runtime_error("literal text rejected");
    d.data = data(m.data); d.set_interpol(m.interp ? "LINEAR" : "PREVIOUS"); d.set_semantics(m.sem ? "LEFT_TIME" : "SPACE");
    return cache[key] = d.get_monitor("phi").eval_rob(0);
  }
  static std::string show(double d) { std::ostringstream o; o << d; return o.str(); }
  static bool parse(STLDriver& d, const char* s) { try { return d.parse_string(s); } catch (const std::exception&) { return false; } }
  static void noise(STLDriver& d) {                      // uses and changes a driver that nobody should notice
    try { d.set_param("p", 7); if (!d.data.empty()) d.run_tests(); d.clear(); } catch (const std::exception&) {}
  }
  void add(Model& m, const std::string& id, const PM& l) {
    m.total++;
    auto i = m.map.find(id);
    if (!m.q.empty() && i != m.map.end()) { m.q.back().t.push_back(i->second); m.q.back().t.back().local = l; }
  }
  void put(Model& m, const MTest& t) { m.total++; if (!m.q.empty()) { m.map[t.id] = t; m.q.back().t.push_back(t); } }
  void mrun(Model& m) {
    m.flag = false;
    if (!m.q.empty()) {
      m.report += "stl_test " + m.q[0].id + "\n";
      for (auto& t : m.q[0].t) {
        PM p = m.params; for (auto& k : t.local) p[k.first] = k.second;
        double v = rob(t.f, p, m);
        m.log += t.id + ": " + show(v) + "\n";
        m.report += "    " + t.id + ": " + show(v) + (v > 0 ? "  --> PB\n" : "  --> OK\n");
        const std::string& x = v > 0 ? t.pos : t.neg;
        if (!x.empty()) m.report += "    " + x + "\n";
        if (v > 0) { m.pos++; if (t.err) m.flag = true; }
      }
      m.q.erase(m.q.begin());
    }
    m.report += "\n";
  }
  // 1 done, 0 does not apply, -1 failed
  int step(int o, STLDriver*& d, Model& m, mc::Run& r) {
    int f0 = m.gen ? 2 : 0, f1 = m.gen ? 3 : 1;
    bool ab = m.map.count("a") && m.map.count("b");
    auto want = [&](bool ok) { if (!ok) { r.fail(mc::fmt("%s was rejected", opname(o))); return -1; } return 1; };
    switch (o) {
      case 0:
        if (!m.defined || m.map.count("a")) return 0;
        m.q.push_back({"T1", "env1", 0, false, {}}); put(m, {"a", {}, f0, "P", "N", true});
        return want(parse(*d, "test T1: \"env1\" { a { phi, \"P\", \"N\", true } }"));
      case 1:
        if (!m.defined || m.map.count("b") || m.map.count("c")) return 0;
        m.q.push_back({"T2", "env2", 10, false, {}}); put(m, {"b", {{"p", 2}}, f0, "", "N2", false}); put(m, {"c", {{"p", 0.5}, {"q", -1}}, f1, "PP", "", true});
        return want(parse(*d, "test T2: \"env2\", 10, false { b (p = 2) { phi, \"\", \"N2\", false }\n c (p = 0.5, q = -1) { psi, \"PP\", \"\", true } }"));
      case 2:
        if (!ab) return 0;
        m.q.push_back({"T3", "env3", 5, true, {}}); add(m, "a", {}); add(m, "b", {{"p", 3}}); add(m, "a", {{"q", -5}});
        return want(parse(*d, "test T3: \"env3\", 5, true { a b (p = 3) a (q = -5) }"));
      case 3:
        if (!m.map.count("c")) return 0;
        m.q.push_back({"T4", "", 0, false, {}}); add(m, "c", {});
        return want(parse(*d, "test T4: \"\" { c }"));
      case 25:
        if (!ab || !m.map.count("c")) return 0;
        m.q.push_back({"T5", "e5", 0.25, false, {}}); add(m, "b", {{"p", 1}, {"q", 0.5}}); add(m, "c", {});
        return want(parse(*d, "test T5: \"e5\", 0.25, false { b (p = 1, q = 0.5) c }"));
      case 4: if (!m.defined) return 0; m.params["p"] = 2; d->set_param("p", 2); return 1;
      case 5: if (!m.defined) return 0; m.params["q"] = 1; return want(parse(*d, "param q = 1"));
      case 6: case 7: m.data = o - 5; d->data = data(m.data); return 1;
      case 8: case 9: {
        if (!m.data && !m.q.empty()) return 0;
        bool ret = false;
        try { if (o == 8) ret = d->run_tests(); else d->run_next_trace_test(); } catch (const std::exception& e) { r.fail(std::string("running throws ") + e.what()); return -1; }
        mrun(m); if (o == 8 && ret != m.flag) { r.fail("run_tests returns the wrong error flag"); return -1; }
        if (m.report.size() > 1) r.nontrivial();
        return 1; }
      case 10: d->pop_next_trace_test(); if (!m.q.empty()) m.q.erase(m.q.begin()); return 1;
      case 11: d->add_stl_test("a"); add(m, "a", {}); return 1;
      case 12: d->add_stl_test("b", PM{{"q", 1}}); add(m, "b", {{"q", 1}}); return 1;
      case 13: d->add_stl_test("unknown"); add(m, "unknown", {}); return 1;
      case 14:
        if (!m.defined) return 0;
        if (!m.map.count("z")) { d->add_stl_test("z", PM{{"q", -3}}, d->formula_map["phi"], "ZP", "ZN", true); put(m, {"z", {{"q", -3}}, f0, "ZP", "ZN", true}); }
        else { d->add_stl_test("z", PM{{"p", 3}}, d->formula_map["psi"], "", "ZN2", false); put(m, {"z", {{"p", 3}}, f1, "", "ZN2", false}); }
        return 1;
      case 15: d->add_trace_test("H", "envH", 3, true); m.q.push_back({"H", "envH", 3, true, {}}); return 1;
      case 16: { STLDriver* n = new STLDriver(*d); noise(*d); delete d; d = n; return 1; }
      case 17: {
        STLDriver* n = new STLDriver; n->parse_string("signal u, v\nparam p = 9, w = 3\nchi := u[t] > w\ntest X: \"x\" { a { chi, \"1\", \"2\", true } g { chi, \"\", \"\", false } }");
        n->data = {{0, 1, 2}}; n->set_interpol("PREVIOUS"); n->run_tests(); n->add_trace_test("Y", "y", 1, true); n->add_stl_test("g");
        *n = *d; noise(*d); delete d; d = n; return 1; }
      case 18: { STLDriver* n = new STLDriver(std::move(*d)); delete d; d = n; return 1; }
      case 19: d->clear(); { int dt = m.data, i = m.interp, s = m.sem, g = m.gen; m = Model(); m.data = dt; m.interp = i; m.sem = s; m.gen = g; m.defined = false; } return 1;
      case 20:
        if (m.defined) return 0;
        m.defined = true; m.gen = 1; m.params = {{"p", 1}, {"q", 0}};
        return want(parse(*d, "param p = 1, q = 0\nphi := alw_[0, p] (x[t] > q)\npsi := (x[t] < q) or (ev_[0, p] (x[t] < 0))"));
      case 21: m.interp ^= 1; d->set_interpol(m.interp ? "LINEAR" : "PREVIOUS"); return 1;
      case 22: {
        if (!m.defined || !m.data) return 0;
        double v = d->get_online_rob("phi", 0.5)[0]; (void)v; STLMonitor mo = d->get_monitor("psi"); mo.set_param("q", 4); mo.eval_rob(1); return 1; }
      case 23: {
        const char* dir = getenv("VERIF_SCRATCH"); std::string fn = std::string(dir ? dir : "/tmp") + mc::fmt("/log.%d.txt", (int)getpid());
        if (!d->dump_test_log_file(fn)) { r.fail("the log is not written"); return -1; }
        std::ifstream i(fn.c_str()); std::stringstream s; s << i.rdbuf();
        if (s.str() != m.log + "\nNumber of positive STL tests: " + mc::fmt("%d/%d", m.pos, m.total)) { r.fail("the log file has: " + s.str()); return -1; }
        return 1; }
      default: m.sem ^= 1; d->set_semantics(m.sem ? "LEFT_TIME" : "SPACE"); return 1;
    }
  }
  bool check(STLDriver& d, Model& m, mc::Run& r, const char* o) {
    auto bad = [&](const std::string& s) { r.fail(mc::fmt("after %s: ", o) + s); return false; };
    if (d.report != m.report) return bad("report is\n" + d.report + "expected\n" + m.report);
    if (d.test_log != m.log) return bad("log is\n" + d.test_log + "expected\n" + m.log);
    if (d.nb_test_pos != m.pos || d.nb_test_total != m.total) return bad(mc::fmt("counters %d/%d, expected %d/%d", d.nb_test_pos, d.nb_test_total, m.pos, m.total));
    if (d.error_flag != m.flag) return bad("error flag is wrong");
    if (d.trace_test_queue.size() != m.q.size()) return bad(mc::fmt("%zu trace tests queued, expected %zu", d.trace_test_queue.size(), m.q.size()));
    if (d.trace_test_queue_empty() != m.q.empty() || (d.get_next_trace_test() == nullptr) != m.q.empty()) return bad("emptiness of the queue is wrong");
    if (d.get_next_trace_test_env() != (m.q.empty() ? "" : m.q[0].env)) return bad("environment of the next trace test is wrong");
    bool nx = !m.q.empty() && !m.q[0].t.empty();
    if ((d.get_next_formula() != nullptr) != nx || (d.get_next_stl_test() != nullptr) != nx) return bad("next test is wrong");
    if (nx && d.get_next_stl_test()->test_id != m.q[0].t[0].id) return bad("next test has the wrong name");
    for (size_t i = 0; i < m.q.size(); i++) {
      auto& a = d.trace_test_queue[i]; auto& b = m.q[i];
      if (a.id != b.id || a.env != b.env || a.sim_time != b.sim || a.visu != b.visu) return bad("trace test " + b.id + " is queued as " + a.id);
      if (a.tests.size() != b.t.size()) return bad(mc::fmt("%zu tests in ", a.tests.size()) + b.id + mc::fmt(", expected %zu", b.t.size()));
      for (size_t k = 0; k < b.t.size(); k++) {
        auto& s = a.tests[k]; auto& t = b.t[k];
        if (s.test_id != t.id || s.param_map != t.local || s.report_positive != t.pos || s.report_negative != t.neg || s.is_error != t.err || !s.formula) return bad("test " + t.id + " in " + b.id + " is queued with other contents");
      }
    }
    if (d.stl_test_map.size() != m.map.size()) return bad("the set of known tests is wrong");
    for (auto& k : m.map) if (!d.stl_test_map.count(k.first)) return bad("test " + k.first + " is not known");
    if (d.param_map != m.params) return bad("the parameters changed");
    if (d.data != data(m.data)) return bad("the data changed");
    return true;
  }
  void run(long b, mc::Run& r) override {
    int st = b / (NOPS * NOPS), o0 = b / NOPS % NOPS, o1 = b % NOPS;
    static const std::vector<int> S[] = {{6, 1, 0, 8, 8}, {0, 1, 2, 6}, {6, 0}, {}, {0, 7, 1}};
    product(depth() - 2, NOPS, [&](std::vector<int>& rest) {
      std::vector<int> ops = S[st]; ops.push_back(o0); ops.push_back(o1); ops.insert(ops.end(), rest.begin(), rest.end());
      if (!r.enter([&] { std::string s; for (int o : ops) s += std::string(opname(o)) + "; "; return s; })) return;
      STLDriver* d = new STLDriver;
      Model m; m.params = {{"p", 1}, {"q", 0}};
      d->parse_string("signal x\nparam p = 1, q = 0\nphi := ev_[0, p] (x[t] > q)\npsi := alw_[0, p] (x[t] < 2)");
      r.states(1);
      bool go = true;
      for (int o : ops) {
        if (!go) break;
        int k = step(o, d, m, r);
        if (k == 0) continue;
        r.transitions(1); r.states(1);
        go = k > 0 && check(*d, m, r, opname(o));
      }
      // in the end everything that is queued is run
      for (int n = 0; go && n < 6 && m.data && !m.q.empty(); n++) { go = step(8, d, m, r) > 0 && check(*d, m, r, "running the rest"); }
      r.outcome_hash(std::hash<std::string>()(m.report) + m.pos);
      delete d;
    });
  }
};
int main(int c, char** v) { P p; return mc::explore_main(p, c, v); }
