// Drivers, monitors and signals, and the operations that C17 and C22 apply to them.
#pragma once
#include "gen.hpp"
#include <sys/stat.h>
using namespace gen;
using STLRom::Signal; using STLRom::STLDriver; using STLRom::STLMonitor; using STLRom::Interpol; using STLRom::Semantics;

struct Obs {                                     // what a sequence lets one see
  std::vector<double> v; std::string s;
  void d(double x) { v.push_back(x); }
  void sig(const Signal& z) { d(z.size()); d(z.beginTime); d(z.endTime); for (auto& p : z) { d(p.time); d(p.value); d(p.derivative); } }
  bool operator==(const Obs& o) const {
    if (s != o.s || v.size() != o.v.size()) return false;
    for (size_t i = 0; i < v.size(); i++) if (!(v[i] == o.v[i]) && !(std::isnan(v[i]) && std::isnan(o.v[i]))) return false;
    return true;
  }
};
typedef std::vector<std::vector<double>> Rows;
static const double NaN = std::nan("");
static const std::vector<Rows> D = {
  {},
  {{0, 1, -1}},
  {{0, 1, -1}, {1, -2, 0.5}, {2, 3, 2}, {4, 0.25, -1}, {7, -1, 1}},
  {{3, 1, -1}, {4, -2, 2}},
  {{-2, 1, -1}, {-1, 2, 0}, {0.5, -2, 0.5}},
  {{0, 1, 2}, {1}, {2, 3}},
  {{}},
  {{0, 1, 2, 3, 4}, {1, 1e308, -1e308, 0, 0}, {2, -1e308, 1e308, 1, 1}},
  {{0, 0, 0}, {1, NaN, 1}, {2, 1, INF}, {3, 1, -INF}},
  {{1, 1, 1}, {0, 2, 2}, {1, 3, 3}, {1, 0, 0}, {2, -1, -1}},
};
static const std::vector<std::string> W = {
  "signal x, y\nparam p = 1, q = 2\nphi := ev_[0, p] (x[t] > 0)\npsi := phi until_[0.5, q] (y[t] < p)\n",
  "signal x, y\nparam p = 0.5, q = 2\nphi := alw_[p, q] (ev_[0, 1] (x[t] + y[t] > p))\npsi := (x[t] > 0) until_[p, 1] (phi or (y[t] > q))\n",
  "signal x, y\nparam p = 1, q = 2\nphi := (ev_[2, 1] (x[t] > 0)) and (alw_[-1, p] (y[t] > 0))\npsi := phi until_[2, 1] (x[t] > p)\n",
  "signal x, y\nparam p = 1, q = 2\nphi := (1 > p) => ((abs(x[t]) + y[t]) < (p * q))\npsi := not (ev_[0, 100000000] (p > x[t]))\n",
};
struct World {
  std::string dir; STLDriver d; STLMonitor m, m2; Signal s[3];
  void spec(int w) { d.parse_string(W[w]); d.parse_string("test T1: \"e\", 1, true { a { phi, \"P\", \"N\", true } b (p = 3) { psi, \"\", \"\", false } }\n"); }
};
struct Op { std::string name; std::function<void(World&, Obs&)> f; };

static void ask(STLMonitor& m, Obs& o, double s, double e) { o.d(m.eval_rob(s, e)); o.d(m.get_lower_rob()); o.d(m.get_upper_rob()); o.d(m.get_rob()); }
static void operations(std::vector<Op>& ops, std::vector<Op>& sops) {
  const double T[] = {0, -5, 0.75, 3, 50, 1e9, NaN, INF, -INF};
  for (double t : T) ops.push_back({mc::fmt("m.eval_rob(%g)", t), [t](World& w, Obs& o) { o.d(w.m.eval_rob(t)); o.d(w.m.get_lower_rob()); o.d(w.m.get_upper_rob()); }});
  const double I[][2] = {{0, 1}, {1, 0}, {-1, 0.5}, {0, INF}, {-INF, 0}, {0.5, 3}, {0, 1e-15}};
  for (auto& i : I) { double a = i[0], b = i[1]; ops.push_back({mc::fmt("m.eval_rob(%g,%g)", a, b), [a, b](World& w, Obs& o) { ask(w.m, o, a, b); }}); }
  ops.push_back({"m.set_eval_time(0.5,1); m.eval_rob()", [](World& w, Obs& o) { w.m.set_eval_time(0.5, 1); o.d(w.m.eval_rob()); }});
  ops.push_back({"m.eval_rob()", [](World& w, Obs& o) { o.d(w.m.eval_rob()); }});
  ops.push_back({"m2.eval_rob(0)", [](World& w, Obs& o) { ask(w.m2, o, 0, 0); }});
  const double T2[] = {0, -1, 0.5, 20, NaN};
  for (double t : T2) ops.push_back({mc::fmt("d.get_online_rob(psi,%g)", t), [t](World& w, Obs& o) { for (double x : w.d.get_online_rob("psi", t)) o.d(x); }});
  ops.push_back({"d.get_online_rob(phi)", [](World& w, Obs& o) { for (double x : w.d.get_online_rob("phi")) o.d(x); }});
  ops.push_back({"d.get_online_rob(nope)", [](World& w, Obs& o) { for (double x : w.d.get_online_rob("nope")) o.d(x); }});
  ops.push_back({"m.get_signal()", [](World& w, Obs& o) { o.sig(w.m.get_signal()); }});
  ops.push_back({"m2.get_signal()", [](World& w, Obs& o) { o.sig(w.m2.get_signal()); }});
  ops.push_back({"print m", [](World& w, Obs& o) { std::ostringstream s; s << w.m; o.s += s.str(); w.m.display_formula(); w.m.display_signal_names(); o.s += w.m.get_signal_names(); }});
  ops.push_back({"print d", [](World& w, Obs& o) { std::ostringstream s; w.d.print(s); w.d.print_trace(s); o.s += s.str(); }});
  ops.push_back({"d.get_signals_names()", [](World& w, Obs& o) { o.s += w.d.get_signals_names(); }});
  const char* F[] = {"phi", "psi", "nope"};
  for (auto f : F) ops.push_back({mc::fmt("m = d.get_monitor(%s)", f), [f](World& w, Obs&) { w.m = w.d.get_monitor(f); }});
  ops.push_back({"m2 = d.get_monitor(psi)", [](World& w, Obs&) { w.m2 = w.d.get_monitor("psi"); }});
  ops.push_back({"m2 = m", [](World& w, Obs&) { w.m2 = w.m; }});
  ops.push_back({"m = move(m2)", [](World& w, Obs&) { w.m = std::move(w.m2); }});
  ops.push_back({"m = m", [](World& w, Obs&) { STLMonitor& a = w.m; w.m = a; w.m = std::move(a); }});
  ops.push_back({"swap m, m2", [](World& w, Obs&) { std::swap(w.m, w.m2); }});
  ops.push_back({"copies of m", [](World& w, Obs& o) { STLMonitor a(w.m), b(a), c(std::move(a)); ask(c, o, 0, 0); b = c; w.m = std::move(c); a = b; ask(a, o, 0, 1); }});
  ops.push_back({"d = d", [](World& w, Obs&) { STLDriver& a = w.d; w.d = a; w.d = std::move(a); }});
  ops.push_back({"m = STLMonitor()", [](World& w, Obs&) { w.m = STLMonitor(); }});
  ops.push_back({"d = copy of d", [](World& w, Obs&) { STLDriver c(w.d); w.d = c; w.d = w.d; }});
  ops.push_back({"moved d", [](World& w, Obs& o) { STLDriver c(std::move(w.d)); o.s += c.get_signals_names(); }});
  ops.push_back({"d.clear()", [](World& w, Obs&) { w.d.clear(); }});
  for (size_t k = 0; k < D.size(); k++) ops.push_back({mc::fmt("d.data, m.data = #%zu", k), [k](World& w, Obs&) { w.d.data = D[k]; w.m.data = D[k]; }});
  ops.push_back({"m.add_sample, d.add_sample next", [](World& w, Obs&) {
    double t = w.m.data.empty() || w.m.data.back().empty() ? 0 : w.m.data.back()[0] + 0.5; w.m.add_sample({t, 2, -1}); w.d.add_sample({t, 2, -1}); }});
  ops.push_back({"m.add_sample wrong", [](World& w, Obs&) { w.m.add_sample({1}); }});
  ops.push_back({"d.add_sample wrong", [](World& w, Obs&) { w.d.add_sample({}); }});
  ops.push_back({"d.add_sample t=nan", [](World& w, Obs&) { w.d.add_sample({NaN, 0, 0}); }});
  ops.push_back({"m.add_sample t=inf", [](World& w, Obs&) { w.m.add_sample({INF, 0, 0}); }});
  ops.push_back({"m.add_sample t=1e300", [](World& w, Obs&) { w.m.add_sample({1e300, 0, 0}); }});
  ops.push_back({"m.reset_signal_data()", [](World& w, Obs&) { w.m.reset_signal_data(); }});
  const double V[] = {-1, 0, 3, NaN, INF, 1e308};
  for (double v : V) ops.push_back({mc::fmt("set_param(p,%g)", v), [v](World& w, Obs& o) { w.d.set_param("p", v); o.d(w.d.get_param("p")); w.m.set_param("p", v); o.d(w.m.get_param("p")); }});
  ops.push_back({"m.set_param(nope)", [](World& w, Obs&) { w.m.set_param("nope", 1); }});
  ops.push_back({"d.set_param(nope); d.get_param(nope)", [](World& w, Obs& o) { w.d.set_param("nope", 1); o.d(w.d.get_param("nope")); }});
  ops.push_back({"m.get_param(nope)", [](World& w, Obs& o) { o.d(w.m.get_param("nope")); }});
  const char* S[] = {"LEFT_TIME", "RIGHT_TIME", "BOOLEAN", ""};
  for (auto s : S) ops.push_back({mc::fmt("set_semantics(%s)", s), [s](World& w, Obs& o) { w.m.set_semantics(s); w.d.set_semantics(s); w.m2.set_semantics(s); o.s += w.m.get_semantics(); }});
  ops.push_back({"semantics = BOOLEAN", [](World& w, Obs&) { w.m.semantics = w.d.semantics = Semantics::BOOLEAN; }});
  ops.push_back({"set_interpol(PREVIOUS)", [](World& w, Obs& o) { w.m.set_interpol("PREVIOUS"); w.d.set_interpol("PREVIOUS"); o.s += w.m.get_interpol(); }});
  ops.push_back({"set_interpol(bad)", [](World& w, Obs&) { w.m.set_interpol("bad"); }});
  ops.push_back({"parse a late signal", [](World& w, Obs& o) { o.d(w.d.parse_string("signal z\n")); o.d(w.d.parse_string("phi2 := ev_[0, 1] (z[t] > 0)")); w.m = w.d.get_monitor("phi2"); }});
  ops.push_back({"parse a late parameter", [](World& w, Obs& o) { o.d(w.d.parse_string("param r = 1 phi3 := ev_[0, r] phi")); w.m = w.d.get_monitor("phi3"); }});
  ops.push_back({"parse phi again", [](World& w, Obs& o) { o.d(w.d.parse_string("phi := x[t] > 0")); }});
  ops.push_back({"parse the same name twice", [](World& w, Obs& o) { o.d(w.d.parse_string("u := x[t] > 0 u := y[t] > 0")); for (double x : w.d.get_online_rob("u")) o.d(x); }});
  ops.push_back({"parse rubbish", [](World& w, Obs& o) { o.d(w.d.parse_string("param p = 5 u := phi and ( ev_[0, p] x[t] > ")); o.d(w.d.parse_string("test T: \"e\" { a (p = 1")); o.d(w.d.parse_string("")); o.d(w.d.parse_file("/nonexistent")); }});
  ops.push_back({"parse tests", [](World& w, Obs& o) { o.d(w.d.parse_string("test T2: \"f\" { a b (q = 0) c { phi, \"\", \"\", true } }")); }});
  ops.push_back({"parse a null interval", [](World& w, Obs& o) { o.d(w.d.parse_string("v := ev_[q, p] ((x[t] > 0) until_[p, q] (alw_[p, p] (y[t] > 0)))")); w.m = w.d.get_monitor("v"); }});
  ops.push_back({"run_tests()", [](World& w, Obs& o) { o.d(w.d.run_tests()); o.s += w.d.report + w.d.test_log; o.d(w.d.nb_test_pos); o.d(w.d.nb_test_total); }});
  ops.push_back({"pop_next_trace_test()", [](World& w, Obs& o) { w.d.pop_next_trace_test(); o.s += w.d.get_next_trace_test_env(); o.d(w.d.get_next_trace_test() != 0); o.d(w.d.trace_test_queue_empty()); }});
  ops.push_back({"get_next_formula()", [](World& w, Obs& o) { o.d(w.d.get_next_formula() != 0); o.d(w.d.get_next_stl_test() != 0); }});
  ops.push_back({"add_stl_test(a), add_stl_test(nope), add_trace_test", [](World& w, Obs& o) { w.d.add_stl_test("a"); w.d.add_stl_test("nope"); w.d.add_stl_test("nope", {{"p", 1.}}); w.d.add_trace_test("T9", "e", 0, false); o.d(w.d.nb_test_total); }});
  ops.push_back({"dump()", [](World& w, Obs&) { w.d.dump(); }});
  ops.push_back({"trace and log files", [](World& w, Obs& o) { w.d.dump_trace_file(w.dir + "/t.txt"); o.d(w.d.dump_test_log_file(w.dir + "/l.txt")); o.d(w.d.read_trace_file(w.dir + "/t.txt")); o.d(w.d.data.size()); o.d(w.d.dump_test_log_file("/nonexistent/x")); w.d.dump_trace_file("/nonexistent/x"); }});
  ops.push_back({"read a missing trace", [](World& w, Obs& o) { o.d(w.d.read_trace_file("/nonexistent/x")); }});
  ops.push_back({"BigM = 1e12", [](World&, Obs& o) { Signal::set_BigM(1e12); o.d(Signal::get_BigM()); }});
  ops.push_back({"BigM = 0.5", [](World&, Obs& o) { Signal::set_BigM(0.5); o.d(Signal::get_BigM()); }});

  // ---- signals
  auto S3 = [](int k) { return k == 0 ? "s0" : k == 1 ? "s1" : "s2"; };
  const double P3[][2] = {{0, 1}, {1, -2}, {3, 0}, {2.5, NaN}, {4, INF}, {-1, 2}};
  for (int k = 0; k < 2; k++)
    for (auto& p : P3) { double t = p[0], v = p[1]; sops.push_back({mc::fmt("%s.appendSample(%g,%g)", S3(k), t, v), [k, t, v](World& w, Obs&) { w.s[k].appendSample(t, v); }}); }
  sops.push_back({"s1.appendSample(nan,0)", [](World& w, Obs&) { w.s[1].appendSample(NaN, 0); }});
  sops.push_back({"s0.appendSample(5,1,2)", [](World& w, Obs&) { w.s[0].appendSample(5, 1, 2); }});
  sops.push_back({"s1 = signal(2 values)", [](World& w, Obs&) { double t[] = {0, 2}, v[] = {1, -3}; w.s[1] = Signal(t, v, 2); }});
  sops.push_back({"s1 = signal(1 value)", [](World& w, Obs&) { double t[] = {2}, v[] = {1}; w.s[1] = Signal(t, v, 1); }});
  sops.push_back({"s1 = signal(3 values)", [](World& w, Obs&) { double t[] = {0, 2, 2}, v[] = {1, -3, 1}; w.s[1] = Signal(t, v, 3); }});
  sops.push_back({"s2.not(s0)", [](World& w, Obs&) { w.s[2].compute_not(w.s[0]); }});
  sops.push_back({"s2.and(s0,s1)", [](World& w, Obs&) { w.s[2].compute_and(w.s[0], w.s[1]); }});
  sops.push_back({"s2.or(s1,s0)", [](World& w, Obs&) { w.s[2].compute_or(w.s[1], w.s[0]); }});
  sops.push_back({"s2.implies(s0,s1)", [](World& w, Obs&) { w.s[2].compute_implies(w.s[0], w.s[1]); }});
  sops.push_back({"s1.and(s2,s0)", [](World& w, Obs&) { w.s[1].compute_and(w.s[2], w.s[0]); }});
  sops.push_back({"s2.boolean(s0)", [](World& w, Obs&) { w.s[2].compute_boolean(w.s[0]); }});
  sops.push_back({"s2.left(s0)", [](World& w, Obs&) { w.s[2].compute_left_time_rob(w.s[0]); }});
  sops.push_back({"s2.right(s0)", [](World& w, Obs&) { w.s[2].compute_right_time_rob(w.s[0]); }});
  const double I2[][2] = {{0, 1}, {1, 1}, {0.5, 20}, {2, 1}, {0, 0}};
  for (auto& i : I2) { double a = i[0], b = i[1];
    sops.push_back({mc::fmt("s2.ev[%g,%g](s0)", a, b), [a, b](World& w, Obs&) { w.s[2].compute_timed_eventually(w.s[0], a, b); }});
    sops.push_back({mc::fmt("s2.alw[%g,%g](s0)", a, b), [a, b](World& w, Obs&) { w.s[2].compute_timed_globally(w.s[0], a, b); }});
  }
  sops.push_back({"s2.until[0,1](s0,s1)", [](World& w, Obs&) { w.s[2].compute_timed_until(w.s[0], w.s[1], 0, 1); }});
  sops.push_back({"s2.until[1,1](s0,s1)", [](World& w, Obs&) { w.s[2].compute_timed_until(w.s[0], w.s[1], 1, 1); }});
  sops.push_back({"s0.or(s0,s1)", [](World& w, Obs&) { w.s[0].compute_or(w.s[0], w.s[1]); }});
  sops.push_back({"s2.ev(s0)", [](World& w, Obs&) { w.s[2].compute_eventually(w.s[0]); }});
  sops.push_back({"s2.alw(s0)", [](World& w, Obs&) { w.s[2].compute_globally(w.s[0]); }});
  sops.push_back({"s2.until(s0,s1)", [](World& w, Obs&) { w.s[2].compute_until(w.s[0], w.s[1]); }});
  sops.push_back({"s2.bounded ev(s0,1)", [](World& w, Obs&) { w.s[2].compute_bounded_eventually(w.s[0], 1); }});
  sops.push_back({"s2.bounded alw(s0,1)", [](World& w, Obs&) { w.s[2].compute_bounded_globally(w.s[0], 1); }});
  sops.push_back({"s0.simplify()", [](World& w, Obs&) { w.s[0].simplify(); }});
  sops.push_back({"s0.resize(0.5,2,0)", [](World& w, Obs&) { w.s[0].resize(0.5, 2, 0); }});
  sops.push_back({"s0.resize(2,0,0)", [](World& w, Obs&) { w.s[0].resize(2, 0, 0); }});
  sops.push_back({"s0.resize(-3,9,1)", [](World& w, Obs&) { w.s[0].resize(-3, 9, 1); }});
  sops.push_back({"s0.shift(-1)", [](World& w, Obs&) { w.s[0].shift(-1); }});
  sops.push_back({"s0.addLastSample()", [](World& w, Obs&) { w.s[0].addLastSample(); }});
  sops.push_back({"s0.removeInf()", [](World& w, Obs&) { w.s[0].removeInf(); }});
  sops.push_back({"s0.appendSignal(s1)", [](World& w, Obs&) { w.s[0].appendSignal(w.s[1]); }});
  sops.push_back({"s0 = s2", [](World& w, Obs&) { w.s[0] = w.s[2]; }});
  sops.push_back({"s0 = s0", [](World& w, Obs&) { Signal& a = w.s[0]; w.s[0] = a; }});
  sops.push_back({"s0.endTime += 1", [](World& w, Obs&) { w.s[0].endTime += 1; }});
  sops.push_back({"interpol = PREVIOUS", [](World&, Obs&) { Signal::set_interpol("PREVIOUS"); }});
  sops.push_back({"semantics = RIGHT_TIME", [](World&, Obs&) { Signal::set_semantics("RIGHT_TIME"); }});
  sops.push_back({"print s0", [](World& w, Obs& o) { std::ostringstream s; s << w.s[0]; o.s += s.str(); }});
}
