// C19: every short sequence of operations, executed on the C++ classes and, as Python statements, through
// the module built from src/pybind11/main.cpp; everything that can be observed must be the same.
#include <pybind11/embed.h>
#include "gen.hpp"
#include <unistd.h>
using namespace gen;
namespace py = pybind11;
using STLRom::Signal; using STLRom::Sample; using STLRom::Point; using STLRom::STLDriver; using STLRom::STLMonitor; using STLRom::Interpol; using STLRom::Semantics;
extern "C" PyObject* PyInit_stlrom();

struct Obs {
  std::vector<double> v; std::string s;
  void o(double x) { v.push_back(x); }
  void o(const std::string& x) { s += x + "|"; }
  void o(const char* x) { s += std::string(x) + "|"; }
  void o(const std::vector<double>& x) { v.push_back(x.size()); for (double q : x) o(q); }
  void o(const std::vector<std::vector<double>>& x) { v.push_back(x.size()); for (auto& q : x) o(q); }
  void o(const Point& p) { o(p.time); o(p.value); }
  void o(const Sample& p) { o(p.time); o(p.value); o(p.derivative); }
  void o(const std::deque<Sample>& x) { v.push_back(x.size()); for (auto& q : x) o(q); }
  void o(const Signal& x) { o(x.beginTime); o(x.endTime); o(x.getSamplesDeque()); }
};
static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static const char* SPEC = "signal x, y\nparam p = 1, q = 2\nphi := ev_[0, p] (x[t] > 0)\npsi := phi until_[0.5, q] (y[t] < p)\n";
struct World { STLDriver d, e; STLMonitor m, n; Signal s0, s1, s2; Sample p = Sample(1, 2, 3); Point q = Point(4, 5); };
static const char* PRELUDE = R"(
import stlrom, copy, io, sys
from stlrom import STLDriver, STLMonitor, Signal, Sample, Point
class MyMonitor(STLMonitor):
    pass
class MyDriver(STLDriver):
    pass
def world(spec):
    w = {'__builtins__': __builtins__, 'stlrom': stlrom, 'io': io, 'sys': sys, 'copy': copy, 'STLDriver': STLDriver, 'STLMonitor': STLMonitor, 'Signal': Signal, 'Sample': Sample, 'Point': Point, 'MyMonitor': MyMonitor, 'MyDriver': MyDriver}
    V = []; S = []
    def o(x):
        if isinstance(x, (bool, int, float)): V.append(float(x))
        elif isinstance(x, str): S.append(x)
        elif isinstance(x, list):
            V.append(len(x))
            for y in x: o(y)
        elif isinstance(x, Signal):
            o(x.begin_time); o(x.end_time); o(x.get_samples_list())
        elif isinstance(x, Sample):
            o(x.time); o(x.value); o(x.derivative)
        elif isinstance(x, Point):
            o(x.time); o(x.value)
        elif x is None: pass
        else: S.append('<' + type(x).__name__ + '>')
    w['o'] = o; w['V'] = V; w['S'] = S
    d = w['d'] = STLDriver(); w['e'] = STLDriver()
    d.parse_string(spec)
    w['m'] = d.get_monitor('phi'); w['n'] = STLMonitor()
    w['s0'] = Signal(); w['s1'] = Signal(); w['s2'] = Signal()
    w['p'] = Sample(1, 2, 3); w['q'] = Point(4, 5)
    return w
)";
struct Op { std::string py; std::function<void(World&, Obs&)> f; py::object code; };

struct P : mc::Property {
  std::vector<Op> ops; std::vector<Op> fin; std::vector<const Op*> pre[2];
  std::unique_ptr<py::scoped_interpreter> interp;
  py::object world;
  double case_limit() override { return 20; }
  bool per_block_process() override { return true; }
  void add(const char* s, std::function<void(World&, Obs&)> f) { ops.push_back({s, f, py::object()}); }
  void end(const char* s, std::function<void(World&, Obs&)> f) { fin.push_back({s, f, py::object()}); }
  void init() override {
    PyImport_AppendInittab("stlrom", &PyInit_stlrom);
    interp.reset(new py::scoped_interpreter(false));
    py::dict g; g["__builtins__"] = py::module_::import("builtins");
    py::exec(PRELUDE, g);
    world = g["world"];
#define OP(PYTHON, CPP) add(PYTHON, [](World& w, Obs& r) { CPP; });
    // drivers
    OP("o(d.parse_string('signal z'))", r.o(w.d.parse_string("signal z")))
    OP("o(d.parse_string('phi := alw_[0, q] (y[t] > p)'))", r.o(w.d.parse_string("phi := alw_[0, q] (y[t] > p)")))
    OP("o(d.parse_string('chi := x['))", r.o(w.d.parse_string("chi := x[")))
    OP("o(d.parse_file('spec.stl'))", r.o(w.d.parse_file("spec.stl")))
    OP("o(d.parse_file('missing.stl'))", r.o(w.d.parse_file("missing.stl")))
    OP("d.add_sample([0, 1, -1])", w.d.add_sample({0, 1, -1}))
    OP("d.add_sample([1.5, -2, 0.5])", w.d.add_sample({1.5, -2, 0.5}))
    OP("d.add_sample([2])", w.d.add_sample({2}))
    OP("d.add_sample('ab')", r.o("!TypeError"))
    OP("d.data = [[0, 1, 2], [1, -1, 3.5], [4, 2, -2]]", (w.d.data = {{0, 1, 2}, {1, -1, 3.5}, {4, 2, -2}}))
    OP("d.data.append([9, 9, 9])", )
    OP("d.data = m.data", w.d.data = w.m.data)
    OP("d.data = 3", r.o("!TypeError"))
    OP("o(d.get_online_rob())", r.o(w.d.get_online_rob("phi", 0)))
    OP("o(d.get_online_rob('psi'))", r.o(w.d.get_online_rob("psi", 0)))
    OP("o(d.get_online_rob('psi', 0.5))", r.o(w.d.get_online_rob("psi", 0.5)))
    OP("o(d.get_online_rob(t0=1))", r.o(w.d.get_online_rob("phi", 1)))
    OP("o(d.get_online_rob(t0=-1, phi_in='psi'))", r.o(w.d.get_online_rob("psi", -1)))
    OP("o(d.get_online_rob('nope'))", r.o(w.d.get_online_rob("nope", 0)))
    OP("o(d.get_signals_names())", r.o(w.d.get_signals_names()))
    OP("o(d.get_param('p'))", r.o(w.d.get_param("p")))
    OP("o(d.get_param('nope'))", r.o(w.d.get_param("nope")))
    OP("d.set_param('p', 2.5)", w.d.set_param("p", 2.5))
    OP("d.set_param('nope', 1)", w.d.set_param("nope", 1))
    OP("d.set_semantics('LEFT_TIME')", w.d.set_semantics("LEFT_TIME"))
    OP("d.set_semantics('BOOLEAN')", w.d.set_semantics("BOOLEAN"))
    OP("d.set_interpol('PREVIOUS')", w.d.set_interpol("PREVIOUS"))
    OP("d.set_interpol('NEXT')", w.d.set_interpol("NEXT"))
    OP("d.disp()", w.d.disp())
    OP("e = d.copy()", w.e = STLDriver(w.d))
    OP("e = copy.copy(d)", w.e = STLDriver(w.d))
    OP("e = copy.deepcopy(d)", w.e = STLDriver(w.d))
    OP("d = STLDriver()", w.d = STLDriver())
    OP("d.__del__()", )
    OP("x = MyDriver(); x.parse_string('signal a'); del x", )
    OP("d, e = e, d", std::swap(w.d, w.e))
    // monitors
    OP("m = d.get_monitor('psi')", w.m = w.d.get_monitor("psi"))
    OP("m = d.get_monitor('phi')", w.m = w.d.get_monitor("phi"))
    OP("m = d.get_monitor('nope')", w.m = w.d.get_monitor("nope"))
    OP("m = d.get_monitor(3)", r.o("!TypeError"))
    OP("m = STLMonitor()", w.m = STLMonitor())
    OP("n = m.copy()", w.n = STLMonitor(w.m))
    OP("n = copy.copy(m)", w.n = STLMonitor(w.m))
    OP("n = copy.deepcopy(m)", w.n = STLMonitor(w.m))
    OP("m, n = n, m", std::swap(w.m, w.n))
    OP("m.__del__()", )
    OP("x = MyMonitor(); x.set_eval_time(0, 1); del x", )
    OP("o(repr(m))", std::ostringstream s; s << w.m; r.o(s.str()))
    OP("m.add_sample([0, 0.5, -1])", w.m.add_sample({0, 0.5, -1}))
    OP("m.add_sample([2, -2, 1])", w.m.add_sample({2, -2, 1}))
    OP("for i in range(150): m.add_sample([10 + i / 4, i % 5 - 2, 1])", for (int i = 0; i < 150; i++) w.m.add_sample({10 + i / 4., i % 5 - 2., 1}))
    OP("m.add_sample([])", w.m.add_sample({}))
    OP("m.data = [[0, 1, 2], [1, -1, 3.5], [4, 2, -2]]", (w.m.data = {{0, 1, 2}, {1, -1, 3.5}, {4, 2, -2}}))
    OP("m.data = d.data", w.m.data = w.d.data)
    OP("m.data[0][1] = 7", if (w.m.data.empty()) r.o("!IndexError:list index out of range"))
    OP("o(m.eval_rob())", r.o(w.m.eval_rob()))
    OP("o(m.eval_rob(1))", r.o(w.m.eval_rob(1)))
    OP("o(m.eval_rob(0.5, 3))", r.o(w.m.eval_rob(0.5, 3)))
    OP("o(m.eval_rob(0, 1, 2))", r.o("!TypeError"))
    OP("o(m.eval_rob('0'))", r.o("!TypeError"))
    OP("m.set_eval_time(0.5, 2)", w.m.set_eval_time(0.5, 2))
    OP("m.start_time = 1; m.end_time = 1.5", w.m.start_time = 1; w.m.end_time = 1.5)
    OP("m.rob = 42; m.lower_rob = 41; m.upper_rob = 43", w.m.rob = 42; w.m.lower_rob = 41; w.m.upper_rob = 43)
    OP("m.set_param('p', 0.5)", w.m.set_param("p", 0.5))
    OP("m.set_param('nope', 0.5)", w.m.set_param("nope", 0.5))
    OP("o(m.get_param('q'))", r.o(w.m.get_param("q")))
    OP("o(m.get_param('nope'))", r.o(w.m.get_param("nope")))
    OP("m.set_semantics('RIGHT_TIME')", w.m.set_semantics("RIGHT_TIME"))
    OP("m.set_semantics('')", w.m.set_semantics(""))
    OP("m.set_interpol('PREVIOUS')", w.m.set_interpol("PREVIOUS"))
    OP("m.set_interpol('')", w.m.set_interpol(""))
    OP("m.display_formula()", w.m.display_formula())
    OP("s2 = m.get_signal()", w.s2 = w.m.get_signal())
    OP("sys.stdout = io.StringIO(); stlrom.print_monitor(d); o(sys.stdout.getvalue())", STLMonitor k = w.d.get_monitor("phi"); if (!k.formula) r.o("!ValueError:No formula phi"); else { std::ostringstream s; s << "Monitor lower rob:" << k.lower_rob << "\n"; k.formula->print(s); r.o(s.str() + "\n"); })
    // signals
    OP("s0.append_sample(0, 1)", w.s0.appendSample(0, 1))
    OP("s0.append_sample(2, -1)", w.s0.appendSample(2, -1))
    OP("s0.append_sample(3, 1, 0.5)", w.s0.appendSample(3, 1, 0.5))
    OP("for i in range(150): s0.append_sample(10 + i / 4, i % 3)", for (int i = 0; i < 150; i++) w.s0.appendSample(10 + i / 4., i % 3))
    OP("s0.append_sample('a', 1)", r.o("!TypeError"))
    OP("s1.append_sample(1, -1)", w.s1.appendSample(1, -1))
    OP("s1.append_sample(4, 3)", w.s1.appendSample(4, 3))
    OP("s2.compute_not(s0)", w.s2.compute_not(w.s0))
    OP("s2.compute_and(s0, s1)", w.s2.compute_and(w.s0, w.s1))
    OP("s2.compute_or(s0, s1)", w.s2.compute_or(w.s0, w.s1))
    OP("s2.compute_or(s0)", r.o("!TypeError"))
    OP("s2.compute_boolean(s0)", w.s2.compute_boolean(w.s0))
    OP("s2.compute_left_time_rob(s0)", w.s2.compute_left_time_rob(w.s0))
    OP("s2.compute_right_time_rob(s0)", w.s2.compute_right_time_rob(w.s0))
    OP("o(s2)", r.o(w.s2))
    OP("s1 = s2.copy()", w.s1 = w.s2)
    OP("s1 = copy.copy(s0)", w.s1 = w.s0)
    OP("s0 = copy.deepcopy(s2)", w.s0 = w.s2)
    OP("for z in s2.get_samples_list(): z.value = 99", )
    OP("s0.begin_time = -1; s0.end_time = 5", w.s0.beginTime = -1; w.s0.endTime = 5)
    OP("s0.__del__(); p.__del__(); q.__del__()", )
    OP("Signal.set_semantics('LEFT_TIME')", Signal::set_semantics("LEFT_TIME"))
    OP("Signal.set_semantics('?')", Signal::set_semantics("?"))
    OP("Signal.set_interpol('PREVIOUS')", Signal::set_interpol("PREVIOUS"))
    OP("Signal.set_interpol('?')", Signal::set_interpol("?"))
    OP("Signal.set_BigM(3.5)", Signal::set_BigM(3.5))
    OP("o(stlrom.rand_trace_data(2, 1))", r.o(rand_trace_data(2, 1)))
    // samples and points
    OP("p = Sample(0, 1.5, -2)", w.p = Sample(0, 1.5, -2))
    OP("p.time = 0.5; p.value = -3; p.derivative = 1", w.p.time = 0.5; w.p.value = -3; w.p.derivative = 1)
    OP("o(p.value_at(2.5)); o(p.time_intersect(Sample(0, 1, 1)))", r.o(w.p.valueAt(2.5)); r.o(w.p.timeIntersect(Sample(0, 1, 1))))
    OP("p.print_sample(); q.print_point()", w.p.print_sample(); w.q.print_point())
    OP("x = p.copy(); x.value = 8; o(x); x = copy.copy(p); x.time = 8; o(x); x = copy.deepcopy(p); o(x)", Sample x = w.p; x.value = 8; r.o(x); x = w.p; x.time = 8; r.o(x); r.o(w.p))
    OP("x = q.copy(); x.value = 8; o(x); x = copy.copy(q); o(x); x = copy.deepcopy(q); o(x); q = Point(q); q.time = -4; q.value = 6", Point x = w.q; x.value = 8; r.o(x); r.o(w.q); r.o(w.q); w.q.time = -4; w.q.value = 6)
#undef OP
#define OP(PYTHON, CPP) end(PYTHON, [](World& w, Obs& r) { CPP; });
    OP("o(m.rob); o(m.lower_rob); o(m.upper_rob); o(m.get_lower_rob()); o(m.get_upper_rob())", r.o(w.m.rob); r.o(w.m.lower_rob); r.o(w.m.upper_rob); r.o(w.m.get_lower_rob()); r.o(w.m.get_upper_rob()))
    OP("o(m.start_time); o(m.end_time); o(m.data); o(m.get_semantics()); o(m.get_interpol())", r.o(w.m.start_time); r.o(w.m.end_time); r.o(w.m.data); r.o(w.m.get_semantics()); r.o(w.m.get_interpol()))
    OP("o(m.get_param('p'))", r.o(w.m.get_param("p")))
    OP("o(m.get_signal())", r.o(w.m.get_signal()))
    OP("o(m.eval_rob(0, 1)); o(m.get_lower_rob()); o(m.get_upper_rob()); o(m.get_signal())", r.o(w.m.eval_rob(0, 1)); r.o(w.m.get_lower_rob()); r.o(w.m.get_upper_rob()); r.o(w.m.get_signal()))
    OP("o(n.data); o(n.get_semantics()); o(n.get_interpol()); o(n.rob)", r.o(w.n.data); r.o(w.n.get_semantics()); r.o(w.n.get_interpol()); r.o(w.n.rob))
    OP("o(n.eval_rob()); o(n.get_lower_rob())", r.o(w.n.eval_rob()); r.o(w.n.get_lower_rob()))
    OP("o(d.data); o(d.get_semantics()); o(d.get_interpol()); o(d.get_signals_names()); o(d.get_param('p'))", r.o(w.d.data); r.o(w.d.get_semantics()); r.o(w.d.get_interpol()); r.o(w.d.get_signals_names()); r.o(w.d.get_param("p")))
    OP("o(d.get_online_rob('psi'))", r.o(w.d.get_online_rob("psi", 0)))
    OP("o(e.data); o(e.get_semantics()); o(e.get_interpol()); o(e.get_signals_names()); o(e.get_param('p'))", r.o(w.e.data); r.o(w.e.get_semantics()); r.o(w.e.get_interpol()); r.o(w.e.get_signals_names()); r.o(w.e.get_param("p")))
    OP("o(e.get_online_rob())", r.o(w.e.get_online_rob("phi", 0)))
    OP("o(s0); o(s1); o(s2); o(p); o(q)", r.o(w.s0); r.o(w.s1); r.o(w.s2); r.o(w.p); r.o(w.q))
    OP("o(Signal.get_BigM()); o(Signal.get_interpol()); o(Signal.get_semantics())", r.o(Signal::get_BigM()); r.o(Signal::get_interpol()); r.o(Signal::get_semantics()))
#undef OP
    py::object compile = py::module_::import("builtins").attr("compile");
    for (auto* v : {&ops, &fin}) for (auto& op : *v) op.code = compile(op.py, "<op>", "exec");
    auto find = [&](const char* s) -> const Op* { for (auto& op : ops) if (op.py == s) return &op; fprintf(stderr, "no %s\n", s); exit(2); };
    const char* A[] = {"d.data = [[0, 1, 2], [1, -1, 3.5], [4, 2, -2]]", "m = d.get_monitor('psi')", "m.data = d.data", "o(m.eval_rob())", "s0.append_sample(0, 1)", "s0.append_sample(2, -1)", "s1.append_sample(1, -1)", "s1.append_sample(4, 3)"};
    for (auto a : A) for (auto& x : pre) x.push_back(find(a));
    for (auto a : {"e = d.copy()", "n = m.copy()", "m.set_interpol('PREVIOUS')", "d.set_semantics('LEFT_TIME')"}) pre[1].push_back(find(a));
    const char* sd = getenv("VERIF_SCRATCH"); if (chdir(sd ? sd : ".")) {}
    std::ofstream("spec.stl") << "param p = 7\nchi := ev_[0, 2] (y[t] > p)\nphi := chi and (x[t] > 0)\n";
  }
  int depth() { return 3; }
  int starts() { return thorough ? 3 : 1; }      // fresh; with data and evaluated; with data, copied and in another mode
  long blocks() override { return (long)ops.size() * ops.size() * starts(); }
  std::string bounds() override {
    return mc::fmt("every sequence of %d out of %zu operations on two drivers, two monitors, three signals, a sample and a point from %d starting states (calls with positional, default and keyword arguments, wrong arguments, attributes, copies, explicit and inherited finalisation), followed by %zu observations; C++ and Python", depth(), ops.size(), starts(), fin.size());
  }
  static void reset() { static std::ios plain(nullptr); std::cout.copyfmt(plain); Signal::semantics = Semantics::SPACE; Signal::interpol = Interpol::LINEAR; Signal::BigM = 10000; srand(1); }
  static void note(Obs& r, const std::string& x) {      // the text of a TypeError is pybind11's
    r.s += x.compare(0, 10, "!TypeError") == 0 ? "!TypeError|" : x + "|";
  }
  void cpp(const std::vector<const Op*>& q, std::vector<Obs>& out) {
    reset();
    World w; w.d.parse_string(SPEC); w.m = w.d.get_monitor("phi");
    for (auto op : q) {
      Obs r; std::ostringstream text; auto old = std::cout.rdbuf(text.rdbuf());
      try { op->f(w, r); }
      catch (const std::invalid_argument& e) { note(r, std::string("!ValueError:") + e.what()); }
      catch (const std::out_of_range& e) { note(r, std::string("!IndexError:") + e.what()); }
      catch (const std::exception& e) { note(r, std::string("!RuntimeError:") + e.what()); }
      std::cout.rdbuf(old);
      r.s += "\n" + text.str();
      out.push_back(r);
    }
  }
  void python(const std::vector<const Op*>& q, std::vector<Obs>& out) {
    reset();
    auto old0 = std::cout.rdbuf(nullptr);
    py::dict w = world(SPEC);
    std::cout.rdbuf(old0);
    for (auto op : q) {
      Obs r; std::ostringstream text; auto old = std::cout.rdbuf(text.rdbuf());
      std::string exc;
      try {
        PyObject* x = PyEval_EvalCode(op->code.ptr(), w.ptr(), w.ptr());
        if (!x) throw py::error_already_set();
        Py_DECREF(x);
      } catch (py::error_already_set& e) {
        exc = "!" + std::string(py::str(e.type().attr("__name__"))) + ":" + std::string(py::str(e.value()));
      }
      std::cout.rdbuf(old);
      for (auto h : w["V"]) r.v.push_back(h.cast<double>());
      for (auto h : w["S"]) r.s += h.cast<std::string>() + "|";
      w["V"].attr("clear")(); w["S"].attr("clear")();
      if (!exc.empty()) note(r, exc);
      r.s += "\n" + text.str();
      out.push_back(r);
    }
    w.clear();
  }
  void run(long b, mc::Run& r) override {
    int start = b / (ops.size() * ops.size()); b %= ops.size() * ops.size();
    product(depth() - 2, ops.size(), [&](std::vector<int>& rest) {
      std::vector<const Op*> q{&ops[b / ops.size()], &ops[b % ops.size()]};
      for (int i : rest) q.push_back(&ops[i]);
      if (!r.enter([&] { std::string s = start ? mc::fmt("start %d: ", start) : ""; for (size_t i = 0; i < 3; i++) s += ops[i == 0 ? b / ops.size() : i == 1 ? b % ops.size() : rest[0]].py + " ;; "; return s; })) return;
      for (auto& f : fin) q.push_back(&f);
      if (start) q.insert(q.begin(), pre[start - 1].begin(), pre[start - 1].end());
      std::vector<Obs> A, B;
      cpp(q, A); python(q, B);
      r.states(2 * q.size() + 2); r.transitions(2 * q.size()); r.nontrivial();
      uint64_t h = 0;
      for (size_t i = 0; i < q.size(); i++) {
        bool ok = A[i].s == B[i].s && A[i].v.size() == B[i].v.size();
        for (size_t k = 0; ok && k < A[i].v.size(); k++) { ok = same(A[i].v[k], B[i].v[k]); uint64_t u; memcpy(&u, &A[i].v[k], 8); h = h * 1000003 + u; }
        h = h * 31 + std::hash<std::string>()(A[i].s);
        if (!ok) {
          auto show = [](const Obs& x) { std::string t = x.s.substr(0, 160) + " ["; for (double y : x.v) t += mc::fmt(" %.9g", y); return t.substr(0, 300) + " ]"; };
          r.fail("'" + q[i]->py + "' gives " + show(B[i]) + " in Python and " + show(A[i]) + " in C++"); return;
        }
      }
      r.outcome_hash(h);
    });
  }
};
int main(int c, char** v) { P p; int x = mc::explore_main(p, c, v); fflush(stdout); _exit(x); }
