// C26: the operations that edit a signal, on the right-continuous piecewise-linear function it stands for.
// Sequences of operations are executed on a Signal and on a table of the function (value and left limit at every
// multiple of the time unit), and compared after every operation.
#include "gen.hpp"
using namespace gen;
using STLRom::Signal; using STLRom::Sample;

// the function on [b, e]: for every instant q, v[q - b] its value; l[q - b] its limit from the left; NAN: open
struct Fn {
  int b = 0, e = 0, last = 0; bool empty = true; std::vector<double> v, l;       // b, e in time units
  double at(int q) const { return v[q - b]; }
};
struct P : mc::Property {
  struct Op { std::string n; std::function<void(Signal&)> real; std::function<bool(Fn&)> model; };   // model: false = out of scope
  std::vector<Op> O[2]; std::vector<Op> start[2]; int depth = 3;
  static const int NO = -1000000;
  static constexpr int NC = 5;                                  // time units: quarters; nearly coincident times; times far from 0; long; closer still
  struct Unit { double off, u; };
  static Unit& U() { static Unit x{0, 0.25}; return x; }
  static double T(int q) { return U().off + q * U().u; }
  static Unit unit(int c) { static const Unit k[NC] = {{0, 0.25}, {0, std::ldexp(1., -20)}, {4194304, 0.25}, {0, 64}, {0, std::ldexp(1., -26)}}; return k[c]; }
  static bool append(Fn& f, int t, double v, bool prev) {
    if (f.empty) { f.empty = false; f.b = f.e = f.last = t; f.v = {v}; f.l = {v}; return true; }
    if (t <= f.e) return true;
    if (!prev && f.last != f.e) return false;                  // joined to a sample that is not the end: left open
    double from = f.v.back(); int n = t - f.e;
    if (std::isnan(from)) return false;
    for (int k = 1; k <= n; k++) { double x = prev ? from : from + (v - from) * k / n; f.l.push_back(x); f.v.push_back(k == n ? v : x); }
    f.e = f.last = t; return true;
  }
  static bool resize(Fn& f, int s, int t, double v) {
    if (t < s) { f = Fn(); return true; }
    Fn g; g.empty = false; g.b = s; g.e = t;
    if (f.empty) { g.last = s; g.v.assign(t - s + 1, v); g.l = g.v; f = g; return true; }
    if (s > f.e) return false;                                 // nothing of the signal is left: open
    double first = f.v[0];
    for (int q = s; q <= t; q++) {
      if (q < f.b) { g.v.push_back(first); g.l.push_back(first); }
      else if (q < f.e || (q == f.e && t <= f.e)) { g.v.push_back(f.at(q)); g.l.push_back(q == f.b ? first : f.l[q - f.b]); }
      else if (q == f.e) { g.v.push_back(f.at(q) == v ? v : NAN); g.l.push_back(q == f.b ? first : f.l[q - f.b]); }   // the instant where v takes over: open
      else { g.v.push_back(v); g.l.push_back(v); }
    }
    g.last = NO; f = g; return true;                           // where the last sample is now is the signal's business
  }
  void init() override {
    depth = thorough ? 4 : 3;
    for (int prev = 0; prev < 2; prev++) {
      auto add = [&](std::vector<Op>& o, std::string n, std::function<void(Signal&)> r, std::function<bool(Fn&)> m) { o.push_back({n, r, m}); };
      for (int t : {-4, 0, 3, 6, 8, 14}) for (double v : {-1., 2.}) add(O[prev], mc::fmt("append (%d, %g)", t, v), [=](Signal& s) { s.appendSample(T(t), v); }, [=](Fn& f) { return append(f, t, v, prev); });
      for (double d : {-3., 7.}) add(O[prev], mc::fmt("append (10, 0) slope %g", d), [=](Signal& s) { s.appendSample(T(10), 0, d); }, [=](Fn& f) { return append(f, 10, 0, prev); });
      add(O[prev], "append at NaN", [](Signal& s) { s.appendSample(NAN, 1); }, [](Fn&) { return true; });
      for (int s : {-6, -2, 0, 1, 4, 8}) for (int t : {-2, 0, 2, 5, 8, 12}) for (double v : {-1., 5.}) { if (t < s - 2 || (v > 0 && (s + t) % 3)) continue; add(O[prev], mc::fmt("resize to [%d, %d] with %g", s, t, v), [=](Signal& g) { g.resize(T(s), T(t), v); }, [=](Fn& f) { return resize(f, s, t, v); }); }
      for (int a : {-5, 3}) add(O[prev], mc::fmt("shift %d", a), [=](Signal& s) { s.shift(a * U().u); }, [=](Fn& f) { f.b += a; f.e += a; if (f.last != NO) f.last += a; return true; });
      add(O[prev], "simplify", [](Signal& s) { s.simplify(); }, [](Fn& f) { f.last = f.e; return true; });
      add(O[prev], "addLastSample", [](Signal& s) { s.addLastSample(); }, [](Fn& f) { f.last = f.e; return true; });
      add(O[prev], "clear", [](Signal& s) { s.clear(); }, [](Fn& f) { f = Fn(); return true; });
      add(O[prev], "copy", [](Signal& s) { Signal t(s); s = t; }, [](Fn&) { return true; });
      add(O[prev], "append the signal (4, 2), (7, -1), (12, 0)", [](Signal& s) { double t[] = {T(4), T(7), T(12)}, V[] = {2, -1, 0}; s.appendSignal(Signal(t, V, 3)); }, [=](Fn& f) { return append(f, 4, 2, prev) && append(f, 7, -1, prev) && append(f, 12, 0, prev); });
      add(O[prev], "append itself", [](Signal& s) { s.appendSignal(s); }, [](Fn&) { return true; });
      add(start[prev], "Signal()", [](Signal& s) { s = Signal(); }, [](Fn& f) { f = Fn(); return true; });
      add(start[prev], "Signal(4, 2, 0)", [](Signal& s) { s = Signal(T(4), 2, 0); }, [=](Fn& f) { f = Fn(); return append(f, 4, 2, prev); });
      for (auto k : std::vector<std::vector<int>>{{0}, {0, 4}, {0, 2, 6}, {-2, 1, 4, 7}, {0, 2, 4, 6, 8}, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}}) for (int w = 0; w < 3; w++) {
        std::vector<double> V; for (size_t i = 0; i < k.size(); i++) { V.push_back(w == 0 ? (double)i : w == 1 ? (i % 2 ? 3 : -1) : (i < 2 ? 1 : 4 - 1.5 * i)); }
        std::string n = "Signal("; for (size_t i = 0; i < k.size(); i++) n += mc::fmt("%s(%d, %g)", i ? ", " : "", k[i], V[i]);
        add(start[prev], n + ")", [=](Signal& s) { auto v = V; std::vector<double> t; for (int q : k) t.push_back(T(q)); s = Signal(t.data(), v.data(), t.size()); }, [=](Fn& f) { f = Fn(); for (size_t i = 0; i < k.size(); i++) append(f, k[i], V[i], prev); return true; });
      }
    }
  }
  long blocks() override { return NC * 2 * start[0].size() * O[0].size(); }
  std::string bounds() override { return mc::fmt("every sequence of up to %d of %zu operations from %zu signals, both interpolations; times in units of 1/4, of 2^-20, of 1/4 from 4194304, and (sequences of up to %d) of 64 and of 2^-26; the function compared at every multiple of the unit, from both sides, after every operation", depth, O[0].size(), start[0].size(), depth - 1); }
  static std::string compare(const Signal& s, const Fn& f) {
    if (s.empty() != f.empty) return f.empty ? "not empty" : "empty";
    if (f.empty) return "";
    if (s.beginTime != T(f.b) || s.endTime != T(f.e)) return mc::fmt("is on [%.12g, %.12g], should be on [%.12g, %.12g]", s.beginTime, s.endTime, T(f.b), T(f.e));
    if (s.front().time != s.beginTime) return mc::fmt("the first sample is at %g", s.front().time);
    for (size_t i = 0; i < s.size(); i++) { if (i && s[i].time < s[i - 1].time) return "the samples are not in order"; if (s[i].time > s.endTime) return "a sample after the end"; }
    for (int q = f.b; q <= f.e; q++) {
      const Sample *at = &s[0], *before = nullptr;
      for (auto& x : s) { if (x.time <= T(q)) at = &x; if (x.time < T(q)) before = &x; }
      double v = at->valueAt(T(q));
      if (!std::isnan(f.at(q)) && !close(v, f.at(q), 1e-9)) return mc::fmt("at %.12g it is %g, should be %g", T(q), v, f.at(q));
      if (q > f.b && !std::isnan(f.l[q - f.b])) { if (!before) return "no sample before"; double l = before->valueAt(T(q)); if (!close(l, f.l[q - f.b], 1e-9)) return mc::fmt("before %.12g it is %g, should be %g", T(q), l, f.l[q - f.b]); }
    }
    return "";
  }
  void run(long b, mc::Run& r) override {
    int prev = b % 2; b /= 2; int cfg = b % NC; b /= NC; U() = unit(cfg); const Op& st = start[prev][b % start[prev].size()]; size_t o0 = b / start[prev].size();
    Signal::set_interpol(prev ? "PREVIOUS" : "LINEAR");
    std::vector<const Op*> path;
    auto text = [&] { std::string t = mc::fmt("times in units of %g from %g, ", U().u, U().off) + (prev ? "PREVIOUS: " : "LINEAR: ") + st.n; for (auto p : path) t += "; " + p->n; return t; };
    std::function<bool(const Signal&, const Fn&, const Op&)> step = [&](const Signal& s, const Fn& f, const Op& o) {      // false: stop this case
      Fn g = f; if (!o.model(g)) return true;
      Signal z = s; path.push_back(&o); o.real(z);
      if (g.last == NO && !z.empty()) g.last = z.back().time == z.endTime ? g.e : NO;
      std::string e = compare(z, g); r.transitions(1); r.states(1);
      if (e.size()) { r.fail(e + "; after " + text() + ": " + sigtext(z)); path.pop_back(); return false; }
      bool twice = false; for (size_t i = 1; i < s.size(); i++) if (s[i].time == s[i - 1].time) twice = true;
      if (o.n == "simplify" && !twice) for (size_t i = 1; i + 1 < z.size(); i++) if (z[i].time > z[i - 1].time && z[i].derivative == z[i - 1].derivative && z[i - 1].valueAt(z[i].time) == z[i].value) { r.fail(mc::fmt("the sample at %g is redundant; after ", z[i].time) + text() + ": " + sigtext(z)); path.pop_back(); return false; }
      r.outcome_hash(std::hash<std::string>()(sigtext(z))); if (z.size() > 2) r.nontrivial();
      if ((int)path.size() < depth - (cfg > 2)) for (auto& p : O[prev]) if (path.size() > 1 || r.enter([&] { return text() + "; " + p.n + "; then every sequence"; })) if (!step(z, g, p) && path.size() > 1) { path.pop_back(); return false; }
      path.pop_back(); return true;
    };
    Signal s; Fn f; st.real(s); st.model(f);
    step(s, f, O[prev][o0]);
  }
};
int main(int c, char** v) { P p; return mc::explore_main(p, c, v); }
