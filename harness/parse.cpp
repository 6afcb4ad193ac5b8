// C12: every viable prefix of the language up to a length, followed by every token (so every way to go on and
// every way to go wrong), every single and double edit of a set of complete inputs, and every short character
// string in several places.  The verdict must be the one of the recogniser of language.hpp, an accepted input
// must define exactly what it says, and after every input the earlier definitions must answer as before and
// the driver must go on parsing.
#include "texts.hpp"

#include <fstream>
#include <unistd.h>

struct P : Texts {
  // a stream that has one character at a time
  struct Drip : std::streambuf {
    std::string s; size_t i = 0;
    Drip(const std::string& t) : s(t) {}
    int_type underflow() override { if (i >= s.size()) return traits_type::eof(); setg(&s[i], &s[i], &s[i] + 1); i++; return traits_type::to_int_type(s[i - 1]); }
  };
  static std::string tests(const STLDriver& d) {
    std::string o;
    for (auto& q : d.trace_test_queue) { o += q.id + "/" + q.env + mc::fmt("/%.17g/%d{", q.sim_time, (int)q.visu); for (auto& t : q.tests) { o += t.test_id + "/" + t.report_positive + "/" + t.report_negative + mc::fmt("/%d", (int)t.is_error); for (auto& p : t.param_map) o += p.first + mc::fmt("=%.17g,", p.second); } o += "}"; }
    return o;
  }
  // the same input from a file or a stream
  bool other_ways(mc::Run& r, const std::string& text, const STLDriver& d, bool got, long n) {
    static const std::string fn = [] { const char* s = getenv("VERIF_SCRATCH"); return std::string(s ? s : "/tmp") + mc::fmt("/parse.%d", (int)getpid()); }();
    for (int way = 0; way < 2; way++) {
      if (!thorough && (way != n % 2 || (!got && n / 2 % 4))) continue;
      STLDriver e(*base); bool g = false; const char* how = way ? "parse_stream" : "parse_file";
      try {
        if (way) { Drip b(text); std::istream is(&b); g = e.parse_stream(is); }
        else { std::ofstream(fn.c_str(), std::ios::binary) << text; g = e.parse_file(fn); unlink(fn.c_str()); }
      } catch (const std::exception& x) { r.fail(std::string(how) + " throws: " + x.what()); return false; }
      bool ok = g == got && e.param_map == d.param_map && e.signal_map == d.signal_map && e.data == d.data && tests(e) == tests(d) && e.formula_map.size() == d.formula_map.size() && e.stl_test_map.size() == d.stl_test_map.size();
      for (auto& k : d.formula_map) ok = ok && e.formula_map.count(k.first);
      for (auto& k : d.stl_test_map) ok = ok && e.stl_test_map.count(k.first);
      if (ok && got) for (auto& k : d.formula_map) { std::ostringstream a, b; a << *k.second; b << *e.formula_map[k.first]; ok = ok && a.str() == b.str(); }
      r.transitions(1);
      if (!ok) { r.fail(std::string(how) + " does something else than parse_string with the same text"); return false; }
    }
    return true;
  }
  long cnt = 0;
  // one input
  void one(mc::Run& r, const std::string& text, lang::Parse& L, bool viable, bool open) override {
    if (!r.enter([&] { return show(text); })) return;
    bool loose = L.loose() || open, want = viable && L.complete();
    r.transitions(1);
    STLDriver d(*base);
    bool got = false;
    try { got = d.parse_string(text); }
    catch (const std::exception& e) { r.fail(std::string("parse_string throws: ") + e.what()); return; }
    if (!loose && got != want) { r.fail(got ? "accepted, but it is not a sentence of the language" : "rejected, but it is a sentence of the language"); return; }
    if (got) r.nontrivial();
    if (!other_ways(r, text, d, got, cnt++)) return;
    lang::Defs df = want ? L.accepted() : L.so_far();
    r.outcome_hash(got * 64 + df.formulas.size() * 8 + df.params.size() * 4 + df.queued);
    // what it defined
    if (!loose && got) {
      std::set<std::string> f = df.formulas, g; f.insert("phi"); for (auto& k : d.formula_map) g.insert(k.first);
      if (f != g) { r.fail("the formulas defined are not those of the input"); return; }
      std::map<std::string, double> pm = base->param_map; for (auto& k : df.params) pm[k.first] = k.second;
      if (pm != d.param_map) { r.fail("the parameters are not those of the input"); return; }
      std::map<std::string, int> sm = base->signal_map; for (auto& k : df.signals) { int n = sm.size() + 1; sm[k] = n; }
      if (sm.size() != d.signal_map.size()) { r.fail("the signals are not those of the input"); return; }
      for (auto& k : sm) if (d.signal_map.count(k.first) == 0 || d.signal_map[k.first] != k.second) { r.fail("the signals are not those of the input"); return; }
      std::set<std::string> t = df.tests, u; t.insert("T"); for (auto& k : d.stl_test_map) u.insert(k.first);
      size_t nt = 0; for (auto& q : d.trace_test_queue) nt += q.tests.size();
      if (t != u || (int)d.trace_test_queue.size() != 1 + df.trace_tests || (int)nt != 1 + df.queued) { r.fail("the tests are not those of the input"); return; }
    }
    if (!got) {       // nothing but definitions that the input contains
      for (auto& k : d.formula_map) if (k.first != "phi" && !df.formulas.count(k.first) && k.first != L.pending() && !loose) { r.fail("a rejected input defined " + k.first); return; }
      for (auto& k : d.param_map) { auto b = base->param_map.find(k.first); auto n = df.params.find(k.first);
        bool ok = (b != base->param_map.end() && b->second == k.second) || (n != df.params.end() && n->second == k.second);
        if (!ok && !loose) { r.fail("a rejected input changed parameter " + k.first); return; } }
      for (auto& k : base->signal_map) if (d.signal_map.count(k.first) == 0 || d.signal_map[k.first] != k.second) { r.fail("a rejected input changed the signals"); return; }
    }
    for (auto& k : base->param_map) if (!d.param_map.count(k.first)) { r.fail("a parameter is gone"); return; }
    for (auto& k : d.formula_map) if (!k.second) { r.fail("a formula is a null pointer"); return; }
    if (d.data != base->data) { r.fail("the data changed"); return; }
    // earlier definitions answer as before (with the parameters as they are)
    if (!d.formula_map.count("phi")) { r.fail("phi is gone"); return; }
    STLMonitor m = d.get_monitor("phi");
    double P0 = d.param_map["p"], Q = d.param_map["q"], e;
    bool same = P0 == 0.5 && Q == 2;
    if (same) {
      double v = m.eval_rob(0);
      if (v != 2.5) { r.fail(mc::fmt("phi is now %g, was 2.5", v)); return; }
      // and the driver goes on
      bool ok = false;
      try { ok = d.parse_string("zz9 := (y[t] < 3) and phi\nparam zz8 = 4"); } catch (const std::exception& x) { r.fail(std::string("the next input throws: ") + x.what()); return; }
      if (!ok) { r.fail("the next input is rejected"); return; }
      v = d.get_monitor("zz9").eval_rob(0); e = 1;
      if (v != e || d.get_param("zz8") != 4) { r.fail(mc::fmt("the next definition gives %g instead of %g", v, e)); return; }
    }
  }
};
int main(int c, char** v) { P p; return mc::explore_main(p, c, v); }
