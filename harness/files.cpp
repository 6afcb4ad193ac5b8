// C18: every trace of a finite family is written and read back; every layout of a text file is read.
#include "gen.hpp"
using namespace gen;
using STLRom::STLDriver;

struct P : mc::Property {
  typedef std::vector<double> Row;
  std::vector<Row> T;                         // time axes
  std::vector<double> V{0, -1.5, 1e-05, 123456, 1e+10, -0.000123457, 2.5e+300, -1e-300, INF, -INF, NAN};
  void init() override {
    T = {{}, {0}, {0, 1}, {-1, 0.5}, {0, 0.1, 0.25}, {1e-05, 1, 123456}, {0, 1, 2, 3}, {1e+06, 1.00001e+06}};
    if (thorough) for (double v : {-1e+20, 4.29497e+09, 0.333333, 7.}) V.push_back(v);
  }
  // blocks: time axis x number of signals, then the text layouts
  long blocks() override { return (long)T.size() * 3 + 6 + 7 * 4; }
  // large files: n samples of m signals, numbers of one kind
  void many(int b, mc::Run& r, const std::string& fn) {
    static const int N[] = {10, 64, 100, 1000, 4096, 5000, 70000}; static const int M[] = {1, 4, 40, 300}; int n = N[b / 4], m = M[b % 4];
    if ((long)n * m > (thorough ? 2000000 : m == 1 ? 70000 : 50000)) return;
    std::string sp = "signal x"; for (int k = 1; k < m; k++) sp += ", x" + std::to_string(k);
    for (int kind = 0; kind < 4; kind++) for (int step = 0; step < 3; step++) for (int crlf = 0; crlf < 2; crlf++) {
      std::vector<Row> rows;
      for (int i = 0; i < n; i++) { Row w{step == 0 ? i : step == 1 ? (i - 50) * 0.25 : i * 1e-4}; for (int k = 0; k < m; k++) { long q = (i * 37L + k * 101) % 999983 - 5000; w.push_back(kind == 0 ? q : kind == 1 ? q * 1e-3 : kind == 2 ? q * 1e15 : q * 1e-9); } for (double& v : w) v = std::strtod(mc::fmt("%g", v).c_str(), 0); rows.push_back(w); }
      if (!r.enter([&] { return mc::fmt("%d samples of %d signals, values of kind %d, times of kind %d%s", n, m, kind, step, crlf ? ", carriage returns" : ""); })) continue;
      STLDriver d, e; if (!d.parse_string(sp) || !e.parse_string(sp)) { r.fail("does not parse"); continue; }
      r.states(n + 1); r.transitions(2); r.nontrivial(); r.outcome_hash(n * 1000L + m * 10 + kind);
      d.data = rows; d.dump_trace_file(fn);
      if (crlf) { std::string s = slurp(fn), o; for (char c : s) { if (c == '\n') o += "\r"; o += c; } put(fn, o); }
      e.data = {{0, 1}};
      if (!e.read_trace_file(fn)) { r.fail("cannot be read back"); continue; }
      if (e.data.size() != rows.size()) { r.fail(mc::fmt("%zu samples read back", e.data.size())); continue; }
      for (int i = 0; i < n; i++) if (!eq({e.data[i]}, {rows[i]})) { r.fail(mc::fmt("sample %d differs: ", i) + rows_text({e.data[i]}) + " instead of " + rows_text({rows[i]})); break; }
    }
  }
  std::string bounds() override {
    return mc::fmt("%zu time axes (0 to 4 samples), 1 to 3 signals, every choice of values from %zu numbers of 6 significant digits, infinite, NaN (the first two samples vary freely, the others follow), over a file that held a longer trace, into a driver that held another one; "
      "text files of 1 to 3 lines with every combination of separator (blank, two blanks, tab), leading and trailing blanks, carriage return, spelling of the numbers, empty lines and final newline or none; files of 10 to 70000 samples of 1 to 300 signals with numbers of 4 kinds", T.size(), V.size());
  }
  std::string file() { const char* d = getenv("VERIF_SCRATCH"); return std::string(d ? d : "/tmp") + mc::fmt("/trace.%d.txt", (int)getpid()); }
  static std::string slurp(const std::string& f) { std::ifstream i(f.c_str()); std::stringstream s; s << i.rdbuf(); return s.str(); }
  static void put(const std::string& f, const std::string& s) { std::ofstream o(f.c_str()); o << s; }
  static bool alike(double a, double b, double tol) { return a == b || (std::isnan(a) && std::isnan(b)) || (std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= tol * std::fabs(b)); }
  static bool eq(const std::vector<Row>& a, const std::vector<Row>& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) { if (a[i].size() != b[i].size()) return false; for (size_t k = 0; k < a[i].size(); k++) if (!alike(a[i][k], b[i][k], 1e-12)) return false; }
    return true;
  }
  void run(long b, mc::Run& r) override {
    std::string fn = file();
    if (b >= (long)T.size() * 3 + 6) many(b - T.size() * 3 - 6, r, fn);
    else if (b >= (long)T.size() * 3) text(b - T.size() * 3, r, fn);
    else {
      const Row& t = T[b / 3]; int ns = b % 3 + 1;
      int fr = std::min<int>(t.size(), 2) * ns; if (fr > 4) fr = 4;
      static const char* S[] = {"signal x", "signal x, y", "signal x, y, w"};
      STLDriver d, e; std::string sp = std::string(S[ns - 1]) + "\nphi := ev_[0, 1] (x[t] > 0)";
      d.parse_string(sp); e.parse_string(sp);
      product(fr, V.size(), [&](std::vector<int>& k) {
        std::vector<Row> rows;
        for (size_t i = 0; i < t.size(); i++) { Row w{t[i]}; for (int s = 0; s < ns; s++) { size_t q = i * ns + s; w.push_back(V[fr ? (k[q % fr] + q / fr) % V.size() : 0]); } rows.push_back(w); }
        if (!r.enter([&] { return "trace " + rows_text(rows); })) return;
        r.states(rows.size() + 1); r.transitions(2); r.outcome_hash(k.empty() ? 1 : k[0] + 10 * k.back() + 100 * b);
        put(fn, "0 1 2 3\n1 1 1 1\n2 2 2 2\n3 3 3 3\n4 4 4 4\n5 5 5 5\n6 6 6 6\n7 7 7 7 77777777777777777777777777777\n");
        d.data = rows; d.dump_trace_file(fn);
        if (!eq(d.data, rows)) { r.fail("writing changed the data"); return; }
        e.data = {{0, 9, 9, 9}, {1, 8, 8, 8}};
        if (!e.read_trace_file(fn)) { r.fail("cannot be read back"); return; }
        if (!eq(e.data, rows)) { r.fail("read back as " + rows_text(e.data) + "; file: " + slurp(fn)); return; }
        if (!rows.empty()) {
          r.nontrivial();
          auto p = d.get_online_rob("phi", rows[0][0]), q = e.get_online_rob("phi", rows[0][0]);
          for (size_t i = 0; i < p.size(); i++) if (!alike(p[i], q[i], 1e-9) && !close(p[i], q[i])) { r.fail("robustness differs"); return; }
        }
        e.dump_trace_file(fn); d.data.clear(); d.read_trace_file(fn); r.transitions(2);
        if (!eq(d.data, rows)) { r.fail("second round trip: " + rows_text(d.data)); return; }
      });
    }
    unlink(fn.c_str());
  }
  void text(int b, mc::Run& r, const std::string& fn) {
    static const char* SEP[] = {" ", "  ", "\t"}; static const char* LEAD[] = {"", " ", "\t"}; static const char* TRAIL[] = {"", " ", "  ", "\t", "\r", " \r"};
    static const char* NUM[] = {"1", "1.0", "1e0", "+1.", "0.1e1", "100e-2", ".01E+2"};
    int lines = b % 3 + 1, blank = b / 3;
    for (const char* sep : SEP) for (const char* lead : LEAD) for (const char* t1 : TRAIL) for (const char* t2 : TRAIL) for (const char* num : NUM) for (int dim = 1; dim <= 3; dim++) for (int nl = 0; nl < 2; nl++) {
      std::string s; std::vector<Row> rows;
      for (int l = 0; l < lines; l++) {
        Row w{(double)l}; std::string x = lead + mc::fmt("%d", l);
        for (int k = 1; k < dim; k++) { x += sep; if (k == 1) { x += num; w.push_back(1); } else { x += mc::fmt("-%d.5", l); w.push_back(-(l + 0.5)); } }
        x += l ? t2 : t1;
        if (l + 1 < lines) x += "\n"; else if (nl) x += "\n";
        if (blank && l + 1 < lines) x += "\n";
        s += x; rows.push_back(w);
      }
      if (!r.enter([&] { return "file <" + s + ">"; })) continue;
      put(fn, s); r.states(1); r.transitions(1); r.nontrivial(); r.outcome_hash(lines * 8 + dim);
      STLDriver d; d.data = {{0, 9, 9, 9}};
      if (!d.read_trace_file(fn)) { r.fail("cannot be read"); continue; }
      if (!eq(d.data, rows)) r.fail("read as " + rows_text(d.data) + " instead of " + rows_text(rows));
    }
  }
};
int main(int c, char** v) { P p; return mc::explore_main(p, c, v); }
