// The specification language: a lexer and an Earley recogniser written from the grammar's rules, with the
// symbol tables that decide whether a name is new, a signal, a parameter, a formula or a test.  Independent of
// the generated scanner and parser (no tables, no automaton).
#pragma once
#include <map>
#include <set>
#include <string>
#include <vector>

namespace lang {

enum T { END, LINT, RINT, LP, RP, LT, NOT, GT, AND, OR, IMP, BOX, DIA, UNT, TIME, COMMA, ASG, PLUS, MINUS, MULT, ABS, PARAM, SIGNAL, TEST, BTRUE, BFALSE,
         CONST, STR, COLON, EQ, LC, RC, OTHER, NAME, PARAM_ID, PHI_ID, NEW_ID, SIG_ID, TEST_ID, NT0 };
struct Tok { T k; std::string s; };
struct Lexed { std::vector<Tok> t; bool open_comment = false; };

inline const std::map<std::string, T>& reserved() {
  static const std::map<std::string, T> m = {{"F", DIA}, {"F_", DIA}, {"ev", DIA}, {"ev_", DIA}, {"G", BOX}, {"G_", BOX}, {"alw", BOX}, {"alw_", BOX},
    {"U", UNT}, {"U_", UNT}, {"until", UNT}, {"until_", UNT}, {"and", AND}, {"or", OR}, {"not", NOT}, {"true", BTRUE}, {"false", BFALSE}, {"t", TIME},
    {"abs", ABS}, {"param", PARAM}, {"test", TEST}, {"signal", SIGNAL}};
  return m;
}

inline Lexed lex(const std::string& s) {
  Lexed out; size_t i = 0, n = s.size();
  auto dig = [](char c) { return c >= '0' && c <= '9'; };
  auto alpha = [](char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); };
  static const struct { const char* s; T k; } P[] = {{"<>_", DIA}, {"[]_", BOX}, {"<>", DIA}, {"[]", BOX}, {"=>", IMP}, {"->", IMP}, {"<=", LT}, {">=", GT}, {":=", ASG},
    {"[", LINT}, {"]", RINT}, {"(", LP}, {")", RP}, {"<", LT}, {">", GT}, {"!", NOT}, {",", COMMA}, {"&", AND}, {"|", OR}, {"+", PLUS}, {"-", MINUS}, {"*", MULT},
    {":", COLON}, {"=", EQ}, {"{", LC}, {"}", RC}};
  while (i < n) {
    char c = s[i];
    if (c == ' ' || c == '\t' || c == '\r' || c == '\n') { i++; continue; }
    if (c == '#') {
      size_t e = s.find('\n', i);
      if (e == std::string::npos) { out.open_comment = true; out.t.push_back({OTHER, "#"}); i++; continue; }
      i = e + 1; continue;
    }
    if (alpha(c)) {
      size_t e = i; while (e < n && (alpha(s[e]) || dig(s[e]) || s[e] == '_')) e++;
      std::string w = s.substr(i, e - i); i = e;
      auto r = reserved().find(w);
      out.t.push_back({r == reserved().end() ? NAME : r->second, w});
      continue;
    }
    if (c == '"') {
      size_t e = i + 1; bool ok = false;
      while (e < n) {
        if (s[e] == '"') { ok = true; break; }
        if (s[e] == '\\') { if (e + 1 >= n || s[e + 1] == '\n') break; e += 2; }
        else e++;
      }
      if (ok) { out.t.push_back({STR, s.substr(i + 1, e - i - 1)}); i = e + 1; continue; }
      out.t.push_back({OTHER, "\""}); i++; continue;
    }
    {  // a number has at least one digit
      size_t e = i; if (c == '+' || c == '-') e++;
      size_t d0 = e; while (e < n && dig(s[e])) e++;
      size_t nd = e - d0;
      if (e < n && s[e] == '.') { size_t f = e + 1; while (f < n && dig(s[f])) f++; if (nd || f > e + 1) { nd += f - e - 1; e = f; } }
      if (nd) { out.t.push_back({CONST, s.substr(i, e - i)}); i = e; continue; }
    }
    bool hit = false;
    for (auto& p : P) if (s.compare(i, strlen(p.s), p.s) == 0) { out.t.push_back({p.k, p.s}); i += strlen(p.s); hit = true; break; }
    if (!hit) { out.t.push_back({OTHER, std::string(1, c)}); i++; }
  }
  return out;
}

// grammar
enum NT { Start = NT0, Unit, Assign, TraceTest, TraceEnv, Bool, Params, PList, PAsg, SigDecl, SigList, SigNew, LParams, LList, LAsg, Tests, StlTest,
          Formula, Prim, Interval, Cst, Atom, Expr, Unary, SAtom, Op, BinOp, NSYM };
struct Rule { int l; std::vector<int> r; };
inline const std::vector<Rule>& rules() {
  static const std::vector<Rule> R = {
    {Start, {Unit}}, {Start, {SigDecl}}, {Start, {Start, Unit}},
    {Unit, {Assign}}, {Unit, {TraceTest}}, {Unit, {Params}},
    {Assign, {NEW_ID, ASG, Formula}},
    {TraceTest, {TraceEnv, LC, Tests, RC}},
    {TraceEnv, {TEST, NEW_ID, COLON, STR}}, {TraceEnv, {TEST, NEW_ID, COLON, STR, COMMA, CONST, COMMA, Bool}},
    {Bool, {BTRUE}}, {Bool, {BFALSE}},
    {Params, {PARAM, PList}}, {PList, {PAsg}}, {PList, {PList, COMMA, PAsg}}, {PAsg, {PARAM_ID, EQ, CONST}}, {PAsg, {NEW_ID, EQ, CONST}},
    {SigDecl, {SIGNAL, SigList}}, {SigList, {SigNew}}, {SigList, {SigList, COMMA, SigNew}}, {SigNew, {NEW_ID}}, {SigNew, {SIG_ID}},
    {LParams, {LP, LList, RP}}, {LList, {LAsg}}, {LList, {LList, COMMA, LAsg}}, {LAsg, {PARAM_ID, EQ, CONST}}, {LAsg, {NEW_ID, EQ, CONST}},
    {Tests, {StlTest}}, {Tests, {Tests, StlTest}},
    {StlTest, {NEW_ID, LC, Formula, COMMA, STR, COMMA, STR, COMMA, Bool, RC}}, {StlTest, {NEW_ID, LParams, LC, Formula, COMMA, STR, COMMA, STR, COMMA, Bool, RC}},
    {StlTest, {TEST_ID}}, {StlTest, {TEST_ID, LParams}},
    {Formula, {Prim}}, {Formula, {Formula, BinOp, Prim}}, {Formula, {Formula, UNT, Interval, Prim}},
    {BinOp, {AND}}, {BinOp, {OR}}, {BinOp, {IMP}},
    {Prim, {NOT, Prim}}, {Prim, {DIA, Interval, Prim}}, {Prim, {BOX, Interval, Prim}}, {Prim, {LP, Formula, RP}}, {Prim, {PHI_ID}}, {Prim, {Atom}},
    {Interval, {LINT, Cst, COMMA, Cst, RINT}}, {Interval, {LINT, Cst, Cst, RINT}}, {Cst, {CONST}}, {Cst, {PARAM_ID}},
    {Atom, {Expr, Op, Expr}}, {Op, {LT}}, {Op, {GT}},
    {Expr, {Unary}}, {Expr, {Expr, PLUS, SAtom}}, {Expr, {Expr, MINUS, SAtom}}, {Expr, {Expr, MULT, SAtom}},
    {Unary, {SAtom}}, {Unary, {ABS, LP, Expr, RP}},
    {SAtom, {SIG_ID, LINT, TIME, RINT}}, {SAtom, {CONST}}, {SAtom, {PARAM_ID}}, {SAtom, {LP, Expr, RP}},
  };
  return R;
}
inline const std::vector<std::vector<int>>& by_lhs() {
  static std::vector<std::vector<int>> B;
  if (B.empty()) { B.resize(NSYM); for (size_t i = 0; i < rules().size(); i++) B[rules()[i].l].push_back(i); }
  return B;
}

struct Item { short rule, dot; short from; bool operator==(const Item& o) const { return rule == o.rule && dot == o.dot && from == o.from; } };

// what an input defines
struct Defs {
  std::set<std::string> formulas, tests; std::vector<std::string> signals; std::map<std::string, double> params;
  int trace_tests = 0, queued = 0;
};

// A partial parse; tokens are pushed and popped.
struct Parse {
  std::vector<std::vector<Item>> chart;
  struct State { std::map<std::string, T> sym; Defs d; std::string pending; std::string fresh; bool loose = false; };
  std::vector<State> st;
  std::vector<Tok> in;
  explicit Parse(const std::map<std::string, T>& known) {
    State s; s.sym = known; st.push_back(s);
    chart.emplace_back();
    for (int r : by_lhs()[Start]) add(0, {(short)r, 0, 0});
    close(0);
  }
  void add(size_t k, Item i) { for (auto& x : chart[k]) if (x == i) return; chart[k].push_back(i); }
  void close(size_t k) {
    for (size_t n = 0; n < chart[k].size(); n++) {
      Item i = chart[k][n]; const Rule& r = rules()[i.rule];
      if (i.dot < (int)r.r.size()) { int s = r.r[i.dot]; if (s >= NT0) for (int q : by_lhs()[s]) add(k, {(short)q, 0, (short)k}); }
      else { auto& c = chart[i.from]; for (size_t m = 0; m < c.size(); m++) { Item j = c[m]; const Rule& q = rules()[j.rule]; if (j.dot < (int)q.r.size() && q.r[j.dot] == r.l) { j.dot++; add(k, j); } } }
    }
  }
  bool complete() const { for (auto& i : chart.back()) if (i.from == 0 && rules()[i.rule].l == Start && i.dot == (int)rules()[i.rule].r.size()) return true; return false; }
  bool viable() const { return !chart.back().empty(); }
  bool loose() const { return st.back().loose; }
  void commit_pending(State& s) { if (!s.pending.empty()) { s.d.formulas.insert(s.pending); s.sym[s.pending] = PHI_ID; s.pending.clear(); } }
  // the definitions of the accepted input
  Defs accepted() { State s = st.back(); commit_pending(s); return s.d; }
  const Defs& so_far() const { return st.back().d; }
  const std::string& pending() const { return st.back().pending; }
  bool pending_done() const { return complete(); }
  bool push(const Tok& t) {
    State s = st.back(); size_t k = chart.size();
    T c = t.k;
    if (c == NAME) {
      auto f = s.sym.find(t.s); c = f == s.sym.end() ? NEW_ID : f->second;
      if (t.s == s.fresh || (t.s == s.pending && complete())) s.loose = true;      // whether an immediate redefinition is seen as one is left open
    }
    s.fresh.clear();
    in.push_back(t);
    chart.emplace_back();
    for (size_t n = 0; n < chart[k - 1].size(); n++) { Item i = chart[k - 1][n]; const Rule& r = rules()[i.rule]; if (i.dot < (int)r.r.size() && r.r[i.dot] == (int)c) { i.dot++; add(k, i); } }
    if (!chart[k].empty()) {
      bool starts = false;
      for (auto& i : chart[k]) { const Rule& r = rules()[i.rule]; if (i.dot == 1 && (r.l == Assign || r.l == Params || r.l == TraceEnv)) starts = true; }
      close(k);
      if (starts) { commit_pending(s); }
      for (auto& i : chart[k]) {
        const Rule& r = rules()[i.rule];
        if (i.dot == 1 && r.l == Assign) s.pending = t.s;
        if (i.dot != (int)r.r.size()) continue;
        if (r.l == PAsg) { const std::string& n = in[i.from].s; s.d.params[n] = strtod(t.s.c_str(), 0); s.sym[n] = PARAM_ID; s.fresh = n; }
        if (r.l == SigNew && c == NEW_ID) { s.d.signals.push_back(t.s); s.sym[t.s] = SIG_ID; s.fresh = t.s; }
        if (r.l == StlTest && r.r[0] == NEW_ID) { const std::string& n = in[i.from].s; s.d.tests.insert(n); s.sym[n] = TEST_ID; s.fresh = n; s.d.queued++; }
        if (r.l == StlTest && r.r.size() == 1) s.d.queued++;
        if (r.l == TraceTest) s.d.trace_tests++;
      }
    }
    st.push_back(s);
    return viable();
  }
  void pop() { chart.pop_back(); st.pop_back(); in.pop_back(); }
};
}  // namespace lang
