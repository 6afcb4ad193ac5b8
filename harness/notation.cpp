// C11: every way of writing a formula down (synonyms, numbers, parentheses, blanks, line breaks, comments,
// named sub-formulas, splitting over inputs) within a number of deviations from the canonical text, explored
// choice by choice.  All of them must be accepted and give, bit for bit, the answers of the canonical text.
#include "gen.hpp"
using namespace gen;
using STLRom::Signal; using STLRom::STLDriver; using STLRom::STLMonitor;

struct Choices {                       // a path of choices; what is not on it yet is choice 0
  std::vector<int> p, n; size_t pos = 0; int D;
  explicit Choices(int d) : D(d) {}
  int pick(int k) { if (pos == p.size()) { p.push_back(0); n.push_back(k); } else n[pos] = k; return p[pos++]; }
  bool next() {
    std::vector<int> dev(p.size() + 1, 0);
    for (size_t i = 0; i < p.size(); i++) dev[i + 1] = dev[i] + (p[i] != 0);
    for (size_t i = p.size(); i-- > 0;) if (p[i] + 1 < n[i] && (p[i] || dev[i] < D)) { p[i]++; p.resize(i + 1); n.resize(i + 1); pos = 0; return true; }
    return false;
  }
};
enum K { SIGX, SIGY, NUM, PAR, ADD, SUB, MUL, ABSV, LESS, MORE, NOTF, EV, ALW, AND2, OR2, IMP2, UNTIL2 };
struct N; typedef std::shared_ptr<N> NP;
struct N { K k; NP a, b; std::string u, v; };         // u, v: number or interval bounds
static NP mk(K k, NP a = 0, NP b = 0, std::string u = "", std::string v = "") { auto n = std::make_shared<N>(); n->k = k; n->a = a; n->b = b; n->u = u; n->v = v; return n; }

struct P : mc::Property {
  struct Case { NP f; int D; };
  std::vector<Case> F;
  std::vector<std::string> canon; std::vector<std::vector<double>> want;
  struct Statement { std::vector<std::string> t; };
  struct Writer {
    Choices& c; bool canonical; std::vector<Statement> st; int names = 0;
    Writer(Choices& q, bool k) : c(q), canonical(k) {}
    int pick(int n) { return canonical ? 0 : c.pick(n); }
    typedef std::vector<std::string> TV;
    static void cat(TV& a, const TV& b) { a.insert(a.end(), b.begin(), b.end()); }
    std::string syn(std::initializer_list<const char*> l) { return *(l.begin() + pick(l.size())); }
    TV number(const std::string& s) {
      if (s == "p" || s == "q") return {s};
      switch (pick(4)) {
        case 1: return {s.find('.') == std::string::npos ? s + ".0" : s + "0"};
        case 2: return {s[0] == '-' ? "-0" + s.substr(1) : "0" + s};
        case 3: return {s.find('.') == std::string::npos ? s + "." : s[0] == '0' ? s.substr(1) : s + "00"};
        default: return {s};
      }
    }
    TV wrap(TV t, int k) { while (k--) { t.insert(t.begin(), "("); t.push_back(")"); } return t; }
    bool unit(const NP& e) { return e->k == SIGX || e->k == SIGY || e->k == NUM || e->k == PAR; }
    TV expr(const NP& e, bool operand) {
      TV t;
      switch (e->k) {
        case SIGX: t = {"x", "[", "t", "]"}; break;
        case SIGY: t = {"y", "[", "t", "]"}; break;
        case NUM: case PAR: t = number(e->u); break;
        case ABSV: t = {"abs", "("}; cat(t, expr(e->a, false)); t.push_back(")"); break;
        default: t = expr(e->a, true); t.push_back(e->k == ADD ? "+" : e->k == SUB ? "-" : "*"); cat(t, expr(e->b, true));
      }
      int must = operand && !unit(e);
      return wrap(t, must + pick(2));
    }
    bool atom(const NP& f) { return f->k == LESS || f->k == MORE; }
    bool unary(const NP& f) { return f->k == NOTF || f->k == EV || f->k == ALW; }
    TV ival(const NP& f) {
      TV t = {"["}; cat(t, number(f->u));
      if (pick(2) == 0) t.push_back(",");
      cat(t, number(f->v)); t.push_back("]"); return t;
    }
    // operand: 0 whole statement, 1 of a unary operator, 2 of a binary one
    TV form(const NP& f, int operand) {
      TV t;
      switch (f->k) {
        case LESS: t = expr(f->a, false); t.push_back(syn({"<", "<="})); cat(t, expr(f->b, false)); break;
        case MORE: t = expr(f->a, false); t.push_back(syn({">", ">="})); cat(t, expr(f->b, false)); break;
        case NOTF: t = {syn({"not", "!"})}; cat(t, form(f->a, 1)); break;
        case EV: t = {syn({"ev_", "ev", "F", "F_", "<>", "<>_"})}; cat(t, ival(f)); cat(t, form(f->a, 1)); break;
        case ALW: t = {syn({"alw_", "alw", "G", "G_", "[]", "[]_"})}; cat(t, ival(f)); cat(t, form(f->a, 1)); break;
        case UNTIL2: { t = form(f->a, 2); std::string o = syn({"until_", "until", "U", "U_"}); t.push_back(o); cat(t, ival(f)); cat(t, form(f->b, 2)); break; }
        default: { t = form(f->a, 2); std::string o = f->k == AND2 ? syn({"and", "&"}) : f->k == OR2 ? syn({"or", "|"}) : syn({"=>", "->"}); t.push_back(o); cat(t, form(f->b, 2)); }
      }
      bool named = false;
      if (operand) {
        int nm = pick(4);
        if (nm) {
          static const char* base[] = {"", "n", "ev_x", "t1_"};
          std::string id = base[nm] + std::to_string(++names);
          Statement s; s.t = {id, ":="}; cat(s.t, t); st.push_back(s); t = {id}; named = true;
        }
      }
      if (!operand) return wrap(t, pick(3));
      bool opt = named || atom(f) || (operand == 1 && unary(f));
      static const int with[] = {1, 0, 2, 3}; static const int without[] = {1, 2, 3};
      return wrap(t, opt ? with[pick(4)] : without[pick(3)]);
    }
  };
  static bool glue(const std::string& a, const std::string& b) {       // may nothing stand between them?
    auto word = [](char c) { return isalnum((unsigned char)c) || c == '_' || c == '.'; };
    char x = a.back(), y = b.front();
    if (word(x) && (word(y) || y == '+' || y == '-')) return false;
    if ((x == '+' || x == '-') && (word(y))) return false;
    if (a == "[" && b == "]") return false;
    if (x == '<' && (y == '>' || y == '=')) return false;
    if ((x == '-' || x == '=' || x == '>') && (y == '>' || y == '=')) return false;
    if ((a == "<>" || a == "[]") && y == '_') return false;
    return true;
  }
  // the inputs that define phi
  std::vector<std::string> write(const NP& f, Choices& c, bool canonical) {
    Writer w(c, canonical);
    int style = w.pick(5);
    auto root = w.form(f, 0);
    Statement head, par; head.t = {"signal", "x", ",", "y"}; par.t = {"param", "p", "=", "1.5", ",", "q", "=", "0.5"};
    w.st.insert(w.st.begin(), par); w.st.insert(w.st.begin(), head);
    Statement s; s.t = {"phi", ":="}; s.t.insert(s.t.end(), root.begin(), root.end()); w.st.push_back(s);
    static const char* SEP[] = {" ", "", "\n", "\t \t", "\r\n", " # a comment := ( ev [ \"\n", "\n\n#\n"};
    static const char* STYLE[] = {" ", "", "\n", " #and not\n", "\r\n\t"};
    std::vector<std::string> in(1); std::string prev;
    for (size_t i = 0; i < w.st.size(); i++) {
      if (i && (w.pick(2) == 1)) { in.push_back(""); prev.clear(); }
      for (auto& t : w.st[i].t) {
        if (!prev.empty()) {
          bool g = glue(prev, t);
          int k = style ? 0 : w.pick(7);
          std::string sep = style ? STYLE[style] : SEP[k];
          if (sep.empty() && !g) sep = " ";
          in.back() += sep;
        }
        in.back() += t; prev = t;
      }
    }
    switch (w.pick(4)) { case 1: in.back() += "\n"; break; case 2: in[0] = "# header\n" + in[0]; break; case 3: in.back() += " # end\n\n"; break; }
    return in;
  }
  // answers on a few traces, whole and partial
  static void answers(STLDriver& d, std::vector<double>& v, bool more) {
    static const double A[][3] = {{0, 1, -1}, {0.75, -2, 0.5}, {1.5, 3, 2}, {2.5, 0.25, -1}, {4, -1, 1}, {7, 2, 1}};
    static const double B[][3] = {{0, -0.5, 0.25}, {1, 0.75, 2}, {2, 1.25, -3}, {3.5, 0.5, 1}};
    auto ask = [&](double s, double e) {
      auto m = d.get_monitor("phi");
      v.push_back(m.eval_rob(s, e)); v.push_back(m.get_lower_rob()); v.push_back(m.get_upper_rob());
      Signal z = m.get_signal(); v.push_back(z.size()); for (auto& p : z) { v.push_back(p.time); v.push_back(p.value); v.push_back(p.derivative); }
    };
    for (int k = 0; k < (more ? 6 : 3); k++) d.add_sample({A[k][0], A[k][1], A[k][2]});
    ask(0, 0);
    if (more) { ask(0.5, 1); for (double q : d.get_online_rob("phi", 0.)) v.push_back(q); }
    d.data.clear();
    for (int k = 0; k < 4; k++) d.add_sample({B[k][0], B[k][1], B[k][2]});
    ask(0, 1);
  }
  void init() override {
    NP x = mk(SIGX), y = mk(SIGY); auto num = [](const char* s) { return mk(NUM, 0, 0, s); }; NP p = mk(PAR, 0, 0, "p");
    NP A1 = mk(MORE, x, num("0.5")), A2 = mk(LESS, y, num("1")), A3 = mk(MORE, mk(ADD, x, y), p), A4 = mk(LESS, mk(ABSV, mk(SUB, x, num("1"))), mk(MUL, y, num("-2"))),
       A5 = mk(MORE, p, mk(MUL, mk(ADD, x, num("1")), mk(ABSV, y))), A6 = mk(LESS, num("-0.25"), x);
    std::vector<NP> L0 = {A1, A2, A3, A4, A5, A6}, L1, L2;
    auto un = [&](NP f, std::vector<NP>& o) { o.push_back(mk(NOTF, f)); o.push_back(mk(EV, f, 0, "0", "1")); o.push_back(mk(ALW, f, 0, "0.5", "2")); o.push_back(mk(EV, f, 0, "q", "2")); o.push_back(mk(ALW, f, 0, "0", "p")); };
    auto bi = [&](NP f, NP g, std::vector<NP>& o) { o.push_back(mk(AND2, f, g)); o.push_back(mk(OR2, f, g)); o.push_back(mk(IMP2, f, g)); o.push_back(mk(UNTIL2, f, g, "0", "1")); o.push_back(mk(UNTIL2, f, g, "q", "p")); };
    for (auto& f : L0) un(f, L1);
    bi(A1, A2, L1); bi(A3, A6, L1);
    std::vector<NP> base = {L1[0], L1[1], L1[2], L1[3], L1[4]}; bi(A1, A2, base);
    for (auto& f : base) { un(f, L2); bi(f, A6, L2); bi(A2, f, L2); }
    for (size_t i = 0; i < base.size(); i++) bi(base[i], base[(i + 3) % base.size()], L2);
    int q = thorough ? 1 : 0;
    for (auto& f : L0) F.push_back({f, 2 + q});
    for (auto& f : L1) F.push_back({f, 2 + q});
    for (size_t i = 0; i < L2.size(); i++) F.push_back({L2[i], 1 + q + (!thorough && i % 7 == 0)});
    for (auto& f : F) {
      Choices c(0); auto in = write(f.f, c, true);
      STLDriver d; for (auto& s : in) if (!d.parse_string(s)) throw std::runtime_error("canonical text rejected: " + s);
      canon.push_back(in.back()); want.emplace_back(); answers(d, want.back(), true);
    }
  }
  // large texts
  struct Big { int kind, n, how; };
  std::vector<Big> BG; std::vector<double> bigwant;
  static std::string rep(const std::string& s, int n) { std::string o; o.reserve(s.size() * n); while (n-- > 0) o += s; return o; }
  static std::vector<std::string> text(const Big& b) {
    const std::string D = "signal x, y\nparam p=1.5, q=0.5\n", A = "(x[t] > 0.5)", C = "(y[t] < 1)", I = "ev_[0.5, 2] ", W = "phi := " + I + "(" + A + " and " + C + ")"; int n = b.n;
    std::string l = rep("(", n), r = rep(")", n);
    switch (b.kind) {
      case 0: {                           // everything n characters further on
        if (b.how < 3) return {(b.how == 0 ? std::string(n, ' ') : b.how == 1 ? std::string(n, '\n') : "#" + std::string(n - 2, 'x') + "\n") + D + W};
        std::string s; while ((int)s.size() + 16 <= n) s += "# a comment :=\n\n"; s += std::string(n - s.size(), '\t'); return {D + s.substr(D.size()) + W};
      }
      case 1: return {D + "phi := " + (b.how == 0 ? l + I + "(" + A + " and " + C + ")" + r : b.how == 1 ? I + "(" + l + A + r + " and " + C + ")" : b.how == 2 ? I + l + "(" + A + " and " + C + ")" + r : I + "((x[t] > " + l + "0.5" + r + ") and (" + l + "y[t]" + r + " < 1))")};
      case 2: {                           // n names, in one input or one by one
        std::vector<std::string> in(1, D);
        for (int i = 0; i < n; i++) { in.back() += "n" + std::to_string(i) + " := " + (i ? "n" + std::to_string(i - 1) : A) + "\n"; if (b.how) in.push_back(""); }
        in.back() += "phi := " + I + "(n" + std::to_string(n - 1) + " and " + C + ")"; return in;
      }
      case 3: {                           // long names
        std::string id = "n" + std::string(n, 'a') + "_1";
        if (b.how == 0) return {D + id + " := " + A + "\nphi := " + I + "(" + id + " and " + C + ")"};
        if (b.how == 1) return {D + "param " + id + "=2\nphi := ev_[0.5, " + id + "] (" + A + " and " + C + ")"};
        return {"signal " + id + ", y\nparam p=1.5, q=0.5\nphi := " + I + "((" + id + "[t] > 0.5) and " + C + ")"};
      }
      case 4: {                           // n other declarations
        std::string s;
        for (int i = 0; i < n; i++) s += b.how == 0 ? (i ? ", a" : "param a") + std::to_string(i) + "=" + std::to_string(i) : b.how == 1 ? "param a" + std::to_string(i) + "=" + std::to_string(i) + "\n" : "f" + std::to_string(i) + " := alw_[0, " + std::to_string(i) + "] (x[t] > " + std::to_string(i) + ")\n";
        return {D + s + "\n" + W};
      }
      case 5: { std::string z(n, '0'); return {D + "phi := ev_[" + z + "0.5" + z + ", 2." + z + "] ((x[t] > 0.5" + z + ") and (y[t] < " + z + "1))"}; }
      case 6: return {D + "phi := " + I + rep("not (", 2 * n) + A + " and " + C + rep(")", 2 * n)};
      case 8: {                           // names that differ in little
        std::vector<std::string> N; std::string h(n / 2, 'a'), g(n - n / 2, 'b');
        for (int k = 0; k < 6; k++) N.push_back(
          b.how == 0 ? "n" + h + g + std::to_string(k) : b.how == 1 ? std::string(1, "aZtnUF"[k]) + "x" + h + g : b.how == 2 ? "n" + h + g + std::string(k, 'c') : b.how == 3 ? "n" + h + g + std::string(5 - k, 'c') :
          b.how == 4 ? "n" + h + g + "aAbBcC"[k] : b.how == 5 ? "n" + h + std::string(1, "cCdD_9"[k]) + g : "n" + h + std::string(k, '_') + g + "_");
        return {"signal " + N[0] + ", " + N[1] + "\nparam " + N[2] + "=2, " + N[3] + "=0.5\n" + N[4] + " := " + N[0] + "[t] > " + N[3] + "\n" + N[5] + " := " + N[1] + "[t] < 1\nphi := ev_[" + N[3] + ", " + N[2] + "] (" + N[4] + " and " + N[5] + ")"};
      }
      default: {                          // n characters between any two tokens
        std::string s = b.how == 0 ? std::string(n, ' ') : b.how == 1 ? "#" + std::string(n, '#') + "\n" : rep("\r\n", n), o;
        for (const char* t : {"signal", "x", ",", "y", "param", "p", "=", "1.5", "phi", ":=", "ev_", "[", "0.5", ",", "2", "]", "(", "(", "x", "[", "t", "]", ">", "0.5", ")", "and", "(", "y", "[", "t", "]", "<", "1", ")", ")"}) o += t + s;
        return {o};
      }
    }
  }
  long blocks() override {
    BG.clear();
    for (int base : {8192, 16384, 32768}) for (int n = base - 150; n < base + 4; n++) for (int h = 0; h < 4; h++) if (thorough || base < 32768 || n % 5 == h) BG.push_back({0, n, h});
    for (int n : {1, 2, 7, 20, 50, 100, 199, 200, 201, 500, 1000}) for (int h = 0; h < 4; h++) BG.push_back({1, n, h});
    for (int n : {1, 2, 15, 16, 50, 100, 300}) for (int h = 0; h < 2; h++) BG.push_back({2, n, h});
    for (int n : {1, 30, 60, 127, 254, 255, 256, 1000, 4095, 8190, 9000, 16384, 20000}) for (int h = 0; h < 3; h++) BG.push_back({3, n, h});
    for (int n : {1, 10, 127, 128, 255, 256, 500, 1000}) for (int h = 0; h < 3; h++) BG.push_back({4, n, h});
    for (int n : {1, 5, 15, 16, 17, 30, 100, 300, 1000}) BG.push_back({5, n, 0});
    for (int n : {1, 2, 5, 20, 64, 200, 500}) BG.push_back({6, n, 0});
    for (int n : {1, 2, 10, 100, 255, 256, 500, 1000}) for (int h = 0; h < 3; h++) BG.push_back({7, n, h});
    for (int n : {0, 1, 2, 3, 5, 7, 8, 12, 15, 16, 20, 31, 32, 63, 100, 255, 256, 1000}) for (int h = 0; h < 7; h++) BG.push_back({8, n, h});
    STLDriver d; for (auto& s : text({1, 1, 0})) d.parse_string(s);
    bigwant.clear(); answers(d, bigwant, true);
    return F.size() * 4 + (BG.size() + 15) / 16;
  }
  void big(const Big& b, mc::Run& r) {
    static const char* KN[] = {"text moved", "parentheses", "names", "long names", "other declarations", "zeros", "double negations", "characters between tokens", "names that differ in little"};
    auto in = text(b);
    if (!r.enter([&] { return mc::fmt("large text: %s, n = %d, variant %d: ", KN[b.kind], b.n, b.how) + (in.back().size() > 300 ? in.back().substr(0, 100) + " ... " + in.back().substr(in.back().size() - 150) : in.back()); })) return;
    STLDriver d; r.states(1); r.transitions(in.size());
    for (auto& s : in) if (!d.parse_string(s)) { r.fail("rejected"); return; }
    r.nontrivial(); std::vector<double> v; answers(d, v, true); r.outcome(v[0]);
    if (v.size() != bigwant.size() || memcmp(v.data(), bigwant.data(), 8 * v.size())) r.fail("answers differ from those of the plain text");
  }
  std::string bounds() override {
    return mc::fmt("%zu formulas; every text within a number of deviations (%d for atoms and one operator, %d to %d for two operators) from the canonical one: synonyms of operators and comparisons, spelling of numbers, comma or blank, 0-3 parentheses, each sub-formula named (3 kinds of names), statements in one input or split anywhere, 7 separators between any two tokens or one of 5 everywhere, comments before and after; answers on 2 traces and several windows; %zu large texts: moved to every position around 8192, 16384 and 32768 by blanks, line breaks or comments, up to 1000 parentheses, 300 names defined by one another, names of up to 20000 characters, names that differ in their length, case or one character (after up to 1000 equal ones), 1000 other declarations, 1000 zeros, 500 double negations, 1000 characters between any two tokens",
      F.size(), thorough ? 3 : 2, thorough ? 2 : 1, 2, BG.size());
  }
  bool per_block_process() override { return false; }
  void run(long b, mc::Run& r) override {
    if (b >= (long)F.size() * 4) { for (size_t i = (b - F.size() * 4) * 16, e = std::min(i + 16, BG.size()); i < e; i++) big(BG[i], r); return; }
    long k = b / 4, part = b % 4, n = 0;
    Choices c(F[k].D);
    do {
      c.pos = 0;
      if (n++ % 4 != part) { write(F[k].f, c, false); continue; }
      auto in = write(F[k].f, c, false);
      if (!r.enter([&] { std::string s; for (auto& t : in) s += (s.empty() ? "" : " | ") + t; s += "   ==   " + canon[k]; for (auto& ch : s) if (ch == '\n') ch = '$'; return s; })) continue;
      STLDriver d; bool ok = true; r.states(1); r.transitions(in.size());
      for (auto& s : in) if (!d.parse_string(s)) { ok = false; break; }
      if (!ok) { r.fail("rejected"); continue; }
      r.nontrivial();
      std::vector<double> v; answers(d, v, true);
      r.outcome(v[0]);
      const auto& w = want[k];
      if (v.size() != w.size() || memcmp(v.data(), w.data(), 8 * v.size())) {
        size_t i = 0; while (i < v.size() && i < w.size() && v[i] == w[i]) i++;
        r.fail(mc::fmt("answers differ from those of the canonical text: %g instead of %g", i < v.size() ? v[i] : 0, i < w.size() ? w[i] : 0));
      }
    } while (c.next());
  }
};
int main(int c, char** v) { P p; return mc::explore_main(p, c, v); }
