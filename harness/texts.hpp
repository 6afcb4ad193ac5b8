// The input texts that C12 and C22 explore.
#pragma once
#include "gen.hpp"
#include "language.hpp"
using namespace gen;
using STLRom::STLDriver; using STLRom::STLMonitor;

struct Texts : mc::Property {
  // ---- where token sequences are explored: text before, text after
  struct Ctx { std::string pre, post; int depth; };
  std::vector<Ctx> C;
  std::vector<std::string> A = {"x[t]", "x", "[", "t", "]", "(", ")", "<", ">", "not", "and", "or", "=>", "alw", "ev", "until", "[0,1]", ",", ":=", "+", "-", "*", "abs",
    "param", "signal", "test", "true", "false", "p", "phi", "n", "m", "T", "1", "\"s\"", ":", "=", "{", "}", "@", "\x80"};
  std::vector<std::string> full = {
    "a := x[t] > 0", "a := not (x[t] + p > 1) and phi b := ev_[0, p] a", "param r = 1, s = -2.5 a := alw_[r 2] (y[t] < s)",
    "signal w, v a := (w[t] * v[t]) > abs(x[t] - 1)", "a := phi until_[0, 2] (phi => x[t] <= p) param p = 3",
    "test T1: \"e\", 1.5, true { k1 { phi, \"a\", \"b\", true } k2 (p = 2, r = 1) { x[t] > r2, \"a\", \"b\", false } }",
    "param r2 = 0 test T1: \"e\" { k1 (r2 = 1) { ev_[0, r2] x[t] > r2, \"a\", \"b\", true } } test T2: \"f\" { k1 k1 (p=1) }",
    "test T2: \"f\", 2, false { T T (p = 1) } a := phi",
  };
  std::vector<std::vector<std::string>> toks;
  std::vector<std::string> E1;          // tokens inserted by edits
  std::string chars;
  struct Slot { std::string pre, post; };
  std::vector<Slot> slots = {{"", ""}, {"a := x[t] > ", ""}, {"a := ev_[0,1] ", " (x[t] > 0)"}, {"a := ev_", " x[t] > 0\nb := a"}, {"a := phi", " phi"}, {"param r ", "\na := x[t] > r"}};
  std::unique_ptr<STLDriver> base; std::map<std::string, lang::T> known;
  double phi0 = 0, T0 = 0; long nA = 0, nB = 0, nB2 = 0, nC = 0;
  int less = 0;                         // tokens, characters less than C12
  int clen() { return (thorough ? 4 : 3) - less; }
  void init() override {
    chars = std::string("atxp1.-+[]()<>=_,:#\n\"\\&|!*{}@ \x80\xff\x01") + std::string(1, '\0');
    int q = (thorough ? 1 : 0) - less;
    C = {{"", "", 4 + q}, {"a :=", "", 5 + q}, {"a := (", ") and phi", 4 + q}, {"a := alw [", "p ] phi", 4 + q}, {"a := x[t] +", "> p", 4 + q}, {"a := phi", "", 4 + q},
         {"param", "", 6 + q}, {"signal", "", 5 + q}, {"param r = 1", "", 4 + q}, {"test N : \"e\"", "}", 6 + q}, {"test N : \"e\" {", "}", 6 + q},
         {"test N : \"e\" { k {", ", \"a\", \"b\", true } }", 4 + q}, {"test N : \"e\" { k ( ", "{ phi, \"a\", \"b\", false } }", 6 + q}, {"test N : \"e\" { k { phi", "}", 7 + q},
         {"a := x[t] > 1 n := ", "b := phi", 4 + q}, {"a := not phi until [0,1]", "or phi", 4 + q}};
    toks.clear();
    for (auto& f : full) { auto l = lang::lex(f); std::vector<std::string> v; for (auto& t : l.t) v.push_back(t.k == lang::STR ? "\"" + t.s + "\"" : t.s); toks.push_back(v); }
    E1 = {"x", "[", "t", "]", "(", ")", "<", "not", "and", "alw", "until", "[0,1]", ",", ":=", "+", "-", "*", "abs", "param", "signal", "test", "true", "p", "phi", "n", "T", "1", "-2", "\"s\"", ":", "=", "{", "}", "@"};
    base.reset(new STLDriver());
    if (!base->parse_string("signal x, y\nparam p = 0.5, q = 2\nphi := ev_[0, q] (x[t] > p)\ntest T0: \"e\" { T { phi, \"+\", \"-\", true } }")) throw std::runtime_error("base");
    double D[][3] = {{0, -1, 2}, {1, 3, 0}, {2.5, 0.25, 1}, {4, -2, 5}};
    for (auto& d : D) base->data.push_back({d[0], d[1], d[2]});
    known = {{"x", lang::SIG_ID}, {"y", lang::SIG_ID}, {"p", lang::PARAM_ID}, {"q", lang::PARAM_ID}, {"phi", lang::PHI_ID}, {"T", lang::TEST_ID}};
    nA = (long)C.size() * A.size(); nB = 0; for (auto& t : toks) nB += t.size() + 1; nB2 = nB; nC = (long)slots.size() * chars.size();
  }
  bool per_block_process() override { return true; }
  long blocks() override { return nA + nB + nC; }
  std::string bounds() override {
    std::string d; for (auto& c : C) d += mc::fmt("'%s' + %d; ", c.pre.c_str(), c.depth);
    return mc::fmt("token sequences: every viable prefix and each of %zu tokens after it, up to this many tokens after a context: %s; edits: every deletion, insertion, replacement (%zu tokens) and swap, and every pair of a first edit and a second one at or after its place (%s), of %zu complete inputs; characters: every string of up to %d characters out of %zu in %zu places",
      A.size(), d.c_str(), E1.size(), thorough ? "all positions, all tokens" : "next two positions", full.size(), clen(), chars.size(), slots.size());
  }
  static std::string show(const std::string& s) { std::string o; for (unsigned char c : s) if (c < 32 || c > 126) o += mc::fmt("\\x%02x", c); else o += c; return o; }

  virtual void one(mc::Run& r, const std::string& text, lang::Parse& L, bool viable, bool open) = 0;     // one input
  void text(mc::Run& r, const std::string& s) {
    auto l = lang::lex(s);
    lang::Parse L(known); bool v = true;
    for (auto& t : l.t) { if (!(v = L.push(t))) break; }
    r.states(l.t.size());
    one(r, s, L, v, l.open_comment && v);
  }
  void dfs(mc::Run& r, const Ctx& c, std::string s, lang::Parse& L, int left, int first) {
    for (size_t k = 0; k < A.size(); k++) {
      if (first >= 0 && (int)k != first) continue;
      std::string n = s + " " + A[k];
      auto l = lang::lex(A[k]); size_t pushed = 0; bool v = true;
      for (auto& t : l.t) { v = L.push(t); pushed++; if (!v) break; }
      r.states(1);
      one(r, n, L, v, false);
      if (v && !c.post.empty()) {
        auto q = lang::lex(c.post); size_t pp = 0; bool w = true;
        for (auto& t : q.t) { w = L.push(t); pp++; if (!w) break; }
        one(r, n + " " + c.post, L, w, false);
        while (pp--) L.pop();
      }
      if (v && left > 1) dfs(r, c, n, L, left - 1, -1);
      while (pushed--) L.pop();
    }
  }
  typedef std::vector<std::string> TV;
  // every edit of v at position p
  template <class F> void edits(const TV& v, size_t p, F f) {
    if (p < v.size()) {
      TV w = v; w.erase(w.begin() + p); f(w);
      for (auto& e : E1) { w = v; w[p] = e; f(w); }
      if (p + 1 < v.size()) { w = v; std::swap(w[p], w[p + 1]); f(w); }
    }
    for (auto& e : E1) { TV w = v; w.insert(w.begin() + p, e); f(w); }
  }
  static std::string join(const TV& v) { std::string s; for (auto& t : v) s += t + " "; return s; }
  void run(long b, mc::Run& r) override {
    if (b < nA) {
      const Ctx& c = C[b / A.size()];
      lang::Parse L(known);
      for (auto& t : lang::lex(c.pre).t) if (!L.push(t)) throw std::runtime_error("context is not viable: " + c.pre);
      dfs(r, c, c.pre, L, c.depth, b % A.size());
      return;
    }
    b -= nA;
    if (b < nB) {
      size_t k = 0; while (b > (long)toks[k].size()) { b -= toks[k].size() + 1; k++; }
      const TV& v = toks[k];
      if (b == 0) { text(r, full[k]); for (size_t n = 0; n <= v.size(); n++) text(r, join(TV(v.begin(), v.begin() + n))); }
      edits(v, b, [&](const TV& w) {
        text(r, join(w));
        size_t hi = thorough ? w.size() : std::min(w.size(), (size_t)b + 2);
        for (size_t p2 = b; p2 <= hi; p2++) edits(w, p2, [&](const TV& z) { text(r, join(z)); });
      });
      return;
    }
    b -= nB;
    const Slot& s = slots[b / chars.size()]; char c0 = chars[b % chars.size()];
    if (b % chars.size() == 0) text(r, s.pre + s.post);
    for (int n = 0; n < clen(); n++)
      product(n, chars.size(), [&](std::vector<int>& d) { std::string w(1, c0); for (int q : d) w += chars[q]; text(r, s.pre + w + s.post); });
  }
};
