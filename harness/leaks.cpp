// C22: allocations are counted.  Every sequence of operations on drivers, monitors and signals, and every input
// text, is executed; when the objects are gone nothing that was allocated for them may be left, and asking again
// for what was just computed may not take more memory than it took before.
#include "ops.hpp"
#include "texts.hpp"

static long live = 0;
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); live++; return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) live--; free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

struct P : Texts {
  std::vector<Op> ops, sops; long nO = 0, nS = 0; std::string dir;
  int depO() { return thorough ? 3 : 2; }
  int depS() { return 3; }
  void init() override {
    Texts::init(); operations(ops, sops);
    nO = (long)W.size() * ops.size(); nS = sops.size();
    const char* sd = getenv("VERIF_SCRATCH"); dir = sd ? sd : "."; if (chdir(dir.c_str())) {}
    srand(1);
  }
  long blocks() override { return nO + nS + Texts::blocks(); }
  double case_limit() override { return 20; }
  std::string bounds() override {
    return mc::fmt("%zu specifications x 2 initial data sets x every sequence of %d out of %zu operations on a driver and two monitors, with evaluations after it; every sequence of %d out of %zu operations on three signals; texts: ", W.size(), depO(), ops.size(), depS(), sops.size()) + Texts::bounds();
  }
  static void safely(const std::function<void()>& f) { try { f(); } catch (const std::exception&) {} }
  // nothing is left of what f allocates
  void balanced(mc::Run& r, const char* what, const std::function<void()>& f) {
    long d = 0;
    for (int k = 0; k < 3; k++) {                 // what is allocated once only, the first time, is a cache
      long a = live; f(); d = live - a;
      if (d <= 0) break;
    }
    if (d < 0) r.fail(mc::fmt("%s: %ld blocks more are released than allocated", what, -d));
    if (d > 0) r.fail(mc::fmt("%s: %ld blocks are never released", what, d));
  }
  static void modes() { Signal::semantics = Semantics::SPACE; Signal::interpol = Interpol::LINEAR; Signal::BigM = 10000; }
  static void evaluations(World& w) {
    safely([&] { w.d.get_online_rob("phi", 0); }); safely([&] { w.d.get_online_rob("psi", 0.5); });
    safely([&] { w.m.eval_rob(0, 0); }); safely([&] { w.m.eval_rob(0.5, 1); w.m.get_lower_rob(); w.m.get_upper_rob(); w.m.get_signal(); }); safely([&] { w.m2.eval_rob(0, 1); });
  }
  void one(mc::Run& r, const std::string& text, lang::Parse& L, bool viable, bool open) override {
    if (!r.enter([&] { return show(text); })) return;
    r.transitions(1); if (viable && L.complete()) r.nontrivial();
    balanced(r, "parsing", [&] { STLDriver d(*base); safely([&] { d.parse_string(text); }); });
    r.outcome_hash(viable);
  }
  void run(long b, mc::Run& r) override {
    if (b < nO) {
      int w = b / ops.size(), first = b % ops.size();
      for (int k = 0; k < 4; k += 2)
        product(depO() - 1, ops.size(), [&](std::vector<int>& rest) {
          std::vector<int> q{first}; q.insert(q.end(), rest.begin(), rest.end());
          if (!r.enter([&] { std::string s = mc::fmt("spec %d, data %d: ", w, k); for (int i : q) s += ops[i].name + "; "; return s; })) return;
          r.states(q.size() + 1); r.transitions(q.size()); r.nontrivial();
          long grown = 0;
          balanced(r, "objects destroyed", [&] {
            modes();
            World x; x.dir = dir + mc::fmt("/p%d", (int)getpid()); mkdir(x.dir.c_str(), 0700); x.spec(w); x.d.data = D[k]; x.m = x.d.get_monitor("phi"); x.m2 = x.d.get_monitor("psi");
            for (int i : q) safely([&] { Obs o; ops[i].f(x, o); });
            evaluations(x);
            if (q.front() != q.back()) return;
            // asking again and again: the deques may take up to a block each more, but no block for every time
            evaluations(x); long a = live; for (int i = 0; i < 50; i++) evaluations(x); grown = live - a;
            if (grown < 50) { grown = 0; return; }
            a = live; for (int i = 0; i < 1000; i++) evaluations(x); grown = live - a;
          });
          if (grown >= 1000) r.fail(mc::fmt("repeating the evaluations 1000 times takes %ld blocks more", grown));
          r.outcome_hash(grown);
        });
      return;
    }
    if ((b -= nO) < nS) {
      product(depS() - 1, sops.size(), [&](std::vector<int>& rest) {
        std::vector<int> q{(int)b}; q.insert(q.end(), rest.begin(), rest.end());
        for (int pre = 0; pre < 3; pre++) {
          if (!r.enter([&] { std::string s = mc::fmt("signals, start %d: ", pre); for (int i : q) s += sops[i].name + "; "; return s; })) continue;
          r.states(q.size() + 1); r.transitions(q.size()); r.nontrivial();
          long size = 0;
          balanced(r, "signals destroyed", [&] {
            modes();
            World x;
            if (pre) { x.s[0].appendSample(0, 1); x.s[0].appendSample(1, -1); x.s[0].appendSample(2, 2); }
            if (pre == 2) { x.s[1].appendSample(0.5, -1); x.s[1].appendSample(3, 4); }
            for (int i : q) safely([&] { Obs o; sops[i].f(x, o); });
            size = x.s[2].size();
          });
          r.outcome_hash(size);
        }
      });
      return;
    }
    Texts::run(b - nS, r);
  }
};
int main(int c, char** v) { P p; return mc::explore_main(p, c, v); }
