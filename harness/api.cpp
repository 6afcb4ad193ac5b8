// C17: every short sequence of public operations on a driver, two monitors and signals, with ordinary and
// with awkward arguments, under AddressSanitizer, UndefinedBehaviorSanitizer and the debug mode of the
// standard library.  Every sequence runs twice, with the stack and the heap filled with different bytes:
// what is observed must not depend on the fill (nothing uninitialised is used).
#include "ops.hpp"

static unsigned char fill_byte = 0;
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); memset(p, fill_byte, n); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
static void __attribute__((noinline)) fill_stack() { volatile char b[12 << 10]; memset((void*)b, fill_byte, sizeof b); asm volatile("" ::"r"(b) : "memory"); }

struct P : mc::Property {
  std::vector<Op> ops, sops;
  long nA = 0, nB = 0;
  std::vector<int> starts{0, 2};
  void init() override {
    operations(ops, sops);
    if (thorough) for (size_t k = 1; k < D.size(); k++) if (k != 2) starts.push_back(k);
    nA = (long)W.size() * starts.size() * ops.size(); nB = (long)sops.size() * sops.size();
    const char* sd = getenv("VERIF_SCRATCH"); dir = sd ? sd : "."; if (chdir(dir.c_str())) {}
    srand(1);
  }
  std::string dir;
  int depA() { return 2; }
  int depB() { return thorough ? 4 : 3; }
  long blocks() override { return getenv("ONLYB") ? nB : nA + nB; }
  std::string bounds() override {
    return mc::fmt("%zu specifications (also with empty, inverted and negative intervals) x %zu initial data sets (out of, with the operations that set them: none, one sample, late, early, ragged, huge, not a number, unordered) x every sequence of %d out of %zu operations on a driver and two monitors, between a first and a last evaluation of everything; every sequence of %d out of %zu operations on three signals; each twice with different contents of unused memory",
      W.size(), starts.size(), depA(), ops.size(), depB(), sops.size());
  }
  double case_limit() override { return 20; }
  bool per_block_process() override { return true; }
  template <class F> void guarded(mc::Run& r, const char* what, Obs& o, F f) {
    fill_stack();
    try { f(); }
    catch (const std::exception& e) { o.s += "!"; }
    catch (...) { r.fail(std::string("something that is not a std::exception was thrown by ") + what); }
  }
  void last(mc::Run& r, World& w, Obs& o) {
    guarded(r, "get_online_rob", o, [&] { for (double x : w.d.get_online_rob("phi", 0)) o.d(x); });
    guarded(r, "get_online_rob", o, [&] { for (double x : w.d.get_online_rob("psi", 0.5)) o.d(x); });
    guarded(r, "eval_rob", o, [&] { ask(w.m, o, 0, 0); });
    guarded(r, "eval_rob", o, [&] { ask(w.m, o, 0.5, 1); });
    guarded(r, "get_signal", o, [&] { o.sig(w.m.get_signal()); });
    guarded(r, "eval_rob", o, [&] { ask(w.m2, o, 0, 1); });
  }
  void twice(mc::Run& r, const std::function<void(Obs&)>& f) {
    Obs o[2];
    for (int k = 0; k < 2; k++) {
      fill_byte = k ? 0x7f : 0;
      Signal::semantics = Semantics::SPACE; Signal::interpol = Interpol::LINEAR; Signal::BigM = 10000;
      fill_stack();
      f(o[k]);
    }
    fill_byte = 0;
    uint64_t h = o[0].v.size() + std::hash<std::string>()(o[0].s); for (double x : o[0].v) { uint64_t u; memcpy(&u, &x, 8); h = h * 1000003 + u; }
    r.outcome_hash(h);
    if (!(o[0] == o[1])) r.fail("the results depend on the contents of uninitialised memory");
  }
  void run(long b, mc::Run& r) override {
    if (getenv("ONLYB")) b += nA;
    if (b < nA) {
      int w = b / (starts.size() * ops.size()), k = starts[b / ops.size() % starts.size()], first = b % ops.size();
      for (int mid = 0; mid < 2; mid++)            // evaluated before or not
        product(depA() - 1, ops.size(), [&](std::vector<int>& rest) {
          std::vector<int> q{first}; q.insert(q.end(), rest.begin(), rest.end());
          if (!r.enter([&] { std::string s = mc::fmt("spec %d, data %d%s: ", w, k, mid ? ", evaluated" : ""); for (int i : q) s += ops[i].name + "; "; return s; })) return;
          r.states(q.size() + 1); r.transitions(q.size()); r.nontrivial();
          twice(r, [&](Obs& o) {
            World x; x.dir = dir + mc::fmt("/p%d", (int)getpid()); mkdir(x.dir.c_str(), 0700); x.spec(w); x.d.data = D[k];
            x.m = x.d.get_monitor("phi"); x.m2 = x.d.get_monitor("psi");
            if (mid) last(r, x, o);
            for (int i : q) guarded(r, ops[i].name.c_str(), o, [&] { ops[i].f(x, o); });
            last(r, x, o);
          });
        });
      return;
    }
    b -= nA;
    product(depB() - 2, sops.size(), [&](std::vector<int>& rest) {
      std::vector<int> q{(int)(b / sops.size()), (int)(b % sops.size())}; q.insert(q.end(), rest.begin(), rest.end());
      for (int pre = 0; pre < 3; pre++) {
        if (!r.enter([&] { std::string s = mc::fmt("signals, start %d: ", pre); for (int i : q) s += sops[i].name + "; "; return s; })) continue;
        r.states(q.size() + 1); r.transitions(q.size()); r.nontrivial();
        twice(r, [&](Obs& o) {
          World x; x.dir = dir + mc::fmt("/p%d", (int)getpid()); mkdir(x.dir.c_str(), 0700);
          if (pre) { x.s[0].appendSample(0, 1); x.s[0].appendSample(1, -1); x.s[0].appendSample(2, 2); }
          if (pre == 2) { x.s[1].appendSample(0.5, -1); x.s[1].appendSample(3, 4); }
          for (int i : q) { guarded(r, sops[i].name.c_str(), o, [&] { sops[i].f(x, o); }); for (auto& z : x.s) o.sig(z); }
        });
      }
    });
  }
};
int main(int c, char** v) { P p; return mc::explore_main(p, c, v); }
