// Finite alphabets shared by the explorers, and access to the code under test.
#pragma once
#include "stl_driver.h"
#include "oracle.hpp"
#include "mc.hpp"

namespace gen {
using namespace oracle;
typedef std::pair<double, double> Iv;

inline bool uses_y(const FP& f) {
  std::function<bool(const EP&)> ue = [&](const EP& e) -> bool {
    if (!e) return false;
    return (e->op == E_SIG && e->sig == 2) || ue(e->a) || ue(e->b);
  };
  if (!f) return false;
  return ue(f->e1) || ue(f->e2) || uses_y(f->l) || uses_y(f->r);
}
inline int temporal_ops(const FP& f) {
  if (!f) return 0;
  return (f->op == F_EV || f->op == F_ALW || f->op == F_UNTIL) + temporal_ops(f->l) + temporal_ops(f->r);
}
inline bool has(const FP& f, FOp o) { return f && (f->op == o || has(f->l, o) || has(f->r, o)); }

inline FP xg(double c = 0) { return atom(F_GT, sig(1), cst(c)); }
inline FP xl(double c = 1) { return atom(F_LT, sig(1), cst(c)); }
inline FP yg(double c = 0) { return atom(F_GT, sig(2), cst(c)); }
inline FP yl(double c = 1) { return atom(F_LT, sig(2), cst(c)); }

// every operator of `ops` applied to l (and r), with every interval
inline void apply_unary(const FP& l, const std::vector<Iv>& I, std::vector<FP>& out, bool neg = true) {
  if (neg) out.push_back(un(F_NOT, l));
  for (auto& i : I) { out.push_back(temp(F_EV, i.first, i.second, l)); out.push_back(temp(F_ALW, i.first, i.second, l)); }
}
inline void apply_bool(const FP& l, const FP& r, std::vector<FP>& out) {
  out.push_back(bin(F_AND, l, r)); out.push_back(bin(F_OR, l, r)); out.push_back(bin(F_IMP, l, r));
}
inline void apply_until(const FP& l, const FP& r, const std::vector<Iv>& I, std::vector<FP>& out) {
  for (auto& i : I) out.push_back(temp(F_UNTIL, i.first, i.second, l, r));
}

inline std::string rows_text(const std::vector<std::vector<double>>& rows) {
  std::string s;
  for (auto& r : rows) { s += "("; for (size_t k = 0; k < r.size(); k++) s += (k ? "," : "") + num(r[k]); s += ")"; }
  return s;
}

// calls f(digits) for every digit string of n digits in base b
template <class F> void product(int n, int b, F f) {
  std::vector<int> d(n, 0);
  for (;;) {
    f(d);
    int k = n - 1;
    while (k >= 0 && ++d[k] == b) d[k--] = 0;
    if (k < 0) return;
  }
}

inline bool close(double a, double b, double tol = 1e-6) { return std::fabs(a - b) <= tol * std::max(1.0, std::fabs(b)); }

// value of a library signal at t
inline double value_at(const STLRom::Signal& s, double t) {
  size_t i = 0;
  while (i + 1 < s.size() && s[i + 1].time <= t + 1e-12) i++;
  return s[i].valueAt(t);
}
inline double value_left(const STLRom::Signal& s, double t) {     // limit from the left
  size_t i = 0;
  while (i + 1 < s.size() && s[i + 1].time < t - 1e-9) i++;
  return s[i].valueAt(t);
}
inline std::string sigtext(const STLRom::Signal& s) {
  std::string o = mc::fmt("[%g,%g]", s.beginTime, s.endTime);
  for (auto& p : s) o += mc::fmt(" (%g: %g, %g/s)", p.time, p.value, p.derivative);
  return o;
}

inline STLRom::STLDriver driver_for(const std::string& text, const std::string& decl = "signal x,y") {
  STLRom::STLDriver d;
  if (!d.parse_string(decl) || !d.parse_string("phi := " + text)) throw std::runtime_error("not parsed: " + text);
  return d;
}

// sample times covering [t0, E]
inline std::vector<std::vector<double>> grids(double t0, double E, int n, int how) {
  auto snap = [](double x) { return std::round(x * 8) / 8; };
  std::vector<std::vector<double>> G;
  double L = E - t0;
  auto add = [&](std::vector<double> fr, double extra) {
    std::vector<double> g;
    for (double q : fr) { double x = t0 + snap(q * L); if (g.empty() || x > g.back()) g.push_back(x); }
    if (g.back() < E) g.push_back(E);
    if (g.size() > 1) g.back() += extra; else g.push_back(E + (extra > 0 ? extra : 1));
    G.push_back(g);
  };
  std::vector<double> u; for (int i = 0; i < n; i++) u.push_back(double(i) / (n - 1));
  add(u, 0);                                               // even, ends exactly at the horizon
  std::vector<double> d; for (int i = 0; i < n; i++) d.push_back(i == n - 1 ? 1 : 0.55 * i / (n - 1));
  add(d, 0.375);                                           // dense at the start, ends after it
  std::vector<double> e; for (int i = 0; i < n; i++) e.push_back(i == 0 ? 0 : 0.35 + 0.65 * i / (n - 1));
  add(e, 0.25);                                            // sparse at the start
  if ((int)G.size() > how) G.resize(how);
  return G;
}
// the times of a long trace that covers [T0, T0+L]: decimal steps (how even, unless dyadic) or dyadic ones
inline std::vector<double> long_grid(int how, double L, double& T0, bool dyadic) {
  std::vector<double> g; double st[2];
  switch (how) {
    case 0: T0 = 0; st[0] = st[1] = dyadic ? 0.25 : 0.3; break;
    case 1: T0 = 3; st[0] = 0.125; st[1] = 0.625; break;
    case 2: T0 = dyadic ? 0.125 : 0.1; st[0] = dyadic ? 0.375 : 0.1; st[1] = dyadic ? 0.25 : 0.7; break;
    default: T0 = -2.5; st[0] = 0.5; st[1] = 0.25;
  }
  double x = how == 3 ? T0 - 0.75 : T0;
  for (int k = 0; ; k++) {
    g.push_back(x); if (x >= T0 + L) break;
    x = dyadic || how % 2 ? x + st[k % 2] : g[0] + std::round(10 * (st[0] * ((k + 2) / 2) + st[1] * ((k + 1) / 2))) / 10;
  }
  return g;
}
// values of a long trace: periodic words over `V`, ramps, a spike at every sample
inline std::vector<std::vector<double>> long_words(int n, std::vector<double> V = {-2, 1, 3}) {
  std::vector<std::vector<double>> w; int b = V.size();
  for (int p = 1; p <= 3; p++) product(p, b, [&](std::vector<int>& k) {
    if (p > 1 && std::count(k.begin(), k.end(), k[0]) == p) return;
    std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(V[k[i % p]]); w.push_back(v); });
  for (int s : {-1, 1}) { std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(s * (i - n / 2) * 0.5); w.push_back(v); }
  { std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(i < n / 2 ? i * 0.75 - 2 : (n - i) * 0.375 - 1); w.push_back(v); }
  for (int i = 0; i < n; i++) for (int u = 0; u < 2; u++) { std::vector<double> v(n, u ? V[b - 1] : V[0]); v[i] = u ? V[0] : V[b - 1]; w.push_back(v); }
  return w;
}
// the times of a scaled-up trace: 0: 300, 1: 1100 samples; 2: (for large values); 3 to 5: times far from 0; 6: samples that nearly coincide; 7: small values
const double SMALL = 1. / 262144;
inline std::vector<double> scale_grid(int how, double L, double& T0) {
  std::vector<double> g;
  if (how < 2) { int n = how ? 1100 : 300; double dt = L / n; dt = std::ldexp(std::ceil(std::ldexp(dt, 14)), -14); for (int k = 0; ; k++) { g.push_back(k * dt); if (g.back() >= L) break; } T0 = 0; }
  else if (how == 6) { T0 = 0; const double e = std::ldexp(1., -18); for (int k = 0; k * 0.25 <= L + 0.25; k++) { if (k % 3) g.push_back(k * 0.25 - e); g.push_back(k * 0.25); if (k % 2) g.push_back(k * 0.25 + e); } }
  else { double o[] = {0, 4194304, -4194304, 131072, 0, 0}; g = long_grid(how % 2 ? 1 : 3, L, T0, true); T0 += o[how - 2]; for (auto& x : g) x += o[how - 2]; }
  return g;
}
inline std::vector<std::vector<double>> scale_words(int how, int n) {
  std::vector<std::vector<double>> w;
  if (how == 7) return long_words(n, {-2 * SMALL, SMALL, 3 * SMALL});
  if (how >= 2) { w = long_words(n, how == 2 ? std::vector<double>{-30000, 1, 45000} : std::vector<double>{-2, 1, 3}); return w; }
  auto add = [&](std::function<double(int)> f) { std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(f(i)); w.push_back(v); };
  add([=](int i) { return i * 8. / n - 4; }); add([=](int i) { return 4 - i * 8. / n; });
  add([](int i) { return i % 2 ? 3 : -2; }); add([](int i) { return i % 3 - 1; });
  add([=](int i) { return (i % 2 ? 1 : -1) * (i + 1.) / n; }); add([=](int i) { return (i % 2 ? 2 : -2) * (n - i) * 1. / n; });
  add([=](int i) { return i < n / 2 ? 2 - i * 8. / n : 2 - (n - i) * 8. / n; });
  for (int p : {0, 1, n / 3, n / 3 + 1, n - 2, n - 1}) for (int u = -1; u < 2; u += 2) add([=](int i) { return i == p ? 3 * u : -u; });
  add([](int i) { return (i * i % 7) - 3; }); add([](int i) { int k = 0; while (k * k <= i) k++; return k % 2 ? 2 : -1; });
  return w;
}
// value at one time, where the whole reference signal would take too long (until on many samples)
inline bool pointwise(const FP& f) { return !has(f, F_UNTIL) || (f->op == F_UNTIL ? !has(f->l, F_UNTIL) && !has(f->r, F_UNTIL) : f->op != F_EV && f->op != F_ALW && (!f->l || pointwise(f->l)) && (!f->r || pointwise(f->r))); }
typedef std::function<double(double)> At;
inline At at(const FP& f, const Trace& t, Interp in) {
  Params none;
  if (!has(f, F_UNTIL) || !pointwise(f)) { auto z = std::make_shared<PW>(robust(f, t, none, in)); return [z](double u) { return z->val(u); }; }
  if (f->op == F_UNTIL) { auto x = std::make_shared<PW>(robust(f->l, t, none, in)), y = std::make_shared<PW>(robust(f->r, t, none, in)); double a = f->a, b = f->b; return [=](double u) { return untilAt(*x, *y, u, a, b); }; }
  At l = at(f->l, t, in), r = f->r ? at(f->r, t, in) : At();
  switch (f->op) {
    case F_NOT: return [=](double u) { return -l(u); };
    case F_AND: return [=](double u) { return std::min(l(u), r(u)); };
    case F_OR: return [=](double u) { return std::max(l(u), r(u)); };
    default: return [=](double u) { return std::max(-l(u), r(u)); };
  }
}
}  // namespace gen
