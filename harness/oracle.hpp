// Reference model of STL quantitative semantics, written independently of the code under test.
// Functions of time are piecewise linear with arbitrary jumps, on a closed domain: a value at every
// breakpoint and a linear piece on every open interval between two breakpoints.  Every operator is
// computed from its textbook definition at a finite set of times that contains all its breakpoints.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <limits>

namespace oracle {

const double EPS = 1e-9;
const double INF = std::numeric_limits<double>::infinity();

struct PW {
  std::vector<double> t, v;     // breakpoints and values there
  std::vector<double> r, l;     // piece i on (t[i],t[i+1]): limit at t[i]+ and at t[i+1]-
  bool empty() const { return t.empty(); }
  double t0() const { return t.front(); }
  double t1() const { return t.back(); }
  int piece(double x) const {   // index i with t[i] <= x < t[i+1] (last piece for x == end); -1 if one point
    int n = (int)t.size();
    if (n < 2) return -1;
    int i = (int)(std::upper_bound(t.begin(), t.end(), x + EPS) - t.begin()) - 1;
    if (i < 0) i = 0;
    if (i > n - 2) i = n - 2;
    return i;
  }
  int at(double x) const {      // index of the breakpoint at x or -1
    auto it = std::lower_bound(t.begin(), t.end(), x - EPS);
    if (it != t.end() && std::fabs(*it - x) <= EPS) return (int)(it - t.begin());
    return -1;
  }
  double lin(int i, double x) const {
    double w = (x - t[i]) / (t[i + 1] - t[i]);
    return r[i] + (l[i] - r[i]) * w;
  }
  bool covers(double x) const { return !empty() && x >= t0() - EPS && x <= t1() + EPS; }
  double val(double x) const {
    int k = at(x);
    if (k >= 0) return v[k];
    return lin(piece(x), x);
  }
  double rlim(double x) const { // limit from the right (value at the end)
    int k = at(x);
    if (k >= 0) return k < (int)r.size() ? r[k] : v[k];
    return lin(piece(x), x);
  }
  double llim(double x) const { // limit from the left (value at the start)
    int k = at(x);
    if (k >= 0) return k > 0 ? l[k - 1] : v[k];
    return lin(piece(x), x);
  }
};

inline void uniq(std::vector<double>& c, double lo, double hi) {
  std::vector<double> d;
  c.push_back(lo); c.push_back(hi);
  std::sort(c.begin(), c.end());
  for (double x : c) {
    if (x < lo - EPS || x > hi + EPS) continue;
    if (d.empty() || x - d.back() > EPS) d.push_back(x);
  }
  // keep the exact end points
  d.front() = lo;
  if (hi - lo <= EPS) d.resize(1); else d.back() = hi;
  c.swap(d);
}

// Build the function from a pointwise evaluator, linear between consecutive candidates.
template <class E> PW build(std::vector<double> c, double lo, double hi, E f) {
  PW z;
  uniq(c, lo, hi);
  z.t = c;
  for (double x : c) z.v.push_back(f(x));
  for (size_t i = 0; i + 1 < c.size(); i++) {
    double p = c[i], q = c[i + 1], h = (q - p) / 3;
    double A = f(p + h), B = f(q - h);
    z.r.push_back(A - (B - A));
    z.l.push_back(B + (B - A));
  }
  // drop redundant breakpoints
  PW y;
  for (size_t i = 0; i < z.t.size(); i++) {
    if (i > 0 && i + 1 < z.t.size()) {
      double s1 = (z.l[i - 1] - y.r.back()) / (z.t[i] - y.t.back());
      double s2 = (z.l[i] - z.r[i]) / (z.t[i + 1] - z.t[i]);
      if (std::fabs(z.l[i - 1] - z.v[i]) < EPS && std::fabs(z.r[i] - z.v[i]) < EPS && std::fabs(s1 - s2) < EPS) {
        y.l.back() = z.l[i];   // extend the current piece
        continue;
      }
    }
    y.t.push_back(z.t[i]); y.v.push_back(z.v[i]);
    if (i + 1 < z.t.size()) { y.r.push_back(z.r[i]); y.l.push_back(z.l[i]); }
  }
  return y;
}

inline PW neg(PW a) {
  for (auto* w : {&a.v, &a.r, &a.l}) for (double& x : *w) x = -x;
  return a;
}

inline PW combine(const PW& a, const PW& b, bool isMax) {
  double lo = std::max(a.t0(), b.t0()), hi = std::min(a.t1(), b.t1());
  PW z;
  if (hi < lo - EPS) return z;
  if (hi < lo) hi = lo;
  std::vector<double> c(a.t); c.insert(c.end(), b.t.begin(), b.t.end());
  uniq(c, lo, hi);
  std::vector<double> d(c);
  for (size_t i = 0; i + 1 < c.size(); i++) {
    double p = a.rlim(c[i]) - b.rlim(c[i]), q = a.llim(c[i + 1]) - b.llim(c[i + 1]);
    if ((p > 0 && q < 0) || (p < 0 && q > 0)) d.push_back(c[i] + (c[i + 1] - c[i]) * p / (p - q));
  }
  return build(d, lo, hi, [&](double x) { double u = a.val(x), w = b.val(x); return isMax ? std::max(u, w) : std::min(u, w); });
}

// sup over the closed window [x+a, x+b]
inline double supAt(const PW& f, double p, double q) {
  double m = std::max(f.val(p), f.val(q));
  if (q - p > EPS) {
    m = std::max(m, std::max(f.rlim(p), f.llim(q)));
    for (size_t i = 0; i < f.t.size(); i++) if (f.t[i] > p + EPS && f.t[i] < q - EPS) {
      m = std::max(m, f.v[i]);
      m = std::max(m, std::max(f.l[i - 1], f.r[i]));
    }
  }
  return m;
}
inline PW window(const PW& f, double a, double b, bool isMax, bool clip = true) {
  if (!isMax) return neg(window(neg(f), a, b, true, clip));
  PW z;
  double lo = f.t0() - a, hi = f.t1() - b;
  if (clip) lo = std::max(lo, std::min(f.t0(), hi));       // nothing before the start of the trace is ever asked for
  if (hi < lo - EPS) return z;
  if (hi < lo) hi = lo;
  std::vector<double> c;
  for (double x : f.t) { c.push_back(x - a); c.push_back(x - b); }
  uniq(c, lo, hi);
  std::vector<double> d(c);
  for (size_t i = 0; i + 1 < c.size(); i++) {
    double p = c[i], q = c[i + 1];
    double A0 = f.rlim(p + a), A1 = f.llim(q + a), B0 = f.rlim(p + b), B1 = f.llim(q + b);
    double K = -INF, m = (p + q) / 2;
    for (size_t k = 0; k < f.t.size(); k++) if (f.t[k] > m + a && f.t[k] < m + b) {
      K = std::max(K, f.v[k]);
      if (k) K = std::max(K, f.l[k - 1]);
      if (k < f.r.size()) K = std::max(K, f.r[k]);
    }
    auto cross = [&](double u0, double u1) {     // zero of linear u on (p,q)
      if ((u0 > 0 && u1 < 0) || (u0 < 0 && u1 > 0)) d.push_back(p + (q - p) * u0 / (u0 - u1));
    };
    cross(A0 - B0, A1 - B1);
    if (K > -INF) { cross(A0 - K, A1 - K); cross(B0 - K, B1 - K); }
  }
  return build(d, lo, hi, [&](double x) { return supAt(f, x + a, x + b); });
}

// sup_{t' in [t+a,t+b]} min( y(t'), inf_{[t,t']} x )
inline double untilAt(const PW& x, const PW& y, double t, double a, double b) {
  std::vector<double> c;
  for (double u : x.t) c.push_back(u);
  for (double u : y.t) c.push_back(u);
  c.push_back(t + a);
  uniq(c, t, t + b);
  double best = -INF, M = INF;
  for (size_t i = 0; i < c.size(); i++) {
    double p = c[i];
    M = std::min(M, x.val(p));
    if (p >= t + a - EPS) best = std::max(best, std::min(y.val(p), M));
    if (i + 1 == c.size()) break;
    double q = c[i + 1];
    double x0 = x.rlim(p), x1 = x.llim(q);
    if (p >= t + a - EPS) {                       // sup of min of three linear functions on (p,q)
      double y0 = y.rlim(p), y1 = y.llim(q);
      double L[3][2] = {{y0, y1}, {M, M}, {x0, x1 < x0 ? x1 : x0}};
      std::vector<double> w{0, 1};
      for (int u = 0; u < 3; u++) for (int s = u + 1; s < 3; s++) {
        double d0 = L[u][0] - L[s][0], d1 = L[u][1] - L[s][1];
        if ((d0 > 0 && d1 < 0) || (d0 < 0 && d1 > 0)) w.push_back(d0 / (d0 - d1));
      }
      for (double k : w) {
        double m = INF;
        for (auto& e : L) m = std::min(m, e[0] + (e[1] - e[0]) * k);
        best = std::max(best, m);
      }
    }
    M = std::min(M, std::min(x0, x1));
  }
  return best;
}
inline PW until(const PW& x, const PW& y, double a, double b, bool clip = true) {
  PW z;
  double lo = std::max(x.t0(), y.t0() - a), hi = std::min(x.t1(), y.t1()) - b;
  if (clip) lo = std::max(lo, std::min(x.t0(), hi));
  if (hi < lo - EPS) return z;
  if (hi < lo) hi = lo;
  // levels the value can rest on, and times it can change regime at
  std::vector<double> T(x.t), L;
  T.insert(T.end(), y.t.begin(), y.t.end());
  double dlo = std::max(x.t0(), y.t0()), dhi = std::min(x.t1(), y.t1());
  uniq(T, dlo, dhi);
  std::vector<double> X;
  for (size_t i = 0; i + 1 < T.size(); i++) {
    double p = x.rlim(T[i]) - y.rlim(T[i]), q = x.llim(T[i + 1]) - y.llim(T[i + 1]);
    if ((p > 0 && q < 0) || (p < 0 && q > 0)) X.push_back(T[i] + (T[i + 1] - T[i]) * p / (p - q));
  }
  T.insert(T.end(), X.begin(), X.end());
  uniq(T, dlo, dhi);
  for (const PW* f : {&x, &y}) {
    std::vector<double> U(f->t); U.insert(U.end(), T.begin(), T.end());
    for (double u : U) { L.push_back(f->val(u)); L.push_back(f->llim(u)); L.push_back(f->rlim(u)); }
  }
  T.insert(T.end(), x.t.begin(), x.t.end());
  T.insert(T.end(), y.t.begin(), y.t.end());
  std::sort(L.begin(), L.end());
  L.erase(std::unique(L.begin(), L.end(), [](double p, double q) { return std::fabs(p - q) < EPS; }), L.end());
  std::vector<double> c;
  for (double u : T) { c.push_back(u); c.push_back(u - a); c.push_back(u - b); }
  uniq(c, lo, hi);
  std::vector<double> d(c);
  for (size_t i = 0; i + 1 < c.size(); i++) {
    double p = c[i], q = c[i + 1];
    struct G { double u, w; };
    std::vector<G> g;
    for (double s : {0.0, a, b}) {
      if (x.covers(p + s) && x.covers(q + s)) g.push_back({x.rlim(p + s), x.llim(q + s)});
      if (y.covers(p + s) && y.covers(q + s)) g.push_back({y.rlim(p + s), y.llim(q + s)});
    }
    auto cross = [&](double u0, double u1) {
      if ((u0 > 0 && u1 < 0) || (u0 < 0 && u1 > 0)) d.push_back(p + (q - p) * u0 / (u0 - u1));
    };
    for (size_t j = 0; j < g.size(); j++) {
      for (size_t k = j + 1; k < g.size(); k++) cross(g[j].u - g[k].u, g[j].w - g[k].w);
      for (double lev : L) cross(g[j].u - lev, g[j].w - lev);
    }
  }
  return build(d, lo, hi, [&](double t) { return untilAt(x, y, t, a, b); });
}

// ---------------------------------------------------------------- traces, expressions, formulas
struct Trace {
  std::vector<std::vector<double>> rows;     // time, signal 1, signal 2 ...
  double t0() const { return rows.front()[0]; }
  double t1() const { return rows.back()[0]; }
};

enum EOp { E_SIG, E_CONST, E_PARAM, E_ADD, E_SUB, E_MUL, E_ABS };
struct Expr {
  EOp op; int sig = 0; double c = 0; std::string name;
  std::shared_ptr<Expr> a, b;
};
typedef std::shared_ptr<Expr> EP;
enum FOp { F_GT, F_LT, F_NOT, F_AND, F_OR, F_IMP, F_EV, F_ALW, F_UNTIL };
struct Form {
  FOp op; EP e1, e2; std::shared_ptr<Form> l, r; double a = 0, b = 0; std::string an, bn;  // an/bn: bounds by parameter
};
typedef std::shared_ptr<Form> FP;

inline EP sig(int i) { auto e = std::make_shared<Expr>(); e->op = E_SIG; e->sig = i; return e; }
inline EP cst(double c) { auto e = std::make_shared<Expr>(); e->op = E_CONST; e->c = c; return e; }
inline EP par(const std::string& n) { auto e = std::make_shared<Expr>(); e->op = E_PARAM; e->name = n; return e; }
inline EP ebin(EOp o, EP a, EP b) { auto e = std::make_shared<Expr>(); e->op = o; e->a = a; e->b = b; return e; }
inline FP atom(FOp o, EP a, EP b) { auto f = std::make_shared<Form>(); f->op = o; f->e1 = a; f->e2 = b; return f; }
inline FP un(FOp o, FP l) { auto f = std::make_shared<Form>(); f->op = o; f->l = l; return f; }
inline FP bin(FOp o, FP l, FP r) { auto f = std::make_shared<Form>(); f->op = o; f->l = l; f->r = r; return f; }
inline FP temp(FOp o, double a, double b, FP l, FP r = nullptr) { auto f = std::make_shared<Form>(); f->op = o; f->a = a; f->b = b; f->l = l; f->r = r; return f; }

typedef std::map<std::string, double> Params;

inline double evalE(const EP& e, const std::vector<double>& row, const Params& P) {
  switch (e->op) {
    case E_SIG: return row[e->sig];
    case E_CONST: return e->c;
    case E_PARAM: return P.at(e->name);
    case E_ADD: return evalE(e->a, row, P) + evalE(e->b, row, P);
    case E_SUB: return evalE(e->a, row, P) - evalE(e->b, row, P);
    case E_MUL: return evalE(e->a, row, P) * evalE(e->b, row, P);
    case E_ABS: return std::fabs(evalE(e->a, row, P));
  }
  return 0;
}

inline std::string num(double x) { std::ostringstream o; o.precision(17); o << x; std::string s = o.str(); 
  if (s.find('e') != std::string::npos) { char b[64]; snprintf(b, sizeof b, "%.12f", x); s = b; } return s; }
static const char* SIGN[] = {"", "x", "y", "w", "s4", "s5"};

inline std::string strE(const EP& e) {
  switch (e->op) {
    case E_SIG: return (e->sig < 6 ? std::string(SIGN[e->sig]) : "s" + num(e->sig)) + "[t]";
    case E_CONST: return num(e->c);
    case E_PARAM: return e->name;
    case E_ADD: return "(" + strE(e->a) + " + " + strE(e->b) + ")";
    case E_SUB: return "(" + strE(e->a) + " - " + strE(e->b) + ")";
    case E_MUL: return "(" + strE(e->a) + " * " + strE(e->b) + ")";
    case E_ABS: return "(abs(" + strE(e->a) + "))";
  }
  return "";
}
inline std::string ivl(const FP& f) {
  return "_[" + (f->an.empty() ? num(f->a) : f->an) + ", " + (f->bn.empty() ? num(f->b) : f->bn) + "] ";
}
inline std::string strF(const FP& f) {
  switch (f->op) {
    case F_GT: return "(" + strE(f->e1) + " > " + strE(f->e2) + ")";
    case F_LT: return "(" + strE(f->e1) + " < " + strE(f->e2) + ")";
    case F_NOT: return "(not " + strF(f->l) + ")";
    case F_AND: return "(" + strF(f->l) + " and " + strF(f->r) + ")";
    case F_OR: return "(" + strF(f->l) + " or " + strF(f->r) + ")";
    case F_IMP: return "(" + strF(f->l) + " => " + strF(f->r) + ")";
    case F_EV: return "(ev" + ivl(f) + strF(f->l) + ")";
    case F_ALW: return "(alw" + ivl(f) + strF(f->l) + ")";
    case F_UNTIL: return "(" + strF(f->l) + " until" + ivl(f) + strF(f->r) + ")";
  }
  return "";
}
inline double A(const FP& f, const Params& P) { return f->an.empty() ? f->a : P.at(f->an); }
inline double B(const FP& f, const Params& P) { return f->bn.empty() ? f->b : P.at(f->bn); }

// how far into the future the formula looks
inline double horizon(const FP& f, const Params& P) {
  double h = 0;
  if (f->l) h = horizon(f->l, P);
  if (f->r) h = std::max(h, horizon(f->r, P));
  if (f->op == F_EV || f->op == F_ALW || f->op == F_UNTIL) h += B(f, P);
  return h;
}

enum Interp { LINEAR, PREVIOUS };

inline PW trace_pw(const std::vector<double>& t, const std::vector<double>& v, Interp in) {
  PW z; z.t = t; z.v = v;
  for (size_t i = 0; i + 1 < t.size(); i++) { z.r.push_back(v[i]); z.l.push_back(in == LINEAR ? v[i + 1] : v[i]); }
  return z;
}

inline PW robust(const FP& f, const Trace& tr, const Params& P, Interp in) {
  switch (f->op) {
    case F_GT: case F_LT: {
      std::vector<double> t, v;
      for (auto& row : tr.rows) {
        double d = evalE(f->e1, row, P) - evalE(f->e2, row, P);
        t.push_back(row[0]); v.push_back(f->op == F_GT ? d : -d);
      }
      return trace_pw(t, v, in);
    }
    case F_NOT: return neg(robust(f->l, tr, P, in));
    default: break;
  }
  PW l = robust(f->l, tr, P, in), r;
  if (l.empty()) return l;
  if (f->r) { r = robust(f->r, tr, P, in); if (r.empty()) return r; }
  switch (f->op) {
    case F_AND: return combine(l, r, false);
    case F_OR: return combine(l, r, true);
    case F_IMP: return combine(neg(l), r, true);
    case F_EV: return window(l, A(f, P), B(f, P), true);
    case F_ALW: return window(l, A(f, P), B(f, P), false);
    case F_UNTIL: return until(l, r, A(f, P), B(f, P));
    default: return l;
  }
}

}  // namespace oracle
