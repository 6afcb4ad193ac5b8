// C13: operators on signals against the reference model.  C14 (signal part): time robustness of a signal.
#include "gen.hpp"
using namespace gen;
using STLRom::Signal; using STLRom::Interpol;
#ifndef PROP
#define PROP 13
#endif

struct Spec { std::vector<double> t, v; double ext, d; std::vector<double> dd; };       // samples, how far the last one is extended, at which slope; dd: a slope per sample (with jumps)

struct P : mc::Property {
  std::vector<Spec> S;
  std::vector<double> T; double step = 0.25; static double TOL;
  const double OFF = PROP == 13 ? 0.5 : 0;
  void init() override {
    T = {0, 1, 2, 3};
    if (thorough) T.push_back(4.5);
    const std::vector<double> V = PROP == 13 ? std::vector<double>{-1, 0, 2} : std::vector<double>{-2, -1, 0, 1, 2};
    int n = T.size(), maxlen = PROP == 13 ? 3 : 5;
    for (int mask = 1; mask < (1 << n); mask++) {
      std::vector<double> ts; for (int k = 0; k < n; k++) if (mask >> k & 1) ts.push_back(T[k]);
      if ((int)ts.size() > maxlen) continue;
      product(ts.size(), V.size(), [&](std::vector<int>& k) {
        std::vector<double> v; for (int i : k) v.push_back(V[i]);
        S.push_back({ts, v, 0, 0});
        for (double d : {0., 1.5, -1.}) S.push_back({ts, v, 0.75, d});
      });
    }
  }
  std::vector<Spec> J;                                  // pieces with any slope, so with jumps
  void jumps() {
    std::vector<std::pair<double, double>> L; for (double v : {-1., 0., 2.}) for (double d : {-2., 0., 1.}) L.push_back({v, d});
    for (auto& t : std::vector<std::vector<double>>{{0, 1, 2}, {0, 0.5, 2.5}, {0, 2}}) product(t.size(), L.size(), [&](std::vector<int>& k) {
      Spec s; s.t = t; s.ext = 1; s.d = 0; for (int i : k) { s.v.push_back(L[i].first); s.dd.push_back(L[i].second); }
      if (!thorough && t[1] == 0.5 && (k[0] + 2 * k[1] + 4 * k[2]) % 3) return;
      J.push_back(s);
    });
  }
  std::vector<Spec> B;                                  // many samples; large values; times far from 0
  static const int NSC = 15;
  void big() {
    B.clear();
    for (int how = 0; how < 8; how++) {
      if (how == 1 && !thorough) continue;
      double T0; auto G = scale_grid(how, how < 2 ? 4 : 8, T0); auto W = scale_words(how, G.size());
      for (int k = 0; k < NSC; k++) { auto& w = W[how < 2 ? k % W.size() : (k * 13 + 1) % W.size()]; Spec s; s.t = G; s.v = w; s.ext = k % 3 ? 0 : 0.75; s.d = (k % 2 ? 1.5 : -1) * (how == 7 ? SMALL : 1); B.push_back(s); }
    }
  }
  long NS = 0, NJ = 0;
  long blocks() override { NS = (long)S.size() * 2; if (PROP == 13) { jumps(); big(); } NJ = J.size(); return NS + NJ + (long)B.size() * 2; }
  std::string bounds() override {
    return mc::fmt("%zu signals: every choice of 1..%d sample times out of %zu, every value from {-1,0,2} (time robustness: {-2,-1,0,1,2}), last sample ending the signal or extended by 0.75 at slope 0, 1.5 or -1; both interpolations; ",
      S.size(), PROP == 13 ? 3 : 5, T.size()) + (PROP == 13 ? mc::fmt("every ordered pair of them, the second at offset 0 and 0.5; untimed and 6 timed windows, 5 windows of until; "
      "the same for %zu signals of 2 or 3 pieces with values {-1,0,2} and slopes {-2,0,1}, so with jumps; the same for %zu signals scaled up in 7 ways, each paired with those of its kind: 300 samples (thorough also 1100), values from -30000 to 45000, times about 4194304, -4194304, 131072, samples 2^-18 apart, values of 2^-18", J.size(), B.size()) : "left and right time robustness");
  }
  static Signal make(const Spec& s, double off) {
    Signal x;
    if (!s.dd.empty()) { for (size_t i = 0; i < s.t.size(); i++) x.push_back(STLRom::Sample(s.t[i] + off, s.v[i], s.dd[i])); x.beginTime = off; }
    else for (size_t i = 0; i < s.t.size(); i++) {
      if (i + 1 == s.t.size()) x.appendSample(s.t[i] + off, s.v[i], s.d); else x.appendSample(s.t[i] + off, s.v[i]);
    }
    x.endTime = s.t.back() + off + s.ext;
    return x;
  }
  static PW model(const Spec& s, double off, Interp in) {
    std::vector<double> t, v; for (double u : s.t) t.push_back(u + off); v = s.v;
    if (!s.dd.empty()) {
      PW z; z.t = t; z.v = v; z.r = v; z.t.push_back(t.back() + s.ext);
      for (size_t i = 0; i < t.size(); i++) z.l.push_back(v[i] + s.dd[i] * (z.t[i + 1] - t[i]));
      z.v.push_back(z.l.back()); return z;
    }
    PW z = trace_pw(t, v, in);
    if (s.ext > 0) { double d = in == PREVIOUS ? 0 : s.d, e = s.v.back() + d * s.ext; z.t.push_back(t.back() + s.ext); z.v.push_back(e); z.r.push_back(s.v.back()); z.l.push_back(e); }
    return z;
  }
  static std::string text(const Spec& s, double off) {
    std::string o; for (size_t i = 0; i < s.t.size(); i++) o += mc::fmt("(%g,%g)", s.t[i] + off, s.v[i]) + (s.dd.empty() ? std::string() : mc::fmt("%+g/s", s.dd[i]));
    if (s.ext > 0) o += mc::fmt(" to %g at slope %g", s.t.back() + off + s.ext, s.d);
    return o;
  }
  // compares a computed signal with the model on [z.t0, z.t1]
  static std::string diff(const Signal& q, const PW& z, bool exact_end = true) {
    if (z.empty()) return "";
    if (q.empty()) return "empty result";
    if (std::fabs(q.beginTime - z.t0()) > 1e-9 || (exact_end && std::fabs(q.endTime - z.t1()) > 1e-9)) return mc::fmt("domain, expected [%g,%g]", z.t0(), z.t1());
    if (std::fabs(q.front().time - z.t0()) > 1e-9) return "first sample is not at the beginning";
    for (size_t i = 0; i < q.size(); i++) {
      if (i + 1 < q.size() && q[i].time > q[i + 1].time + 1e-9) return "samples out of order";
      if (q[i].time > q.endTime + 1e-9) return "sample after the end";
    }
    for (size_t i = 0; i < z.t.size(); i++) {
      double x = z.t[i], v = value_at(q, x);
      if (!close(v, z.v[i], TOL)) return mc::fmt("at %g: got %.9g, expected %.9g", x, v, z.v[i]);
      if (i + 1 < z.t.size()) for (double w : {0.25, 0.5, 0.875}) {
        double y = x + (z.t[i + 1] - x) * w, g = value_at(q, y);
        if (!close(g, z.lin(i, y), TOL)) return mc::fmt("at %g: got %.9g, expected %.9g", y, g, z.lin(i, y));
      }
    }
    return "";
  }
  static bool same(const Signal& a, const Signal& b) {
    if (a.size() != b.size() || a.beginTime != b.beginTime || a.endTime != b.endTime) return false;
    for (size_t i = 0; i < a.size(); i++) if (a[i].time != b[i].time || a[i].value != b[i].value || a[i].derivative != b[i].derivative) return false;
    return true;
  }
  // times where z > 0 changes
  static std::vector<double> zeros(const PW& z) {
    std::vector<double> c(z.t);
    for (size_t i = 0; i + 1 < z.t.size(); i++) if ((z.r[i] > 0 && z.l[i] < 0) || (z.r[i] < 0 && z.l[i] > 0)) c.push_back(z.t[i] + (z.t[i + 1] - z.t[i]) * z.r[i] / (z.r[i] - z.l[i]));
    std::sort(c.begin(), c.end());
    c.erase(std::unique(c.begin(), c.end(), [](double a, double b) { return b - a < 1e-9; }), c.end());
    return c;
  }
  void run(long b, mc::Run& r) override {
    bool jmp = b >= NS && b < NS + NJ, scl = b >= NS + NJ;
    std::vector<Spec> mates; if (scl) { long g = (b - NS - NJ) / 2 / NSC * NSC; mates.assign(B.begin() + g, B.begin() + g + NSC); }
    const std::vector<Spec>& S = jmp ? J : scl ? mates : this->S;
    const Spec& s = jmp ? J[b - NS] : scl ? B[(b - NS - NJ) / 2] : S[b / 2]; Interp in = !jmp && (scl ? b - NS - NJ : b) % 2 ? PREVIOUS : LINEAR;
    TOL = scl ? 1e-6 : 1e-9; if (scl && (b - NS - NJ) / 2 >= (long)B.size() - NSC) TOL = 1e-4 * SMALL; step = scl && s.t.size() > 99 ? 0.4375 : 0.25;
    Signal::interpol = in == PREVIOUS ? Interpol::PREVIOUS : Interpol::LINEAR;
    const char* ip = in == PREVIOUS ? "PREVIOUS " : "LINEAR ";
    PW m = model(s, 0, in);
    if (PROP == 13) unary(s, m, ip, r); else timerob(s, m, ip, r);
    if (PROP != 13) return;
    for (size_t k = 0; k < S.size(); k++) for (int o = 0; o < 2; o++) {
      const Spec& w = S[k]; double off = o * OFF;
      if (!r.enter([&] { return std::string(ip) + "x = " + text(s, 0) + "; y = " + text(w, off); })) continue;
      Signal x = make(s, 0), y = make(w, off), x0 = x, y0 = y;
      PW n = model(w, off, in);
      r.states(2);
      bool common = std::min(m.t1(), n.t1()) >= std::max(m.t0(), n.t0());
      if (!common) continue;
      r.nontrivial();
      for (int op = 0; op < 3; op++) {
        Signal z; PW e;
        if (op == 0) { z.compute_and(x, y); e = combine(m, n, false); }
        if (op == 1) { z.compute_or(x, y); e = combine(m, n, true); }
        if (op == 2) { z.compute_implies(x, y); e = combine(neg(m), n, true); }
        r.transitions(1); r.outcome(e.v[e.v.size() / 2]);
        std::string d = diff(z, e);
        if (!d.empty()) { r.fail(std::string(op == 0 ? "and: " : op == 1 ? "or: " : "implies: ") + d + "; result " + sigtext(z)); break; }
        if (!same(x, x0) || !same(y, y0)) { r.fail("an operand was changed"); break; }
      }
      double B = std::max(m.t0(), n.t0()), E = std::min(m.t1(), n.t1());
      for (Iv w : std::vector<Iv>{{0, INF}, {0, 1}, {0.5, 1}, {0.25, 2.5}, {1, 9}}) {
        Signal z; if (w.second == INF) z.compute_until(x, y); else z.compute_timed_until(x, y, w.first, w.second);
        r.transitions(1);
        std::vector<double> at; for (double t = B; t <= E - w.first + 1e-9; t += step) at.push_back(t);
        if ((b + k) % 4 == 0) for (auto* u : {&m, &n}) { auto c = instants(*u, B, E - w.first, w.first, std::min(w.second, E - B), 1e9); if (c.size() > 40) { for (size_t i = 0; i < 40; i++) c[i] = c[i * c.size() / 40]; c.resize(40); } at.insert(at.end(), c.begin(), c.end()); }
        for (double t : at) {
          double e = untilAt(m, n, t, w.first, std::min(w.second, E - t)), v = value_at(z, t);
          if (!close(v, e, TOL)) { r.fail(mc::fmt("until_[%g,%g] at %g: got %.9g, expected %.9g; result ", w.first, w.second, t, v, e) + sigtext(z)); return; }
        }
      }
    }
  }
  // instants between lo and hi where a window [t+a,t+b] is judged: a grid, where the window reaches a breakpoint, and between those
  static std::vector<double> instants(const PW& m, double lo, double hi, double a, double b, double step = 0.125) {
    std::vector<double> c; for (double t = lo; t <= hi + 1e-9; t += step) c.push_back(t);
    size_t st = m.t.size() > 40 ? 7 : 1, n = m.t.size(), skip = c.size();
    for (size_t i = 0; i < n; i++) if (i % st == 0 || i < 3 || i + 3 >= n) for (double w : {a, b}) c.push_back(m.t[i] - w);
    std::sort(c.begin() + skip, c.end());
    for (size_t i = skip, e = c.size(); i + 1 < e; i++) if (c[i + 1] - c[i] > 1e-8) c.push_back((c[i] + c[i + 1]) / 2);
    size_t k = 0; for (double t : c) if (t >= lo && t <= hi + 1e-9) c[k++] = t;
    c.resize(k); return c;
  }
  void unary(const Spec& s, const PW& m, const char* ip, mc::Run& r) {
    if (!r.enter([&] { return std::string(ip) + "x = " + text(s, 0); })) return;
    Signal x = make(s, 0), x0 = x; r.states(1); r.nontrivial();
    std::string d = diff(x, m);
    if (!d.empty()) { r.fail("the signal itself: " + d + "; " + sigtext(x)); return; }
    Signal n; n.compute_not(x); r.transitions(1);
    d = diff(n, neg(m));
    if (!d.empty()) { r.fail("not: " + d + "; result " + sigtext(n)); return; }
    Signal q; q.compute_boolean(x); r.transitions(1);
    d = boolean(q, m);
    if (!d.empty()) { r.fail("boolean: " + d + "; result " + sigtext(q)); return; }
    for (int g = 0; g < 2; g++) {
      Signal z; z.appendSample(-1, 7); if (g) z.compute_globally(x); else z.compute_eventually(x);
      r.transitions(1);
      for (double t : instants(m, m.t0(), m.t1(), 0, 0)) {
        double e = g ? -supAt(neg(m), t, m.t1()) : supAt(m, t, m.t1()), v = value_at(z, t);
        if (!close(v, e, TOL)) { r.fail(mc::fmt("%s at %g: got %.9g, expected %.9g; result ", g ? "alw" : "ev", t, v, e) + sigtext(z)); return; }
      }
    }
    for (Iv w : std::vector<Iv>{{0, 0}, {1, 1}, {0, 1}, {0.5, 1}, {0.25, 2.5}, {1, 9}}) for (int g = 0; g < 2; g++) {
      Signal z; if (g) z.compute_timed_globally(x, w.first, w.second); else z.compute_timed_eventually(x, w.first, w.second);
      r.transitions(1);
      // the window is cut at the end of the signal
      PW x2 = m; double E = m.t1(), len = w.second - w.first;
      if (len > 0) { x2.t.push_back(E + len); x2.v.push_back(g ? INF : -INF); x2.r.push_back(g ? INF : -INF); x2.l.push_back(g ? INF : -INF); }
      for (double t : instants(m, m.t0() - w.first, E - w.first, w.first, w.second)) {
        double p = t + w.first, q = std::min(t + w.second, E);
        double e = g ? -supAt(neg(m), p, q) : supAt(m, p, q), v = value_at(z, t);
        if (!close(v, e, TOL)) { r.fail(mc::fmt("%s_[%g,%g] at %g: got %.9g, expected %.9g; result ", g ? "alw" : "ev", w.first, w.second, t, v, e) + sigtext(z)); return; }
      }
      if (std::fabs(z.beginTime - (m.t0() - w.first)) > 1e-9 || std::fabs(z.endTime - (E - w.first)) > 1e-9) { r.fail(mc::fmt("%s_[%g,%g]: domain; result ", g ? "alw" : "ev", w.first, w.second) + sigtext(z)); return; }
    }
    // not shifted, and on the domain of the operand
    for (double a : {0., 0.5, 1., 2.25, 9.}) for (int g = 0; g < 2; g++) {
      Signal z; z.appendSample(-1, 7); if (g) z.compute_bounded_globally(x, a); else z.compute_bounded_eventually(x, a);
      r.transitions(1);
      for (double t : instants(m, m.t0(), m.t1(), 0, a)) {
        double q = std::min(t + a, m.t1()), e = g ? -supAt(neg(m), t, q) : supAt(m, t, q), v = value_at(z, t);
        if (!close(v, e, TOL)) { r.fail(mc::fmt("bounded %s of length %g at %g: got %.9g, expected %.9g; result ", g ? "alw" : "ev", a, t, v, e) + sigtext(z)); return; }
      }
      if (std::fabs(z.beginTime - m.t0()) > 1e-9 || std::fabs(z.endTime - m.t1()) > 1e-9) { r.fail(mc::fmt("bounded %s of length %g: domain; result ", g ? "alw" : "ev", a) + sigtext(z)); return; }
    }
    if (!same(x, x0)) r.fail("the operand was changed");
  }
  // 1 where positive, 0 where not; at an instant where the operand is zero both are accepted
  static std::string boolean(const Signal& q, const PW& m) {
    if (q.empty()) return "empty result";
    if (std::fabs(q.beginTime - m.t0()) > 1e-9 || std::fabs(q.endTime - m.t1()) > 1e-9) return "domain";
    auto c = zeros(m);
    for (size_t i = 0; i < c.size(); i++) {
      double v = m.val(c[i]);
      if (std::fabs(v) > TOL && value_at(q, c[i]) != (v > 0)) return mc::fmt("at %g: got %g, operand %g", c[i], value_at(q, c[i]), v);
      if (i + 1 < c.size()) { double y = (c[i] + c[i + 1]) / 2; v = m.val(y); if (value_at(q, y) != (v > 0)) return mc::fmt("at %g: got %g, operand %g", y, value_at(q, y), v); }
    }
    return "";
  }
  void timerob(const Spec& s, const PW& m, const char* ip, mc::Run& r) {
    if (!r.enter([&] { return std::string(ip) + "x = " + text(s, 0); })) return;
    Signal x = make(s, 0); r.states(1);
    auto c = zeros(m);
    for (int right = 0; right < 2; right++) {
      Signal z; if (right) z.compute_right_time_rob(x); else z.compute_left_time_rob(x);
      r.transitions(1);
      if (z.empty()) { r.fail("empty result"); return; }
      if (std::fabs(z.beginTime - m.t0()) > 1e-9 || std::fabs(z.endTime - m.t1()) > 1e-9) { r.fail("domain; result " + sigtext(z)); return; }
      // truth value of every open piece
      std::vector<int> tr; for (size_t i = 0; i + 1 < c.size(); i++) tr.push_back(m.val((c[i] + c[i + 1]) / 2) > 0);
      auto truth = [&](double t) { double v = m.val(t); return v > 0; };
      std::vector<double> at(c); for (size_t i = 0; i + 1 < c.size(); i++) for (double w : {0.25, 0.5, 0.75}) at.push_back(c[i] + (c[i + 1] - c[i]) * w);
      for (double t : at) {
        if (std::fabs(m.val(t)) < 1e-9 && std::find(c.begin(), c.end(), t) != c.end()) continue;     // an instant of zero
        bool T = truth(t);
        // the run of equal truth around t; a positive run that touches zero at an instant may count as one or as two
        long n = c.size(), k;
        double fars[2];
        for (int split = 0; split < 2; split++) {
          double far = 0;
          auto stop = [&](long p) { return split && T && m.val(c[p]) <= 1e-9; };
          if (right) {
            for (k = 0; k + 1 < n && c[k + 1] <= t; k++);                     // piece k starts at or before t
            if (k < (long)tr.size() && tr[k] == T) { far = c[k + 1] - t; while (k + 1 < (long)tr.size() && tr[k + 1] == T && !stop(k + 1)) { k++; far = c[k + 1] - t; } }
          } else {
            for (k = n - 2; k >= 0 && c[k] >= t - 1e-12; k--);                // piece k starts before t
            if (k >= 0 && tr[k] == T) { far = t - c[k]; while (k > 0 && tr[k - 1] == T && !stop(k)) { k--; far = t - c[k]; } }
          }
          fars[split] = far;
        }
        double g = value_at(z, t), far = std::fabs(std::fabs(g) - fars[0]) <= 1e-9 ? fars[0] : fars[1];
        double e = T ? far : -far;
        r.outcome(e); if (far > 0) r.nontrivial();
        if (std::fabs(g - e) > 1e-9) { r.fail(mc::fmt("%s time robustness at %g: got %.12g, expected %.12g; result ", right ? "right" : "left", t, g, e) + sigtext(z)); return; }
        if (m.val(t) > 1e-9 && !(g > 0 || (right && far <= 1e-12)) || m.val(t) < -1e-9 && !(g < 0 || (right && far <= 1e-12))) {
          r.fail(mc::fmt("%s time robustness at %g: got %.12g for a value of %g; result ", right ? "right" : "left", t, g, m.val(t)) + sigtext(z)); return; }
      }
    }
  }
};
double P::TOL = 1e-9;
#ifndef NO_MAIN
int main(int c, char** v) { P p; return mc::explore_main(p, c, v); }
#endif
