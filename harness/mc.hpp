// Exhaustive explorer: a property supplies numbered blocks, a block enumerates its cases in a fixed
// order, every case runs the real code.  Blocks are spread over forked workers; a crash, an abort or a
// hang is attributed to the case that was running, and the block goes on after it.  A case is addressed
// by (block, index), which is what a replay file stores.
#pragma once
#include <algorithm>
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mc {

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

inline std::string fmt(const char* f, ...) {
  char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
inline std::string json(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) o += fmt("\\u%04x", c);
    else o += c;
  }
  return o + "\"";
}

struct Viol { long block; long idx; int kind; char desc[1500]; char msg[800]; };   // kind 0 mismatch, 1 crash, 2 hang
const int MAXV = 400, NSAMP = 6, BITS = 1 << 20;
const int MAXW = 64;

struct Shared {
  std::atomic<long> next;                 // next block
  std::atomic<long> nviol, done_blocks;
  std::atomic<long> execs, states, transitions, nontrivial;
  std::atomic<int> nsamp, stop;
  char samples[NSAMP][1600];
  Viol viol[MAXV];
  struct W { std::atomic<long> block, idx, tick; } w[MAXW];
  std::atomic<uint64_t> seen[BITS / 64];
};

// a worker that has grown (the code under test may leak) is replaced by a fresh one
const int RECYCLE = 77; const long GROWTH_KB = 1500000;
inline long rss() { rusage u; getrusage(RUSAGE_SELF, &u); return u.ru_maxrss; }
inline long& rss0() { static long r = 0; return r; }
inline bool big() { return rss0() && rss() > rss0() + GROWTH_KB; }

enum Mode { EXPLORE, REPLAY, PREFIX, DESCRIBE };

// A running block.
struct Run {
  Shared* sh; int slot; Mode mode; long block; long target = -1, from = 0;
  long idx = -1;
  std::function<std::string()> desc;
  bool thorough;
  long nviol_here = 0;
  // start the next case; false: skip it
  bool enter(std::function<std::string()> d) {
    idx++;
    if (mode == EXPLORE) { if (idx < from || sh->stop.load(std::memory_order_relaxed)) return false; }
    else if (mode == PREFIX) { if (idx > target) return false; }
    else if (idx != target) return false;
    desc = d;
    sh->w[slot].idx.store(idx, std::memory_order_relaxed);
    if (mode == EXPLORE && (idx & 63) == 0 && big()) _exit(RECYCLE);
    sh->w[slot].tick.fetch_add(1, std::memory_order_relaxed);
    if (mode == DESCRIBE) { std::string s = d(); fwrite(s.data(), 1, s.size(), stdout); fflush(stdout); _exit(0); }
    sh->execs.fetch_add(1, std::memory_order_relaxed);
    if (mode == EXPLORE && idx == 0 && (block % 37) == 0) sample();
    return true;
  }
  void sample() {
    int k = sh->nsamp.fetch_add(1);
    if (k < NSAMP) { std::string s = desc(); snprintf(sh->samples[k], sizeof sh->samples[k], "%s", s.c_str()); }
  }
  void states(long n) { sh->states.fetch_add(n, std::memory_order_relaxed); }
  void transitions(long n) { sh->transitions.fetch_add(n, std::memory_order_relaxed); }
  void nontrivial(long n = 1) { sh->nontrivial.fetch_add(n, std::memory_order_relaxed); }
  // remember an observed outcome (hash bitmap: a lower bound on the number of distinct ones)
  void outcome_hash(uint64_t h) {
    h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33;
    h &= BITS - 1;
    uint64_t m = 1ULL << (h & 63);
    if (!(sh->seen[h >> 6].load(std::memory_order_relaxed) & m)) sh->seen[h >> 6].fetch_or(m, std::memory_order_relaxed);
  }
  void outcome(double x) { long long q = (long long)(x * 4096); outcome_hash((uint64_t)q * 0x9E3779B97F4A7C15ULL + 12345); }
  void fail(const std::string& msg) {
    if (mode == EXPLORE && nviol_here >= 40) return;      // enough from this block
    nviol_here++;
    record(0, msg, desc ? desc() : "");
  }
  void record(int kind, const std::string& msg, const std::string& d) {
    long k = sh->nviol.fetch_add(1);
    if (k >= MAXV) return;
    Viol& v = sh->viol[k];
    v.block = block; v.idx = idx; v.kind = kind;
    snprintf(v.desc, sizeof v.desc, "%s", d.c_str());
    snprintf(v.msg, sizeof v.msg, "%s", msg.c_str());
  }
};

struct Property {
  bool thorough = false;
  virtual ~Property() {}
  virtual long blocks() = 0;
  virtual void run(long block, Run& r) = 0;
  virtual std::string bounds() { return ""; }            // what the space is, in words
  virtual double case_limit() { return 30; }             // seconds one case may take
  virtual bool per_block_process() { return false; }     // a fresh process for every block
  virtual void init() {}
};

inline Shared* shared() {
  void* p = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return new (p) Shared();
}

inline void quiet() {
  if (getenv("MC_LOUD")) return;
  int n = open("/dev/null", O_WRONLY);
  dup2(n, 2); close(n);
  std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr);
}

// one block in this process
inline void go(Property& p, Shared* sh, int slot, Mode m, long block, long target, long from) {
  Run r; r.sh = sh; r.slot = slot; r.mode = m; r.block = block; r.target = target; r.from = from; r.thorough = p.thorough;
  try { p.run(block, r); }
  catch (const std::exception& e) { r.record(0, std::string("unexpected exception: ") + e.what(), r.desc ? r.desc() : ""); }
}

// run a single case (or the block up to it) alone; returns number of violations recorded for that case, or crash
inline bool alone(Property& p, Mode m, long block, long idx, double limit, std::string* msg) {
  Shared* sh = shared();
  pid_t c = fork();
  if (!c) { quiet(); go(p, sh, 0, m, block, idx, 0); _exit(0); }
  double t0 = now(); int st = 0; bool bad = false;
  for (;;) {
    pid_t q = waitpid(c, &st, WNOHANG);
    if (q == c) break;
    if (now() - t0 > limit) { kill(c, SIGKILL); waitpid(c, &st, 0); bad = true; if (msg) *msg = "no answer (hang)"; goto out; }
    usleep(2000);
  }
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    bad = true;
    if (msg) *msg = WIFSIGNALED(st) ? fmt("crash (signal %d)", WTERMSIG(st)) : fmt("process ended with status %d", WEXITSTATUS(st));
  }
  for (long k = 0; k < std::min<long>(sh->nviol, MAXV); k++) if (sh->viol[k].idx == idx) { bad = true; if (msg && msg->empty()) *msg = sh->viol[k].msg; }
out:
  munmap(sh, sizeof(Shared));
  return bad;
}

inline std::string describe(Property& p, long block, long idx) {
  int fd[2]; if (pipe(fd)) return "";
  fflush(stdout);
  pid_t c = fork();
  if (!c) { dup2(fd[1], 1); close(fd[0]); close(fd[1]); int n = open("/dev/null", O_WRONLY); dup2(n, 2); std::cout.rdbuf(nullptr);
    alarm(20); Shared* sh = shared(); go(p, sh, 0, DESCRIBE, block, idx, 0); _exit(0); }
  close(fd[1]);
  std::string s; char b[4096]; ssize_t n;
  while ((n = read(fd[0], b, sizeof b)) > 0) s.append(b, n);
  close(fd[0]); waitpid(c, 0, 0);
  return s;
}

inline int explore_main(Property& p, int argc, char** argv) {
  std::string out; long rb = -1, ri = -1; bool prefix = false; double cap = 1e9; int jobs = 8;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--thorough") p.thorough = true;
    else if (a == "--out") out = argv[++i];
    else if (a == "--replay") { rb = atol(argv[++i]); ri = atol(argv[++i]); }
    else if (a == "--prefix") prefix = true;
    else if (a == "--cap") cap = atof(argv[++i]);
    else if (a == "--jobs") jobs = atoi(argv[++i]);
  }
  p.init();
  if (rb >= 0) {
    printf("case: %s\n", describe(p, rb, ri).c_str());
    std::string msg;
    bool bad = alone(p, prefix ? PREFIX : REPLAY, rb, ri, prefix ? 600 : 2 * p.case_limit(), &msg);
    printf("%s %s\n", bad ? "FAILS:" : "holds", msg.c_str());
    return bad ? 1 : 0;
  }
  if (jobs > MAXW) jobs = MAXW;
  double t0 = now();
  Shared* sh = shared();
  long NB = p.blocks();
  long stride = NB * 0.618 + 1;
  while (std::__gcd(stride, NB) != 1) stride++;
  struct Slot { pid_t pid = 0; long resume_block = -1, resume_idx = 0; long tick = -1; double since = 0; };
  std::vector<Slot> S(jobs);
  auto spawn = [&](int s) {
    fflush(stdout);
    sh->w[s].block = -1; sh->w[s].idx = -1;
    long rblk = S[s].resume_block, ridx = S[s].resume_idx;
    S[s].resume_block = -1;
    pid_t c = fork();
    if (!c) {
      quiet(); rss0() = rss();
      for (;;) {
        long b, from = 0;
        if (rblk >= 0) { b = rblk; from = ridx; rblk = -1; }
        else {
          if (sh->stop) break;
          b = sh->next.fetch_add(1);
          if (b < NB) b = (long)((unsigned long long)b * stride % NB);      // spread over the whole space from the start
        }
        if (b >= NB) break;
        sh->w[s].block = b; sh->w[s].idx = -1;
        go(p, sh, s, EXPLORE, b, -1, from);
        if (!sh->stop) sh->done_blocks.fetch_add(1);
        sh->w[s].block = -1;
        if (p.per_block_process()) break;
      }
      _exit(0);
    }
    S[s].pid = c; S[s].tick = -1; S[s].since = now();
  };
  int live = 0, crashes = 0; bool capped = false;
  for (int s = 0; s < jobs; s++) { spawn(s); live++; }
  while (live > 0) {
    usleep(3000);
    double t = now();
    if (t - t0 > cap && !capped) { capped = true; sh->stop = 1; }
    for (int s = 0; s < jobs; s++) {
      if (!S[s].pid) continue;
      int st; pid_t q = waitpid(S[s].pid, &st, WNOHANG);
      bool hang = false;
      if (q == 0) {
        long tk = sh->w[s].tick;
        if (tk != S[s].tick) { S[s].tick = tk; S[s].since = t; continue; }
        else if (t - S[s].since > p.case_limit() && sh->w[s].idx >= 0) { kill(S[s].pid, SIGKILL); waitpid(S[s].pid, &st, 0); hang = true; q = S[s].pid; }
        else continue;
      }
      S[s].pid = 0; live--;
      bool ok = !hang && WIFEXITED(st) && WEXITSTATUS(st) == 0;
      if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == RECYCLE) {
        S[s].resume_block = sh->w[s].block; S[s].resume_idx = sh->w[s].idx;
        if (!sh->stop) { spawn(s); live++; }
      } else if (!ok) {
        long b = sh->w[s].block, i = sh->w[s].idx;
        if (b < 0) { fprintf(stderr, "worker died outside a block (status %x)\n", st); return 2; }
        crashes++;
        long k = sh->nviol.fetch_add(1);
        if (k < MAXV) {
          Viol& v = sh->viol[k]; v.block = b; v.idx = i; v.kind = hang ? 2 : 1;
          snprintf(v.desc, sizeof v.desc, "%s", describe(p, b, i).c_str());
          snprintf(v.msg, sizeof v.msg, "%s", hang ? "no answer (hang)" : WIFSIGNALED(st) ? fmt("crash (signal %d)", WTERMSIG(st)).c_str() : fmt("process ended with status %d", WEXITSTATUS(st)).c_str());
        }
        if (crashes >= 60) sh->stop = 1;
        S[s].resume_block = b; S[s].resume_idx = i + 1;
        if (!sh->stop) { spawn(s); live++; }
      } else if (p.per_block_process() && sh->next < NB && !sh->stop) { spawn(s); live++; }
    }
    if (sh->nviol >= MAXV) sh->stop = 1;
  }
  double wall = now() - t0;
  long distinct = 0;
  for (auto& x : sh->seen) distinct += __builtin_popcountll(x.load());
  long nv = std::min<long>(sh->nviol, MAXV);
  // order by block and index, confirm alone
  std::vector<Viol*> V; for (long k = 0; k < nv; k++) V.push_back(&sh->viol[k]);
  std::sort(V.begin(), V.end(), [](Viol* a, Viol* b) { return a->block != b->block ? a->block < b->block : a->idx < b->idx; });
  std::ostringstream o;
  bool exhaustive = !sh->stop && sh->done_blocks >= NB;
  o << "{\"blocks\": " << NB << ", \"blocks_done\": " << sh->done_blocks << ", \"exhaustive\": " << (exhaustive ? "true" : "false")
    << ", \"executions\": " << sh->execs << ", \"states\": " << sh->states << ", \"transitions\": " << sh->transitions
    << ", \"nontrivial\": " << sh->nontrivial << ", \"distinct_outcomes\": " << distinct << ", \"wall_s\": " << wall << ", \"bounds\": " << json(p.bounds())
    << ", \"violations_seen\": " << sh->nviol << ", \"samples\": [";
  for (int k = 0; k < std::min<int>(sh->nsamp, NSAMP); k++) o << (k ? ", " : "") << json(sh->samples[k]);
  o << "], \"violations\": [";
  int n = 0; double tc = now();
  for (Viol* v : V) {
    const char* how = "unconfirmed";
    if (n < 12 || now() - tc < 60) {
      std::string m;
      if (alone(p, REPLAY, v->block, v->idx, 2 * p.case_limit(), &m)) how = "case";
      else if (alone(p, PREFIX, v->block, v->idx, 300, &m)) how = "prefix";
    } else how = "unchecked";
    o << (n++ ? ", " : "") << "\n{\"block\": " << v->block << ", \"idx\": " << v->idx << ", \"kind\": " << v->kind << ", \"replays\": \"" << how
      << "\", \"case\": " << json(v->desc) << ", \"message\": " << json(v->msg) << "}";
  }
  o << "]}\n";
  if (!out.empty()) { std::ofstream f(out); f << o.str(); if (!f.good()) return 2; }
  else std::cout << o.str();
  return nv ? 1 : 0;
}

}  // namespace mc
