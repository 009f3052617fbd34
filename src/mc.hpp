// Bounded exhaustive exploration of choice trees on the real code.
//
// A scenario is a function that builds a system out of the code under test and
// asks Ctx::choose(n) for everything that is not fixed: which operation comes
// next, which argument it gets, which fault hits.  The explorer runs the
// function once for every sequence of answers ("tape"), in depth-first order
// with the smallest answers first, on all cores, until the tree is exhausted.
// Nothing is sampled and nothing is cut off.
//
// A worker that dies (sanitizer report, assertion, signal) or stops making
// progress is reported with the tape it was on, like a failed check.
#pragma once
#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc {

enum { MAX_TAPE = 4096, MAX_MSG = 4096, MAX_WORKERS = 64, MAX_NAME = 96 };

inline std::string fmt(const char* f, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

//! fork; the child does not outlive its parent.
inline pid_t forkHere() {
  pid_t me = getpid(), p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (getppid() != me) _exit(95);
  }
  return p;
}
struct Violation {
  std::string msg;
};
struct StopPrefix {};

struct Stats {
  uint64_t leaves = 0;       // complete executions of the real code
  uint64_t nodes = 0;        // distinct choice-tree nodes (states of the exploration)
  uint64_t steps = 0;        // operations applied to the real code
  uint64_t checks = 0;       // oracle comparisons
  uint64_t outcomes = 0;     // distinct observed outcomes (hashes, in a bitmap of 2^20)
  double worst = 0;          // largest |error| / tolerance seen
};

struct Slot {
  std::atomic<uint64_t> progress;
  std::atomic<int> len;
  std::atomic<int> busy;
  int choice[MAX_TAPE];
  int arity[MAX_TAPE];
  Stats stats;
  std::atomic<uint64_t> inJob;  // executions of the current job that are complete
  int violated;
  char msg[MAX_MSG];
  char childMsg[MAX_MSG];
  char worstWhat[256];
};

struct Shared {
  std::atomic<int> stop;
  std::atomic<uint64_t> outcome[1 << 14];  // bitmap of observed outcomes
  Slot slot[MAX_WORKERS];
};

class Ctx {
 public:
  Ctx(Slot* s, bool verbose) : slot_(s), verbose_(verbose) {}

  //! The answer to a question with n possible answers.
  int choose(int n, const char* label = "") {
    if (n <= 0) {
      fprintf(stderr, "mc: choose(%d) at %s\n", n, label);
      _exit(90);
    }
    int c = 0;
    if (pos_ < (int)tape_.size()) {
      c = tape_[pos_];
      if (c >= n || (pos_ < (int)arity_.size() && arity_[pos_] != n)) {
        fprintf(stderr, "mc: execution diverged from its prefix at choice %d (%s)\n", pos_, label);
        _exit(91);
      }
    } else {
      if (stopDepth_ >= 0 && pos_ >= stopDepth_) throw StopPrefix();
      tape_.push_back(0);
      newNodes_++;
    }
    if (pos_ >= (int)arity_.size()) arity_.push_back(n);
    if (pos_ >= MAX_TAPE) _exit(92);
    slot_->choice[pos_] = c;
    slot_->arity[pos_] = n;
    slot_->len.store(pos_ + 1, std::memory_order_release);
    pos_++;
    if (verbose_) printf("  choose %-28s = %d of %d\n", label, c, n);
    return c;
  }
  template <typename T>
  const T& pick(const std::vector<T>& v, const char* label = "") {
    return v[choose((int)v.size(), label)];
  }
  bool flip(const char* label = "") { return choose(2, label) == 1; }

  //! One operation of the code under test (a transition).
  void step(const char* f = nullptr, ...) __attribute__((format(printf, 2, 3))) {
    slot_->stats.steps++;
    slot_->progress.fetch_add(1, std::memory_order_relaxed);
    if (verbose_ && f) {
      va_list ap;
      va_start(ap, f);
      printf("  * ");
      vprintf(f, ap);
      printf("\n");
      va_end(ap);
    }
  }
  void note(const char* f, ...) __attribute__((format(printf, 2, 3))) {
    if (!verbose_) return;
    va_list ap;
    va_start(ap, f);
    printf("    ");
    vprintf(f, ap);
    printf("\n");
    va_end(ap);
  }
  bool verbose() const { return verbose_; }

  void check(bool ok, const char* f, ...) __attribute__((format(printf, 3, 4))) {
    slot_->stats.checks++;
    if (ok) return;
    char buf[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    throw Violation{buf};
  }
  //! |got - want| <= tol, tracking how much of the tolerance is ever used.
  void near(double got, double want, double tol, const char* f, ...) __attribute__((format(printf, 5, 6))) {
    slot_->stats.checks++;
    double e = std::fabs(got - want);
    if (e <= tol) {
      if (tol > 0 && e / tol > slot_->stats.worst) {
        slot_->stats.worst = e / tol;
        va_list ap;
        va_start(ap, f);
        vsnprintf(slot_->worstWhat, sizeof slot_->worstWhat, f, ap);
        va_end(ap);
      }
      return;
    }
    char buf[1536];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    throw Violation{fmt("%s: got %.17g, expected %.17g (tolerance %.3g)", buf, got, want, tol)};
  }
  //! Record an observed outcome; distinct ones are counted (vacuity check).
  void observe(uint64_t h) {
    if (!shared_) return;
    h = (h ^ (h >> 31)) * 0xD6E8FEB86659FD93ull;
    h ^= h >> 32;
    auto& w = shared_->outcome[(h >> 6) & ((1 << 14) - 1)];
    uint64_t m = 1ull << (h & 63);
    if (!(w.load(std::memory_order_relaxed) & m)) w.fetch_or(m);
  }
  void observe(int h) { observe((uint64_t)(int64_t)h); }
  void observe(double d) {
    uint64_t u;
    memcpy(&u, &d, 8);
    observe((uint64_t)(u * 0x9E3779B97F4A7C15ull + 1));
  }

  //! Run the rest of an execution, which may make choices, in a process of its own.
  void forked(const std::function<void()>& f, double limit = 30) {
    fflush(nullptr);
    int at = pos_;
    slot_->childMsg[0] = 0;
    pid_t p = forkHere();
    if (p == 0) {
      try {
        f();
      } catch (const Violation& v) {
        die(v.msg);
      } catch (const StopPrefix&) {
        stopHere();
      } catch (const std::exception& e) {
        die(std::string("unexpected exception: ") + e.what());
      }
      fflush(stdout);
      _exit(0);
    }
    int st = 0;
    struct timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    bool hung = false;
    while (waitpid(p, &st, WNOHANG) == 0) {
      clock_gettime(CLOCK_MONOTONIC, &t1);
      if (t1.tv_sec - t0.tv_sec > limit) {
        kill(p, SIGKILL);
        waitpid(p, &st, 0);
        hung = true;
        break;
      }
      usleep(50);
    }
    int len = slot_->len.load();
    for (int i = at; i < len; i++) {
      if (i >= (int)tape_.size()) {
        tape_.push_back(slot_->choice[i]);
        newNodes_++;
      }
      if (i >= (int)arity_.size()) arity_.push_back(slot_->arity[i]);
    }
    pos_ = len;
    if (hung) throw Violation{fmt("did not finish within %.0f s", limit)};
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 71) throw StopPrefix();
    if (WIFEXITED(st) && WEXITSTATUS(st) == 70) throw Violation{slot_->childMsg};
    if (WIFEXITED(st) && WEXITSTATUS(st) >= 90 && WEXITSTATUS(st) <= 95) _exit(WEXITSTATUS(st));
    throw Violation{WIFSIGNALED(st) ? fmt("killed by signal %d", WTERMSIG(st))
                    : WEXITSTATUS(st) == 77 ? std::string("fatal check failed inside the library") : fmt("exited with code %d", WEXITSTATUS(st))};
  }
  //! From any thread of a forked execution.
  [[noreturn]] void die(const std::string& m) {
    snprintf(slot_->childMsg, MAX_MSG, "%s", m.c_str());
    fflush(stdout);
    _exit(70);
  }
  [[noreturn]] void stopHere() { _exit(71); }

  // explorer interface
  std::vector<int> tape_, arity_;
  int pos_ = 0, stopDepth_ = -1;
  uint64_t newNodes_ = 0;
  Shared* shared_ = nullptr;
  Slot* slot_;

 private:
  bool verbose_;
};

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  return h * 0xBF58476D1CE4E5B9ull;
}
inline uint64_t bits(double d) {
  uint64_t u;
  memcpy(&u, &d, 8);
  return u;
}

struct Scenario {
  std::string name;   // unique
  std::string prop;   // property id
  int tiers;          // 1 quick, 2 thorough, 3 both
  std::string what;   // alphabet and bounds, for the evidence
  std::function<void(Ctx&)> body;
};

inline std::vector<Scenario>& registry() {
  static std::vector<Scenario> r;
  return r;
}
enum { QUICK = 1, THOROUGH = 2, BOTH = 3 };
struct Reg {
  Reg(const std::string& prop, const std::string& name, int tiers, const std::string& what,
      std::function<void(Ctx&)> body) {
    registry().push_back({name, prop, tiers, what, body});
  }
};

//! Called in every process that runs code under test, before it does.
inline std::function<void()>& childInit() {
  static std::function<void()> f;
  return f;
}

inline void quiet() {
  std::cout.setstate(std::ios::failbit);
  std::cerr.setstate(std::ios::failbit);
  std::clog.setstate(std::ios::failbit);
  if (childInit()) childInit()();
}

inline double now() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

//! Run one execution along ctx.tape_; returns false on violation (message in msg).
inline bool runOne(const Scenario& sc, Ctx& ctx, std::string& msg) {
  ctx.pos_ = 0;
  ctx.slot_->len.store(0);
  ctx.slot_->busy.store(1);
  ctx.slot_->progress.fetch_add(1, std::memory_order_relaxed);
  try {
    sc.body(ctx);
  } catch (const Violation& v) {
    msg = v.msg;
    ctx.slot_->busy.store(0);
    return false;
  } catch (const StopPrefix&) {
    ctx.slot_->busy.store(0);
    throw;
  } catch (const std::exception& e) {
    msg = std::string("unexpected exception: ") + e.what();
    ctx.slot_->busy.store(0);
    return false;
  }
  ctx.slot_->busy.store(0);
  return true;
}

//! Advance to the next tape in depth-first order; false when the subtree under the first `fixed` choices is done.
inline bool nextTape(Ctx& ctx, size_t fixed) {
  ctx.tape_.resize(ctx.pos_);
  ctx.arity_.resize(ctx.pos_);
  while (ctx.tape_.size() > fixed && ctx.tape_.back() + 1 >= ctx.arity_[ctx.tape_.size() - 1]) {
    ctx.tape_.pop_back();
    ctx.arity_.pop_back();
  }
  if (ctx.tape_.size() <= fixed) return false;
  ctx.tape_.back()++;
  ctx.newNodes_++;
  return true;
}

struct Result {
  Stats st;
  bool violated = false;
  std::string msg, worstWhat;
  std::vector<int> tape, job, firstTape, lastTape;
  uint64_t before = 0;  // executions before the failing one in its job
  double wall = 0;
};

inline void setRlimits() {}

//! All prefixes of length d (or shorter complete tapes).
inline std::vector<std::vector<int>> prefixes(const Scenario& sc, Shared* sh, int d, bool& bad, bool& complete) {
  // Runs in a child so that a crash in here is contained; results come back through a pipe.
  std::vector<std::vector<int>> out;
  bad = false;
  complete = false;
  int fd[2];
  if (pipe(fd)) abort();
  fflush(nullptr);
  pid_t p = forkHere();
  if (p == 0) {
    close(fd[0]);
    quiet();
    Slot* s = &sh->slot[0];
    Ctx ctx(s, false);
    ctx.stopDepth_ = d;
    std::string data;
    bool cut = false;
    while (true) {
      std::string msg;
      bool ok = true;
      try {
        ok = runOne(sc, ctx, msg);
      } catch (const StopPrefix&) {
        cut = true;
      }
      (void)ok;  // a violation here is found again by a worker
      std::string line;
      for (int i = 0; i < ctx.pos_; i++) line += std::to_string(ctx.tape_[i]) + " ";
      data += line + "\n";
      if (!nextTape(ctx, 0)) break;
    }
    size_t off = 0;
    while (off < data.size()) {
      ssize_t n = write(fd[1], data.data() + off, data.size() - off);
      if (n <= 0) _exit(93);
      off += n;
    }
    _exit(cut ? 0 : 61);
  }
  close(fd[1]);
  std::string data;
  char buf[65536];
  ssize_t n;
  while ((n = read(fd[0], buf, sizeof buf)) > 0) data.append(buf, n);
  close(fd[0]);
  int st = 0;
  waitpid(p, &st, 0);
  if (!WIFEXITED(st) || (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 61)) {
    bad = true;
    return out;
  }
  complete = WEXITSTATUS(st) == 61;
  std::istringstream is(data);
  std::string line;
  while (std::getline(is, line)) {
    std::istringstream ls(line);
    std::vector<int> t;
    int x;
    while (ls >> x) t.push_back(x);
    out.push_back(t);
  }
  return out;
}

inline std::string deathText(int st) {
  if (WIFSIGNALED(st)) return fmt("killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
  if (WIFEXITED(st)) {
    int c = WEXITSTATUS(st);
    if (c == 99) return "memory error reported by the address sanitizer";
    if (c == 77) return "fatal check failed inside the library";
    return fmt("exited with code %d", c);
  }
  return "died";
}

//! Explore the subtree under one prefix, in a process of its own, so that what happens in it depends on nothing else.
inline void jobMain(const Scenario& sc, Shared* sh, int w, const std::vector<int>& prefix) {
  quiet();
  Slot* s = &sh->slot[w];
  Ctx ctx(s, false);
  ctx.shared_ = sh;
  ctx.tape_ = prefix;
  ctx.newNodes_ = 1;
  s->inJob.store(0);
  while (true) {
    std::string msg;
    bool ok = runOne(sc, ctx, msg);
    s->stats.leaves++;
    s->stats.nodes += ctx.newNodes_;
    ctx.newNodes_ = 0;
    if (!ok) {
      s->violated = 1;
      snprintf(s->msg, MAX_MSG, "%s", msg.c_str());
      sh->stop.store(1);
      _exit(0);
    }
    if (sh->stop.load()) break;
    if (!nextTape(ctx, prefix.size())) break;
    s->inJob.fetch_add(1);
  }
  _exit(0);
}

inline int workers() {
  const char* e = getenv("MC_WORKERS");
  int n = e ? atoi(e) : (int)sysconf(_SC_NPROCESSORS_ONLN);
  return std::max(1, std::min(n, (int)MAX_WORKERS));
}
inline double hangLimit() {
  const char* e = getenv("MC_HANG_S");
  return e ? atof(e) : 60;
}

inline Result explore(const Scenario& sc) {
  Result r;
  double t0 = now();
  Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void*)sh, 0, sizeof(Shared));
  int W = workers();
  // Deepen the prefix until there is enough work to share out.
  std::vector<std::vector<int>> jobs;
  jobs.push_back({});
  for (int d = 1; d <= 6; d++) {
    bool bad = false, complete = false;
    auto p = prefixes(sc, sh, d, bad, complete);
    if (bad) break;  // a worker will run into the same trouble and report it
    bool grew = p.size() > jobs.size();
    jobs = p;
    if ((int)jobs.size() >= W * 16) break;
    if (complete || (!grew && d > 3)) break;
  }
  std::vector<pid_t> pid(W, 0);
  std::vector<uint64_t> lastProg(W, 0);
  std::vector<double> lastT(W, now());
  std::vector<int> job(W, -1);
  for (int w = 0; w < W; w++) sh->slot[w].busy.store(0);
  fflush(nullptr);
  size_t next = 0;
  auto spawn = [&](int w) {
    if (next >= jobs.size() || sh->stop.load()) return;
    job[w] = (int)next++;
    lastT[w] = now();
    pid[w] = forkHere();
    if (pid[w] == 0) jobMain(sc, sh, w, jobs[job[w]]);
  };
  for (int w = 0; w < W; w++) spawn(w);
  int bad = -1;
  std::string badMsg;
  while (true) {
    bool any = false;
    for (int w = 0; w < W; w++) any = any || pid[w] > 0;
    if (!any) break;
    int st = 0;
    pid_t p = waitpid(-1, &st, WNOHANG);
    if (p > 0) {
      for (int w = 0; w < W; w++)
        if (pid[w] == p) {
          pid[w] = 0;
          if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            if (WIFEXITED(st) && WEXITSTATUS(st) >= 90 && WEXITSTATUS(st) <= 95) {
              fprintf(stderr, "mc: explorer error %d in %s\n", WEXITSTATUS(st), sc.name.c_str());
              exit(4);
            }
            if (bad < 0) {
              bad = w;
              badMsg = deathText(st);
            }
            sh->stop.store(1);
          }
          spawn(w);
        }
      continue;
    }
    for (int w = 0; w < W; w++) {
      if (pid[w] <= 0) continue;
      uint64_t g = sh->slot[w].progress.load();
      if (g != lastProg[w] || !sh->slot[w].busy.load()) {
        lastProg[w] = g;
        lastT[w] = now();
      } else if (now() - lastT[w] > hangLimit()) {
        if (bad < 0) {
          bad = w;
          badMsg = fmt("no progress for %.0f s", hangLimit());
        }
        kill(pid[w], SIGKILL);
        sh->stop.store(1);
        lastT[w] = now() + 1e9;
      }
    }
    usleep(300);
  }
  for (int w = 0; w < W; w++) {
    Slot& s = sh->slot[w];
    r.st.leaves += s.stats.leaves;
    r.st.nodes += s.stats.nodes;
    r.st.steps += s.stats.steps;
    r.st.checks += s.stats.checks;
    if (s.stats.worst > r.st.worst) {
      r.st.worst = s.stats.worst;
      r.worstWhat = s.worstWhat;
    }
    if (s.violated && !r.violated) {
      r.violated = true;
      r.msg = s.msg;
      r.tape.assign(s.choice, s.choice + s.len.load());
      r.job = jobs[job[w]];
      r.before = s.inJob.load();
    }
  }
  for (auto& x : sh->outcome) r.st.outcomes += __builtin_popcountll(x.load());
  if (!r.violated && bad >= 0) {
    r.violated = true;
    r.msg = badMsg;
    Slot& s = sh->slot[bad];
    r.tape.assign(s.choice, s.choice + s.len.load());
    r.job = jobs[job[bad]];
    r.before = s.inJob.load();
  }
  if (!jobs.empty()) {
    r.firstTape = jobs.front();
    r.lastTape = jobs.back();
  }
  munmap(sh, sizeof(Shared));
  r.wall = now() - t0;
  return r;
}

//! Re-run one tape, verbosely, in a child.  Returns true if it fails (again).
//! With `job`, the executions that precede it in that job come first, in the same process.
inline bool replay(const Scenario& sc, const std::vector<int>& tape, const std::vector<int>* job, uint64_t before, bool verbose, std::string& msg,
                   double limit) {
  Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void*)sh, 0, sizeof(Shared));
  fflush(nullptr);
  pid_t p = forkHere();
  if (p == 0) {
    setvbuf(stdout, nullptr, _IOLBF, 0);
    quiet();
    Ctx ctx(&sh->slot[0], verbose);
    std::string m;
    bool ok = true;
    ctx.tape_ = tape;
    if (job) {
      Ctx pre(&sh->slot[0], false);
      pre.tape_ = *job;
      for (uint64_t i = 0; i < before; i++) {
        std::string dummy;
        if (!runOne(sc, pre, dummy)) break;
        if (!nextTape(pre, job->size())) break;
      }
      ctx.tape_ = pre.tape_;
    }
    ok = runOne(sc, ctx, m);
    if (!ok) {
      sh->slot[0].violated = 1;
      snprintf(sh->slot[0].msg, MAX_MSG, "%s", m.c_str());
    }
    fflush(stdout);
    _exit(0);
  }
  double t0 = now();
  int st = 0;
  bool fail = false;
  while (true) {
    pid_t q = waitpid(p, &st, WNOHANG);
    if (q == p) {
      if (sh->slot[0].violated) {
        fail = true;
        msg = sh->slot[0].msg;
      } else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        fail = true;
        msg = deathText(st);
      }
      break;
    }
    if (now() - t0 > limit) {
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      fail = true;
      msg = fmt("did not finish within %.0f s", limit);
      break;
    }
    usleep(1000);
  }
  munmap(sh, sizeof(Shared));
  return fail;
}

inline std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 32)
      o += fmt("\\u%04x", c);
    else
      o += c;
  }
  return o;
}
inline std::string tapeStr(const std::vector<int>& t) {
  std::string o;
  for (int x : t) o += (o.empty() ? "" : " ") + std::to_string(x);
  return o;
}

//! How a call ended that was made in a forked child.
struct Fate {
  enum Kind { Returned, Checked, Threw, Crashed } kind;
  int code;
  std::string text;
};
inline Fate inChild(const std::function<void()>& f, double limit = 30) {
  fflush(nullptr);
  pid_t p = forkHere();
  if (p == 0) {
    try {
      f();
    } catch (const Violation& v) {
      fprintf(stderr, "%s\n", v.msg.c_str());
      _exit(80);
    } catch (...) {
      _exit(78);
    }
    _exit(0);
  }
  int st = 0;
  double t0 = now();
  while (waitpid(p, &st, WNOHANG) == 0) {
    if (now() - t0 > limit) {
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      return {Fate::Crashed, -1, "did not return"};
    }
    usleep(50);
  }
  if (WIFEXITED(st)) {
    int c = WEXITSTATUS(st);
    if (c == 0) return {Fate::Returned, 0, "returned"};
    if (c == 77) return {Fate::Checked, c, "fatal check"};
    if (c == 78) return {Fate::Threw, c, "exception"};
    if (c == 99) return {Fate::Crashed, c, "address sanitizer report"};
    return {Fate::Crashed, c, fmt("exit %d", c)};
  }
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) return {Fate::Checked, -SIGABRT, "abort"};
  return {Fate::Crashed, -WTERMSIG(st), fmt("signal %d", WTERMSIG(st))};
}

inline int runMain(int argc, char** argv) {
  std::string prop, tier = "quick", out, rfile, only;
  bool verify = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--prop") prop = argv[++i];
    else if (a == "--tier") tier = argv[++i];
    else if (a == "--out") out = argv[++i];
    else if (a == "--only") only = argv[++i];
    else if (a == "--replay") rfile = argv[++i];
    else if (a == "--confirm") { rfile = argv[++i]; verify = true; }
    else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
  }
  if (!rfile.empty()) {
    FILE* f = fopen(rfile.c_str(), "r");
    if (!f) return 2;
    char line[65536];
    std::string name;
    std::vector<int> tape, job;
    bool hasJob = false;
    uint64_t before = 0;
    while (fgets(line, sizeof line, f)) {
      std::istringstream is(line);
      std::string k;
      is >> k;
      if (k == "scenario:") is >> name;
      if (k == "tape:") {
        int x;
        while (is >> x) tape.push_back(x);
      }
      if (k == "executions-before:") is >> before;
      if (k == "after-job:") {
        hasJob = true;
        int x;
        while (is >> x) job.push_back(x);
      }
    }
    fclose(f);
    for (auto& sc : registry())
      if (sc.name == name) {
        std::string msg;
        printf("replaying scenario %s\n  (%s)\n", sc.name.c_str(), sc.what.c_str());
        bool fail = replay(sc, tape, hasJob ? &job : nullptr, before, !verify, msg, hasJob ? 600 : 2 * hangLimit());
        printf(fail ? "FAILS: %s\n" : "passes\n%s", msg.c_str());
        return fail ? 1 : 0;
      }
    fprintf(stderr, "no scenario %s\n", name.c_str());
    return 2;
  }
  int bit = tier == "thorough" ? THOROUGH : QUICK;
  FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
  if (!f) return 2;
  fprintf(f, "[\n");
  bool first = true, violated = false;
  for (auto& sc : registry()) {
    if (!prop.empty() && sc.prop != prop) continue;
    if (!only.empty() && sc.name.find(only) == std::string::npos) continue;
    if (!(sc.tiers & bit)) continue;
    Result r = explore(sc);
    fprintf(f,
            "%s{\"scenario\":\"%s\",\"what\":\"%s\",\"executions\":%llu,\"nodes\":%llu,\"steps\":%llu,\"checks\":%llu,"
            "\"outcomes\":%llu,\"worst\":%.3g,\"worst_what\":\"%s\",\"wall\":%.3f,\"first\":\"%s\",\"last\":\"%s\","
            "\"violated\":%s,\"msg\":\"%s\",\"tape\":\"%s\",\"job\":\"%s\",\"before\":%llu}",
            first ? "" : ",\n", sc.name.c_str(), jesc(sc.what).c_str(), (unsigned long long)r.st.leaves,
            (unsigned long long)r.st.nodes, (unsigned long long)r.st.steps, (unsigned long long)r.st.checks,
            (unsigned long long)r.st.outcomes, r.st.worst, jesc(r.worstWhat).c_str(), r.wall,
            tapeStr(r.firstTape).c_str(), tapeStr(r.lastTape).c_str(), r.violated ? "true" : "false",
            jesc(r.msg).c_str(), tapeStr(r.tape).c_str(), tapeStr(r.job).c_str(), (unsigned long long)r.before);
    fflush(f);
    first = false;
    if (r.violated) {
      violated = true;
      break;
    }
  }
  fprintf(f, "\n]\n");
  if (f != stdout) fclose(f);
  return violated ? 1 : 0;
}

}  // namespace mc

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define SCENARIO(prop, name, tiers, what)                                     \
  static void MC_CAT(scen_, __LINE__)(mc::Ctx & c);                           \
  static mc::Reg MC_CAT(reg_, __LINE__)(prop, name, tiers, what, MC_CAT(scen_, __LINE__)); \
  static void MC_CAT(scen_, __LINE__)(mc::Ctx & c)
