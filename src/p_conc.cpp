// C15, C16: several threads.
#include "conc.hpp"
#include "conc_man.hpp"
#include "gen.hpp"
#include <sys/stat.h>
using mc::Ctx;

// ---------------------------------------------------------------- C15
static void keys(Ctx& c, int threads, int calls, int preemptions, int via) {
  c.forked([&] {
    static size_t got[4][16];
    static int n[4];
    conc::Program p;
    p.threads = threads;
    p.preemptions = preemptions;
    p.body = [&](int t) {
      bool man = via == 2 || (via == 1 && t == 0);
      if (man) {
        std::unique_ptr<ManApi> m(ManApi::make());
        std::vector<double> o;
        std::vector<size_t> k;
        m->work(t, o, &k);
        for (size_t x : k) got[t][n[t]++] = x;
      } else
        for (int i = 0; i < calls; i++) got[t][n[t]++] = nextKey();
    };
    conc::run(c, p);
    std::set<size_t> all;
    uint64_t h = 0;
    for (int t = 0; t < threads; t++)
      for (int i = 0; i < n[t]; i++) {
        c.check(got[t][i] > 0, "thread %d got key 0", t);
        c.check(all.insert(got[t][i]).second, "key %zu was handed out twice, the second time to thread %d", got[t][i], t);
        h = mc::mix(h, got[t][i] * 4 + t);
      }
    c.observe(h);
  });
}
static void keyFamily(Ctx& c, int p2, int p3) {
  int k = c.choose(6, "program");
  switch (k) {
    case 0: keys(c, 2, 1, 99, 0); break;  // every interleaving
    case 1: keys(c, 2, 2, p2, 0); break;
    case 2: keys(c, 2, 3, p2 - 1, 0); break;
    case 3: keys(c, 3, 1, p3, 0); break;
    case 4: keys(c, 2, 2, 1, 1); break;
    default: keys(c, 2, 0, 1, 2); break;
  }
}
SCENARIO("C15", "C15.threads", mc::QUICK, "2 threads x 1 key (every interleaving), 2 x 2 keys (3 preemptions), 2 x 3 keys (2), 3 x 1 key (2), keys while a manager inserts, two managers (1); scheduling points at every lock, unlock, atomic operation, guarded initialisation and access to static memory") {
  keyFamily(c, 3, 2);
}
SCENARIO("C15", "C15.threads.deep", mc::THOROUGH, "the same with 5 and 4 preemptions") { keyFamily(c, 5, 4); }
SCENARIO("C15", "C15.four", mc::THOROUGH, "4 threads x 2 keys, 2 preemptions, and 3 threads x 2 keys, 3 preemptions") {
  if (c.flip("threads")) keys(c, 4, 2, 2, 0);
  else keys(c, 3, 2, 3, 0);
}

// ---------------------------------------------------------------- C16
namespace {
struct Out {
  int n;
  double v[512];
};
void put(Out& o, double x) {
  if (o.n < 512) o.v[o.n++] = x;
}
Case data(int who, int n) {
  Case k;
  k.t.push_back(0.5 * who);
  for (int i = 0; i < n; i++) k.t.push_back(k.t.back() + (i + who) % 3 * 0.5 + 0.5);
  for (int i = 0; i <= n; i++) k.x.push_back((i * 7 + who * 3) % 5 - 1.0);
  setBc(k, bcs()[5 + who % 3]);
  return k;
}
void contQueries(const Cont& s, Out& o) {
  double off = 0;
  for (double t : {-1.0, 0.0, 0.25, 0.75, 1.5, 9.0}) {
    put(o, s.pos(t));
    put(o, s.vel(t));
    put(o, s.acc(t));
    put(o, s.indexAt(t, off));
  }
  for (double v : {s.duration(), s.time(), s.pos(), s.vel(), s.acc(), s.endPos(), s.endVel(), s.endAcc(), (double)s.isEmpty(), (double)s.checkContainer()}) put(o, v);
}
void crvQueries(const Crv& s, Out& o) {
  for (double t : {-1.0, 0.0, 0.25, 0.75, 1.5, 9.0}) {
    std::vector<double> x;
    put(o, s.eval(x, t));
    for (double v : x) put(o, v);
    for (unsigned d : {1u, 2u, 3u}) {
      bool ok = s.evalD(x, t, d);
      put(o, ok);
      if (ok)
        for (double v : x) put(o, v);
    }
  }
  put(o, s.minTime());
  put(o, s.maxTime());
}
void splQueries(const Spl& s, Out& o) {
  for (double t : {-1.0, 0.0, 0.25, 0.5, 2.0}) {
    put(o, s.pos(t));
    put(o, s.vel(t));
    put(o, s.acc(t));
    for (int d = 0; d < 3; d++)
      for (int z = 0; z < 2; z++)
        for (int v = 0; v < s.variants(d, z); v += 3) {
          std::vector<double> x;
          bool add;
          const char* nm;
          s.timeVector(d, z, v, t, 0.5, x, &add, &nm);
          put(o, x[0] + 2 * x.back());
        }
  }
  put(o, s.duration());
}
struct Body {
  std::string name;
  std::function<void(int who, Out& o)> run;
};
std::string dir() {
  const char* e = getenv("MC_SCRATCH");
  return e ? e : "/tmp";
}
//! Work on objects of one's own.
const std::vector<Body>& own() {
  static const std::vector<Body> v = [] {
    std::vector<Body> r;
    for (int o = 1; o <= 5; o++)
      r.push_back({mc::fmt("fit and play back a container of order %d", o), [o](int who, Out& out) {
                     auto s = makeCont(o);
                     fitCont(*s, data(who, 2), o >= 3 ? (who % 2 ? 2 : 3) : 1);
                     s->addSpline(Opt{0.5, 1.0 + who, 2, 0, 1, 0, 0});
                     s->advance(0.75);
                     contQueries(*s, out);
                   }});
    for (int o : {1, 3, 5})
      r.push_back({mc::fmt("fit and evaluate a scalar curve of order %d", o), [o](int who, Out& out) {
                     auto s = makeCrv(o, 0);
                     fitCrv(*s, data(who, 3), who % 2 ? 0 : -1);
                     crvQueries(*s, out);
                     s->fit(std::vector<Opt>{{1.0 + who, 0, 1, 0, 0, 0, 0}, {0.5, 1, -2, 0.5, -1, 2, 3.0 + who}});
                     crvQueries(*s, out);
                   }});
    for (int d : {1, 3})
      r.push_back({mc::fmt("fit and evaluate a vector curve of dimension %d", d), [d](int who, Out& out) {
                     auto s = makeCrv(5, d);
                     fitCrv(*s, data(who, 2), who % 2);
                     crvQueries(*s, out);
                     auto t = s->clone();
                     s->clear();
                     crvQueries(*t, out);
                   }});
    for (int o = 1; o <= 5; o++)
      r.push_back({mc::fmt("compute and evaluate a spline of order %d", o), [o](int who, Out& out) {
                     auto s = makeSpl(o);
                     s->compute(Opt{0.5 + who, 1, 2.0 + who, 0.5, -1, 2, 3}, who % 4);
                     splQueries(*s, out);
                     auto t = s->copy(who % 2);
                     splQueries(*t, out);
                   }});
    r.push_back({"edit and query a coefficient manager", [](int who, Out& out) {
                   std::unique_ptr<ManApi> m(ManApi::make());
                   std::vector<double> o;
                   m->work(who, o, nullptr);
                   m->copyAndWork(who, o);
                   for (double x : o) put(out, x);
                 }});
    r.push_back({"write and load a CSV file", [](int who, Out& out) {
                   std::vector<double> o;
                   std::string f = mc::fmt("%s/conc-%d-%d.csv", dir().c_str(), (int)getpid(), who);
                   csvWork(f, who, o);
                   unlink(f.c_str());
                   for (double x : o) put(out, x);
                 }});
    return r;
  }();
  return v;
}
//! Queries of a shared object.
struct SharedBody {
  std::string name;
  std::function<std::function<void(int who, Out& o)>()> make;
};
const std::vector<SharedBody>& shared() {
  static const std::vector<SharedBody> v = [] {
    std::vector<SharedBody> r;
    for (int o = 1; o <= 5; o++)
      r.push_back({mc::fmt("a container of order %d", o), [o]() -> std::function<void(int, Out&)> {
                     std::shared_ptr<Cont> s(makeCont(o));
                     fitCont(*s, data(1, 3), o >= 3 ? 3 : 1);
                     s->advance(0.75);
                     return [s](int, Out& out) { contQueries(*s, out); };
                   }});
    r.push_back({"an empty container", []() -> std::function<void(int, Out&)> {
                   std::shared_ptr<Cont> s(makeCont(5));
                   return [s](int, Out& out) { contQueries(*s, out); };
                 }});
    for (int o : {1, 3, 5})
      r.push_back({mc::fmt("a scalar curve of order %d", o), [o]() -> std::function<void(int, Out&)> {
                     std::shared_ptr<Crv> s(makeCrv(o, 0));
                     fitCrv(*s, data(2, 3), 0);
                     return [s](int, Out& out) { crvQueries(*s, out); };
                   }});
    for (int d : {1, 3, 6})
      r.push_back({mc::fmt("a vector curve of dimension %d", d), [d]() -> std::function<void(int, Out&)> {
                     std::shared_ptr<Crv> s(makeCrv(5, d));
                     fitCrv(*s, data(1, 2), 0);
                     return [s](int who, Out& out) {
                       if (who == 1) crvQueries(*s->clone(), out);
                       else crvQueries(*s, out);
                     };
                   }});
    for (int o = 1; o <= 5; o++)
      r.push_back({mc::fmt("a spline of order %d", o), [o]() -> std::function<void(int, Out&)> {
                     std::shared_ptr<Spl> s(makeSpl(o));
                     s->compute(Opt{0.5, 1, 2, 0.5, -1, 2, 3}, 0);
                     return [s](int, Out& out) { splQueries(*s, out); };
                   }});
    r.push_back({"a coefficient manager", []() -> std::function<void(int, Out&)> {
                   std::shared_ptr<ManApi> m(ManApi::make());
                   std::vector<double> o;
                   m->work(1, o, nullptr);
                   return [m](int who, Out& out) {
                     std::vector<double> r;
                     m->queries(who, r);
                     if (who == 1) m->copyAndWork(who, r);
                     for (double x : r) put(out, x);
                   };
                 }});
    return r;
  }();
  return v;
}
//! What a body does when it is alone, in a process of its own.
Out alone(const std::function<void(Out&)>& f) {
  Out* o = (Out*)mmap(nullptr, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  o->n = -1;
  fflush(nullptr);
  pid_t p = mc::forkHere();
  if (p == 0) {
    Out r;
    r.n = 0;
    f(r);
    *o = r;
    _exit(0);
  }
  int st;
  waitpid(p, &st, 0);
  Out r = *o;
  munmap(o, sizeof(Out));
  if (r.n < 0) throw mc::Violation{"a thread's work fails when it is done alone"};
  return r;
}
void compare(Ctx& c, const Out& a, const Out& b, const std::string& what, int t) {
  c.check(a.n == b.n, "%s: thread %d observes %d values, alone %d", what.c_str(), t, a.n, b.n);
  for (int i = 0; i < a.n; i++)
    c.check(a.v[i] == b.v[i] || (std::isnan(a.v[i]) && std::isnan(b.v[i])), "%s: thread %d observes %.17g as value %d, alone %.17g", what.c_str(), t, a.v[i], i, b.v[i]);
}
void separate(Ctx& c, int threads, int preemptions, int perPlace, int total, const std::vector<int>& which) {
  std::vector<int> b;
  for (int i = 0; i < threads; i++) {
    int lo = i ? b.back() : 0;
    b.push_back(lo + c.choose((int)which.size() - lo, "work of a thread"));
  }
  static std::map<std::pair<int, int>, Out> memo;
  std::vector<Out> want;
  std::string what;
  for (int i = 0; i < threads; i++) {
    auto key = std::make_pair(which[b[i]], i);
    if (!memo.count(key)) memo[key] = alone([&](Out& o) { own()[which[b[i]]].run(i, o); });
    want.push_back(memo[key]);
    what += (i ? " / " : "") + own()[which[b[i]]].name;
  }
  c.step("%s", what.c_str());
  c.forked([&] {
    static Out got[4];
    conc::Program p;
    p.threads = threads;
    p.preemptions = preemptions;
    p.perPlace = perPlace;
    p.total = total;
    p.body = [&](int t) { own()[which[b[t]]].run(t, got[t]); };
    conc::run(c, p);
    for (int t = 0; t < threads; t++) compare(c, got[t], want[t], what, t);
    c.observe((uint64_t)(b[0] * 64 + b[1]));
  });
}
void together(Ctx& c, int threads, int preemptions, int perPlace, int total) {
  int k = c.choose((int)shared().size(), "shared object");
  std::vector<Out> want;
  for (int i = 0; i < threads; i++)
    want.push_back(alone([&](Out& o) {
      auto f = shared()[k].make();
      f(i, o);
    }));
  c.step("%d threads query %s", threads, shared()[k].name.c_str());
  c.forked([&] {
    static Out got[4];
    auto f = shared()[k].make();
    conc::Program p;
    p.threads = threads;
    p.preemptions = preemptions;
    p.perPlace = perPlace;
    p.total = total;
    p.body = [&](int t) { f(t, got[t]); };
    conc::run(c, p);
    for (int t = 0; t < threads; t++) compare(c, got[t], want[t], shared()[k].name, t);
    c.observe((uint64_t)k);
  });
}
std::vector<int> all() {
  std::vector<int> r;
  for (size_t i = 0; i < own().size(); i++) r.push_back((int)i);
  return r;
}
}  // namespace
SCENARIO("C16", "C16.separate", mc::QUICK, "all pairs of 17 pieces of work on separate objects x all schedules with up to 1 preemption at locks, atomics, guarded initialisations and accesses to static memory (the first 8 per place and thread, 120 per thread); race detection by vector clocks on all other accesses") {
  static const std::vector<int> w = all();
  separate(c, 2, 1, 8, 120, w);
}
SCENARIO("C16", "C16.shared", mc::QUICK, "2 threads that query one of 18 shared objects x all schedules with up to 2 preemptions (at the first 4 visits of a place, 32 points per thread)") { together(c, 2, 2, 4, 32); }
SCENARIO("C16", "C16.shared.any", mc::BOTH, "2 threads that query one of 18 shared objects x all schedules with 1 preemption, anywhere") { together(c, 2, 1, 0, 0); }
SCENARIO("C16", "C16.separate.deep", mc::THOROUGH, "all pairs with up to 2 preemptions (the first 8 per place and thread, 120 per thread)") {
  static const std::vector<int> w = all();
  separate(c, 2, 2, 8, 120, w);
}
SCENARIO("C16", "C16.three", mc::THOROUGH, "3 threads: all triples of 17 pieces of work, 1 preemption (the first 8 per place and thread, 120 per thread)") {
  static const std::vector<int> w = all();
  separate(c, 3, 1, 8, 120, w);
}
SCENARIO("C16", "C16.shared.deep", mc::THOROUGH, "3 threads that query a shared object, up to 2 preemptions (at the first 8 visits of a place, 40 points per thread)") { together(c, 3, 2, 8, 40); }
