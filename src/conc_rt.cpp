// The run-time system behind -fsanitize=thread instrumentation for systematic exploration.
//
// Threads are real, but only one runs at a time; it hands over at scheduling points: before every
// lock, unlock, atomic operation, one-time initialisation, and before every access to a static
// variable.  Which thread goes on is a choice of the explorer, with a bound on preemptions.
// On top of each schedule, vector clocks order all accesses; two conflicting accesses that
// are not ordered are a data race, whatever the values were.
#include "conc.hpp"
#include <dlfcn.h>
#include <malloc.h>
#include <map>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>

namespace {
enum { MAXT = 4 };
typedef unsigned Clock;
struct VC {
  Clock c[MAXT] = {0, 0, 0, 0};
  void join(const VC& o) {
    for (int i = 0; i < MAXT; i++)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};
struct Cell {  // eight bytes of memory
  uintptr_t addr;  // granule + 1; 0: free
  Clock w[MAXT][8], r[MAXT][8];
  void *wpc[MAXT], *rpc[MAXT];
};
enum { TABLE = 1 << 18 };
struct Lock {
  int owner = -1;
  int depth = 0;
  int readers = 0;
  VC vc;
};
struct Thread {
  sem_t sem;
  bool finished = false, blocked = false;
  std::function<bool()> ready;
  VC vc;
  std::map<uintptr_t, int> visits;
  int points = 0;
  char *stackLo = nullptr, *stackHi = nullptr;
};
struct Rt {
  mc::Ctx* c = nullptr;
  const conc::Program* p = nullptr;
  Thread t[MAXT];
  int cur = -1, used = 0, streak = 0;
  sem_t done;
  std::map<uintptr_t, Lock> locks;
  std::map<uintptr_t, VC> sync;
  std::map<uintptr_t, int> guards;  // 1 + thread that initialises
  bool fenced = false;
  Cell* cells = nullptr;
} g;
bool active = false;
thread_local int me = -1;
thread_local bool inside = false;
extern "C" char __data_start, _end;

struct Enter {
  bool on;
  Enter() : on(active && me >= 0 && !inside) {
    if (on) inside = true;
  }
  ~Enter() {
    if (on) inside = false;
  }
};
const char* sym(void* pc, char* buf, size_t n) {
  Dl_info i;
  if (dladdr(pc, &i) && i.dli_sname) snprintf(buf, n, "%s", i.dli_sname);
  else snprintf(buf, n, "%p", pc);
  return buf;
}
bool runnable(int i) {
  Thread& t = g.t[i];
  if (t.finished) return false;
  if (t.blocked && t.ready()) t.blocked = false;
  return !t.blocked;
}
void handTo(int i) {
  int from = me;
  g.cur = i;
  g.streak = 0;
  sem_post(&g.t[i].sem);
  if (from >= 0 && !g.t[from].finished) {
    while (sem_wait(&g.t[from].sem)) {
    }
  }
}
//! Who goes on?  Called by the running thread.
void reschedule(const char* what, bool mustLeave) {
  std::vector<int> o;
  if (!mustLeave && runnable(me)) o.push_back(me);
  bool can = o.empty() || g.used < g.p->preemptions;
  if (!o.empty() && ++g.streak > 400) {  // spinning: somebody else has to do something
    o.clear();
    can = true;
  }
  if (can)
    for (int k = 1; k <= g.p->threads; k++) {
      int i = (me + k) % g.p->threads;
      if (i != me && runnable(i)) o.push_back(i);
    }
  if (o.empty() && !mustLeave && runnable(me)) o.push_back(me);
  if (o.empty()) {
    for (int i = 0; i < g.p->threads; i++)
      if (!g.t[i].finished && !(mustLeave && i == me && g.t[i].finished)) g.c->die(mc::fmt("deadlock at %s", what));
    sem_post(&g.done);
    return;
  }
  int k = 0;
  if (o.size() > 1) {
    try {
      k = g.c->choose((int)o.size(), what);
    } catch (const mc::StopPrefix&) {
      g.c->stopHere();
    }
  }
  if (o[k] != me) {
    if (!mustLeave && o[0] == me) g.used++;
    if (g.c->verbose()) g.c->note("thread %d -> thread %d at %s", me, o[k], what);
    handTo(o[k]);
  }
}
void point(const char* what, uintptr_t where = 0) {
  g.c->step();
  Thread& t = g.t[me];
  bool over = (g.p->perPlace && where && ++t.visits[where >> 3] > g.p->perPlace) || (g.p->total && ++t.points > g.p->total);
  if (over && ++g.streak <= 400) return;  // beyond the bound; spinning threads still give way
  reschedule(what, false);
}
void waitFor(std::function<bool()> f, const char* what) {
  while (!f()) {
    g.t[me].blocked = true;
    g.t[me].ready = f;
    reschedule(what, true);
  }
}
void acquire(const VC& v) { g.t[me].vc.join(v); }
void release(VC& v) {
  v.join(g.t[me].vc);
  g.t[me].vc.c[me]++;
}

Cell* cell(uintptr_t gr) {
  size_t h = (gr * 0x9E3779B97F4A7C15ull) >> 46;
  for (size_t k = 0; k < TABLE; k++) {
    Cell* x = &g.cells[(h + k) & (TABLE - 1)];
    if (x->addr == gr + 1) return x;
    if (!x->addr) {
      x->addr = gr + 1;
      return x;
    }
  }
  fprintf(stderr, "mc: shadow table full\n");
  _exit(95);
}
void access(uintptr_t a, size_t n, bool write, void* pc) {
  Thread& t = g.t[me];
  if ((char*)a >= t.stackLo && (char*)a < t.stackHi) return;
  if ((char*)a >= &__data_start && (char*)a < &_end) point(write ? "write to a static variable" : "read of a static variable", a);
  uintptr_t e = a + n;
  while (a < e) {
    uintptr_t gr = a >> 3;
    int lo = a & 7, hi = (int)std::min<uintptr_t>(8, lo + (e - a));
    Cell* x = cell(gr);
    for (int i = 0; i < g.p->threads; i++) {
      if (i == me) continue;
      for (int b = lo; b < hi; b++) {
        bool ww = x->w[i][b] > t.vc.c[i], rw = write && x->r[i][b] > t.vc.c[i];
        if (ww || rw) {
          char b1[300], b2[300];
          g.c->die(mc::fmt("data race: %s by thread %d in %s is not ordered with the %s by thread %d in %s", write ? "write" : "read", me, sym(pc, b1, 300), ww ? "write" : "read", i,
                           sym(ww ? x->wpc[i] : x->rpc[i], b2, 300)));
        }
      }
    }
    for (int b = lo; b < hi; b++) (write ? x->w : x->r)[me][b] = t.vc.c[me];
    (write ? x->wpc : x->rpc)[me] = pc;
    a = (gr + 1) << 3;
  }
}
//! Memory that changes hands through the allocator carries no history.
void forget(void* p, size_t n) {
  if (!p || !n) return;
  uintptr_t a = (uintptr_t)p >> 3, e = ((uintptr_t)p + n + 7) >> 3;
  for (; a < e; a++) {
    size_t h = (a * 0x9E3779B97F4A7C15ull) >> 46;
    for (size_t k = 0; k < TABLE; k++) {
      Cell* x = &g.cells[(h + k) & (TABLE - 1)];
      if (!x->addr) break;
      if (x->addr == a + 1) {
        memset(x->w, 0, sizeof x->w);
        memset(x->r, 0, sizeof x->r);
        break;
      }
    }
  }
}
void* threadMain(void* q) {
  int id = (int)(intptr_t)q;
  pthread_attr_t at;
  pthread_getattr_np(pthread_self(), &at);
  void* lo;
  size_t n;
  pthread_attr_getstack(&at, &lo, &n);
  pthread_attr_destroy(&at);
  g.t[id].stackLo = (char*)lo;
  g.t[id].stackHi = (char*)lo + n;
  while (sem_wait(&g.t[id].sem)) {
  }
  me = id;
  try {
    g.p->body(id);
  } catch (const mc::Violation& v) {
    inside = true;
    g.c->die(v.msg);
  } catch (const std::exception& e) {
    inside = true;
    g.c->die(std::string("unexpected exception in a thread: ") + e.what());
  }
  inside = true;
  g.t[id].finished = true;
  reschedule("end of a thread", true);
  return nullptr;
}
}  // namespace

void conc::run(mc::Ctx& c, const Program& p) {
  g.c = &c;
  g.p = &p;
  g.cells = (Cell*)mmap(nullptr, sizeof(Cell) * TABLE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  sem_init(&g.done, 0, 0);
  pthread_t th[MAXT];
  for (int i = 0; i < p.threads; i++) {
    sem_init(&g.t[i].sem, 0, 0);
    for (int k = 0; k < MAXT; k++) g.t[i].vc.c[k] = k == i ? 1 : 0;
    if (pthread_create(&th[i], nullptr, threadMain, (void*)(intptr_t)i)) _exit(94);
  }
  active = true;
  int first = 0;
  if (p.threads > 1) first = c.choose(p.threads, "first thread");
  g.cur = first;
  sem_post(&g.t[first].sem);
  while (sem_wait(&g.done)) {
  }
  active = false;
  for (int i = 0; i < p.threads; i++) pthread_join(th[i], nullptr);
}

// ---------------------------------------------------------------- what the instrumentation calls
#define PC __builtin_return_address(0)
#define ACC(name, n, w) \
  void name(void* a) {  \
    Enter e;            \
    if (e.on) access((uintptr_t)a, n, w, PC); \
  }
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
ACC(__tsan_read1, 1, false) ACC(__tsan_read2, 2, false) ACC(__tsan_read4, 4, false) ACC(__tsan_read8, 8, false) ACC(__tsan_read16, 16, false)
ACC(__tsan_write1, 1, true) ACC(__tsan_write2, 2, true) ACC(__tsan_write4, 4, true) ACC(__tsan_write8, 8, true) ACC(__tsan_write16, 16, true)
ACC(__tsan_unaligned_read2, 2, false) ACC(__tsan_unaligned_read4, 4, false) ACC(__tsan_unaligned_read8, 8, false) ACC(__tsan_unaligned_read16, 16, false)
ACC(__tsan_unaligned_write2, 2, true) ACC(__tsan_unaligned_write4, 4, true) ACC(__tsan_unaligned_write8, 8, true) ACC(__tsan_unaligned_write16, 16, true)
ACC(__tsan_read_write1, 1, true) ACC(__tsan_read_write2, 2, true) ACC(__tsan_read_write4, 4, true) ACC(__tsan_read_write8, 8, true) ACC(__tsan_read_write16, 16, true)
ACC(__tsan_vptr_read, 8, false)
void __tsan_vptr_update(void** a, void* v) {
  Enter e;
  if (e.on && *a != v) access((uintptr_t)a, 8, true, PC);
}
void __tsan_read_range(void* a, size_t n) {
  Enter e;
  if (e.on) access((uintptr_t)a, n, false, PC);
}
void __tsan_write_range(void* a, size_t n) {
  Enter e;
  if (e.on) access((uintptr_t)a, n, true, PC);
}
void* __tsan_memcpy(void* d, const void* s, size_t n) {
  {
    Enter e;
    if (e.on) {
      access((uintptr_t)s, n, false, PC);
      access((uintptr_t)d, n, true, PC);
    }
  }
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
  {
    Enter e;
    if (e.on) {
      access((uintptr_t)s, n, false, PC);
      access((uintptr_t)d, n, true, PC);
    }
  }
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int v, size_t n) {
  {
    Enter e;
    if (e.on) access((uintptr_t)d, n, true, PC);
  }
  return memset(d, v, n);
}

void __tsan_atomic_thread_fence(int) {
  g.fenced = true;
  __sync_synchronize();
}
void __tsan_atomic_signal_fence(int) {}
}
static bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5 || g.fenced; }
static bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5 || g.fenced; }
template <typename F>
static void atomic(volatile void* a, int mo, bool reads, bool writes, const char* what, F f) {
  Enter e;
  if (!e.on) {
    f();
    return;
  }
  point(what, (uintptr_t)a);
  if (reads && acq(mo)) acquire(g.sync[(uintptr_t)a]);
  f();
  if (writes) {
    if (rel(mo)) release(g.sync[(uintptr_t)a]);
    else if (!reads) g.sync[(uintptr_t)a] = VC();  // a relaxed store ends a release sequence
  }
}
#define ATOMICS(N, T)                                                                       \
  extern "C" T __tsan_atomic##N##_load(const volatile T* a, int mo) {                       \
    T r = 0;                                                                                \
    atomic((volatile void*)a, mo, true, false, "atomic load", [&] { r = __atomic_load_n(a, __ATOMIC_SEQ_CST); }); \
    return r;                                                                               \
  }                                                                                         \
  extern "C" void __tsan_atomic##N##_store(volatile T* a, T v, int mo) {                    \
    atomic(a, mo, false, true, "atomic store", [&] { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }); \
  }                                                                                         \
  RMW(N, T, exchange, __atomic_exchange_n)                                                  \
  RMW(N, T, fetch_add, __atomic_fetch_add)                                                  \
  RMW(N, T, fetch_sub, __atomic_fetch_sub)                                                  \
  RMW(N, T, fetch_and, __atomic_fetch_and)                                                  \
  RMW(N, T, fetch_or, __atomic_fetch_or)                                                    \
  RMW(N, T, fetch_xor, __atomic_fetch_xor)                                                  \
  RMW(N, T, fetch_nand, __atomic_fetch_nand)                                                \
  CAS(N, T, compare_exchange_strong)                                                        \
  CAS(N, T, compare_exchange_weak)                                                          \
  extern "C" T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { \
    atomic(a, mo, true, true, "atomic compare-and-exchange", [&] { __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }); \
    return c;                                                                               \
  }
#define RMW(N, T, name, fn)                                                                 \
  extern "C" T __tsan_atomic##N##_##name(volatile T* a, T v, int mo) {                      \
    T r = 0;                                                                                \
    atomic(a, mo, true, true, "atomic " #name, [&] { r = fn(a, v, __ATOMIC_SEQ_CST); });    \
    return r;                                                                               \
  }
#define CAS(N, T, name)                                                                     \
  extern "C" int __tsan_atomic##N##_##name(volatile T* a, T* c, T v, int mo, int fmo) {     \
    int r = 0;                                                                              \
    atomic(a, mo, true, true, "atomic compare-and-exchange", [&] { r = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }); \
    return r;                                                                               \
  }
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)

// ---------------------------------------------------------------- what the instrumented code links against instead of libc and libstdc++
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  Enter e;
  if (!e.on) return active && me >= 0 ? 0 : __real_pthread_mutex_lock(m);
  point("lock");
  Lock& l = g.locks[(uintptr_t)m];
  if (l.owner == me && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) {
    l.depth++;
    return 0;
  }
  if (l.owner == me) g.c->die("a thread locks a mutex it already holds");
  waitFor([&l] { return l.owner < 0; }, "lock");
  l.owner = me;
  l.depth = 1;
  acquire(l.vc);
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  Enter e;
  if (!e.on) return active && me >= 0 ? 0 : __real_pthread_mutex_trylock(m);
  point("trylock");
  Lock& l = g.locks[(uintptr_t)m];
  if (l.owner >= 0) return EBUSY;
  l.owner = me;
  l.depth = 1;
  acquire(l.vc);
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  Enter e;
  if (!e.on) return active && me >= 0 ? 0 : __real_pthread_mutex_unlock(m);
  Lock& l = g.locks[(uintptr_t)m];
  if (l.owner != me) g.c->die("a thread unlocks a mutex it does not hold");
  if (--l.depth == 0) {
    l.owner = -1;
    release(l.vc);
  }
  point("unlock");
  return 0;
}
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  Enter e;
  if (!e.on) return active && me >= 0 ? 0 : __real_pthread_rwlock_rdlock(m);
  point("read lock");
  Lock& l = g.locks[(uintptr_t)m];
  waitFor([&l] { return l.owner < 0; }, "read lock");
  l.readers++;
  acquire(l.vc);
  return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  Enter e;
  if (!e.on) return active && me >= 0 ? 0 : __real_pthread_rwlock_wrlock(m);
  point("write lock");
  Lock& l = g.locks[(uintptr_t)m];
  waitFor([&l] { return l.owner < 0 && l.readers == 0; }, "write lock");
  l.owner = me;
  acquire(l.vc);
  acquire(g.sync[(uintptr_t)m]);
  return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) {
  Enter e;
  if (!e.on) return active && me >= 0 ? 0 : __real_pthread_rwlock_unlock(m);
  Lock& l = g.locks[(uintptr_t)m];
  if (l.owner == me) {
    l.owner = -1;
    release(l.vc);
  } else {
    l.readers--;
    release(g.sync[(uintptr_t)m]);
  }
  point("unlock");
  return 0;
}
int __real_pthread_spin_lock(pthread_spinlock_t*);
int __real_pthread_spin_unlock(pthread_spinlock_t*);
int __wrap_pthread_spin_lock(pthread_spinlock_t* m) {
  Enter e;
  if (!e.on) return active && me >= 0 ? 0 : __real_pthread_spin_lock(m);
  point("lock");
  Lock& l = g.locks[(uintptr_t)m];
  waitFor([&l] { return l.owner < 0; }, "lock");
  l.owner = me;
  acquire(l.vc);
  return 0;
}
int __wrap_pthread_spin_unlock(pthread_spinlock_t* m) {
  Enter e;
  if (!e.on) return active && me >= 0 ? 0 : __real_pthread_spin_unlock(m);
  Lock& l = g.locks[(uintptr_t)m];
  l.owner = -1;
  release(l.vc);
  point("unlock");
  return 0;
}
int __real_pthread_once(pthread_once_t*, void (*)());
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
  Enter e;
  if (!e.on) return __real_pthread_once(o, f);
  point("call once");
  uintptr_t k = (uintptr_t)o;
  int& s = g.guards[k];  // 0 not yet, 1 + t running, -1 done
  waitFor([&s] { return s <= 0; }, "call once");
  if (s < 0) {
    acquire(g.sync[k]);
    return 0;
  }
  s = 1 + me;
  inside = false;
  f();
  inside = true;
  s = -1;
  release(g.sync[k]);
  point("end of call once");
  return 0;
}
// Initialisation of function-local static variables.
int __real___cxa_guard_acquire(char*);
void __real___cxa_guard_release(char*);
void __real___cxa_guard_abort(char*);
int __wrap___cxa_guard_acquire(char* v) {
  Enter e;
  if (!e.on) return __real___cxa_guard_acquire(v);
  point("initialisation of a static variable");
  uintptr_t k = (uintptr_t)v;
  int& s = g.guards[k];
  waitFor([&s] { return s <= 0; }, "initialisation of a static variable");
  if (*v) {
    acquire(g.sync[k]);
    return 0;
  }
  s = 1 + me;
  return 1;
}
void __wrap___cxa_guard_release(char* v) {
  Enter e;
  if (!e.on) {
    __real___cxa_guard_release(v);
    return;
  }
  uintptr_t k = (uintptr_t)v;
  *v = 1;
  g.guards[k] = 0;
  release(g.sync[k]);
  point("end of the initialisation of a static variable");
}
void __wrap___cxa_guard_abort(char* v) {
  Enter e;
  if (!e.on) {
    __real___cxa_guard_abort(v);
    return;
  }
  g.guards[(uintptr_t)v] = 0;
  point("end of the initialisation of a static variable");
}
int __real_sched_yield();
int __wrap_sched_yield() {
  Enter e;
  if (e.on) {
    point("yield");
    return 0;
  }
  return __real_sched_yield();
}
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
int __real_posix_memalign(void**, size_t, size_t);
void* __real_aligned_alloc(size_t, size_t);
void* __wrap_malloc(size_t n) {
  void* p = __real_malloc(n);
  Enter e;
  if (e.on) forget(p, n);
  return p;
}
void* __wrap_calloc(size_t a, size_t b) {
  void* p = __real_calloc(a, b);
  Enter e;
  if (e.on) forget(p, a * b);
  return p;
}
void* __wrap_realloc(void* q, size_t n) {
  void* p = __real_realloc(q, n);
  Enter e;
  if (e.on) forget(p, n);
  return p;
}
int __wrap_posix_memalign(void** q, size_t al, size_t n) {
  int r = __real_posix_memalign(q, al, n);
  Enter e;
  if (e.on && !r) forget(*q, n);
  return r;
}
void* __wrap_aligned_alloc(size_t al, size_t n) {
  void* p = __real_aligned_alloc(al, n);
  Enter e;
  if (e.on) forget(p, n);
  return p;
}
void* __real_memcpy(void*, const void*, size_t);
}
void* operator new(size_t n) {
  void* p = __real_malloc(n ? n : 1);
  if (!p) abort();
  Enter e;
  if (e.on) forget(p, n);
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
