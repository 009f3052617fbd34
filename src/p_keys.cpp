// C15: many keys, one after the other.
#include "mc.hpp"
#include <curves/KeyGenerator.hpp>
using mc::Ctx;
// Only one thread exists here, so that locks have nothing to do (C15.threads looks at threads).
extern "C" int __wrap_pthread_mutex_lock(void*) { return 0; }
extern "C" int __wrap_pthread_mutex_unlock(void*) { return 0; }
//! A set of numbers as disjoint intervals, fast for numbers that grow.
struct Intervals {
  std::map<size_t, size_t> m;  // first -> last
  size_t lo = 1, hi = 0;       // the interval that grows
  bool inOther(size_t k) const { return !m.empty() && m.count(k); }
  void grow(size_t k) { hi = k; }
  bool add(size_t k) {
    if (hi && k == hi + 1) {
      hi = k;
      if (m.empty()) return true;
      auto it = m.lower_bound(k);
      return !(it != m.end() && it->first == k);
    }
    if (hi) {
      if (k >= lo && k <= hi) return false;
      auto it = m.upper_bound(k);
      if (it != m.begin()) {
        --it;
        if (k <= it->second) return false;
      }
      m[lo] = hi;
    }
    lo = hi = k;
    return true;
  }
};
static void many(Ctx& c, uint64_t n) {
  Intervals s;
  c.step("%llu keys", (unsigned long long)n);
  const uint64_t block = 1 << 24;
  for (uint64_t i = 0; i < n;) {
    // Blocks of keys that grow by one are one interval; the others are added one by one.
    uint64_t end = std::min(n, i + block);
    size_t first = curves::KeyGenerator::getNextKey(), k = first;
    c.check(k != 0, "call %llu returned key 0", (unsigned long long)i + 1);
    c.check(s.add(k), "key %zu was handed out twice, again by call %llu", k, (unsigned long long)i + 1);
    for (i++; i < end; i++) {
      k = curves::KeyGenerator::getNextKey();
      if (k != first + 1 || s.inOther(k)) break;
      first = k;
    }
    s.grow(first);
    if (i < end) {
      c.check(k != 0, "call %llu returned key 0", (unsigned long long)i + 1);
      c.check(s.add(k), "key %zu was handed out twice, again by call %llu", k, (unsigned long long)i + 1);
      i++;
      if (s.m.size() > 1000000) return;  // keys need not follow each other; a million of them, then
    } else {
      c.step();
      c.observe(i);
    }
  }
}
SCENARIO("C15", "C15.many", mc::BOTH, "the first 2^32 + 2^20 keys of a process, one after the other") { many(c, (1ull << 32) + (1 << 20)); }
