// C12, C13, C14, C23: the coefficient manager against an ordered map.
#include "mc.hpp"
#include <curves/LocalSupport2CoefficientManager.hpp>
#include <deque>
#include <limits>
using mc::Ctx;
using curves::Key;
static const double INF = std::numeric_limits<double>::infinity();

namespace {
typedef std::string Val;  // owns memory, so that use of a stale coefficient is a memory error
typedef curves::LocalSupport2CoefficientManager<Val> Man;

Val val(int n) { return mc::fmt("coefficient number %d, on the heap", n); }

struct Model {
  std::map<double, std::pair<Key, Val>> m;
  std::set<Key> ever;  // keys that were handed out and are gone or live
};

//! A manager and what it must look like.
struct Sys {
  std::unique_ptr<Man> man{new Man};
  Model mod;
  static int& counter() {
    static int n;
    return n;
  }
  Ctx* values = nullptr;  // values that are empty or equal to others instead of new ones
  Val fresh() {
    if (values) return values->flip("empty value") ? Val() : Val("v");
    return val(++counter());
  }

  void put(Ctx& c, double t, const Val& v, Key k) {
    auto it = mod.m.find(t);
    if (it != mod.m.end()) {
      c.check(it->second.first == k, "overwriting the coefficient at %g changed its key from %zu to %zu", t, it->second.first, k);
      it->second.second = v;
    } else {
      c.check(k > 0, "key 0");
      c.check(mod.ever.insert(k).second, "the key %zu of the coefficient at %g was used before", k, t);
      mod.m[t] = {k, v};
    }
  }
  double at(size_t i) const {
    auto it = mod.m.begin();
    std::advance(it, i);
    return it->first;
  }
  Key keyAt(size_t i) const {
    auto it = mod.m.begin();
    std::advance(it, i);
    return it->second.first;
  }
  size_t n() const { return mod.m.size(); }

  void insert(Ctx& c, double t) {
    Val v = fresh();
    c.step("insertCoefficient(%g)", t);
    put(c, t, v, man->insertCoefficient(t, v));
  }
  void insertMany(Ctx& c, const std::vector<double>& t, bool withKeys) {
    std::vector<Val> v;
    for (size_t i = 0; i < t.size(); i++) v.push_back(fresh());
    std::vector<Key> k(2, 4711);
    c.step("insertCoefficients of %zu%s", t.size(), withKeys ? ", with keys" : "");
    man->insertCoefficients(t, v, withKeys ? &k : nullptr);
    if (withKeys) {
      c.check(k.size() == 2 + t.size() && k[0] == 4711 && k[1] == 4711, "insertCoefficients of %zu appended %zd keys", t.size(), (ssize_t)k.size() - 2);
      for (size_t i = 0; i < t.size(); i++) put(c, t[i], v[i], k[2 + i]);
    } else {
      for (size_t i = 0; i < t.size(); i++) {
        Key q = 0;
        for (auto it = static_cast<const Man&>(*man).coefficientBegin(); it != static_cast<const Man&>(*man).coefficientEnd(); ++it)
          if (it->first == t[i]) q = it->second.key;
        put(c, t[i], v[i], q);
      }
    }
  }
  void append(Ctx& c, double dt, bool withKeys) {
    double t = n() ? at(n() - 1) + dt : dt - 3;
    Val v = fresh();
    std::vector<Key> k(1, 4711);
    c.step("addCoefficientAtEnd(%g)", t);
    man->addCoefficientAtEnd(t, v, withKeys ? &k : nullptr);
    Key q = 0;
    if (withKeys) {
      c.check(k.size() == 2 && k[0] == 4711, "addCoefficientAtEnd appended %zd keys", (ssize_t)k.size() - 1);
      q = k[1];
    } else {
      std::vector<Key> all;
      man->getKeys(&all);
      for (Key x : all)
        if (!mod.ever.count(x)) q = x;
    }
    put(c, t, v, q);
  }
  void removeKey(Ctx& c, size_t i) {
    c.step("removeCoefficientWithKey, of the one at %g", at(i));
    man->removeCoefficientWithKey(keyAt(i));
    mod.m.erase(at(i));
  }
  void removeTime(Ctx& c, size_t i) {
    c.step("removeCoefficientAtTime(%g)", at(i));
    man->removeCoefficientAtTime(at(i));
    mod.m.erase(at(i));
  }
  void updateKey(Ctx& c, size_t i) {
    Val v = fresh();
    c.step("updateCoefficientByKey, of the one at %g", at(i));
    man->updateCoefficientByKey(keyAt(i), v);
    mod.m[at(i)].second = v;
  }
  void updateSome(Ctx& c, int mask) {
    Man::CoefficientMap u;
    c.step("updateCoefficients, mask %d", mask);
    for (size_t i = 0; i < n(); i++)
      if (mask >> (i % 8) & 1) {
        Val v = fresh();
        u[keyAt(i)] = v;
        mod.m[at(i)].second = v;
      }
    man->updateCoefficients(u);
  }
  void batch(Ctx& c, size_t from, size_t len) {
    std::vector<double> t;
    std::vector<Val> v;
    for (size_t i = from; i < from + len; i++) {
      t.push_back(at(i));
      v.push_back(fresh());
      mod.m[at(i)].second = v.back();
    }
    c.step("modifyCoefficientsValuesInBatch of %zu from %zu", len, from);
    man->modifyCoefficientsValuesInBatch(t, v);
  }
  void move(Ctx& c, size_t i, double t) {
    Val v = fresh();
    c.step("modifyCoefficient at %g to %g", at(i), t);
    Man::TimeToKeyCoefficientMap::iterator it = man->coefficientBegin();
    std::advance(it, i);
    man->modifyCoefficient(it, t, v);
    Key k = keyAt(i);
    mod.m.erase(at(i));
    mod.m[t] = {k, v};
  }
  void clear(Ctx& c) {
    c.step("clear");
    man->clear();
    mod.m.clear();
  }

  void verify(Ctx& c, const char* who = "manager") const {
    const Man& m = *man;
    c.check(m.size() == n(), "%s: size %zu, expected %zu", who, m.size(), n());
    c.check(m.empty() == (n() == 0), "%s: empty", who);
    std::vector<double> t(3, 77);
    m.getTimes(&t);
    c.check(t.size() == n(), "%s: %zu times, expected %zu", who, t.size(), n());
    size_t i = 0;
    for (auto& e : mod.m) {
      c.check(t[i] == e.first, "%s: time %zu is %.17g, expected %.17g", who, i, t[i], e.first);
      i++;
    }
    c.check(m.getMinTime() == (n() ? at(0) : 0), "%s: minimum time %g", who, m.getMinTime());
    c.check(m.getMaxTime() == (n() ? at(n() - 1) : 0), "%s: maximum time %g", who, m.getMaxTime());
    std::vector<Key> k(2, 4711), k2(1, 4711), want;
    m.getKeys(&k);
    m.appendKeys(&k2);
    for (auto& e : mod.m) want.push_back(e.second.first);
    c.check(k2.size() == want.size() + 1 && k2[0] == 4711, "%s: appendKeys appended %zd keys to one", who, (ssize_t)k2.size() - 1);
    k2.erase(k2.begin());
    std::sort(want.begin(), want.end());
    std::sort(k.begin(), k.end());
    std::sort(k2.begin(), k2.end());
    c.check(k == want, "%s: getKeys does not return the keys of the coefficients", who);
    c.check(k2 == want, "%s: appendKeys does not return the keys of the coefficients", who);
    Man::CoefficientMap all;
    m.getCoefficients(&all);
    c.check(all.size() == n(), "%s: getCoefficients returns %zu of %zu", who, all.size(), n());
    auto it = m.coefficientBegin();
    for (auto& e : mod.m) {
      Key q = e.second.first;
      const Val& v = e.second.second;
      c.check(it != m.coefficientEnd() && it->first == e.first && it->second.key == q && it->second.coefficient == v, "%s: stored coefficient at %g", who, e.first);
      ++it;
      c.check(m.hasCoefficientAtTime(e.first), "%s: no coefficient at %g", who, e.first);
      c.check(m.hasCoefficientWithKey(q), "%s: no coefficient with key %zu", who, q);
      c.check(m.getCoefficientByKey(q) == v, "%s: the coefficient with key %zu (time %g) is '%s', expected '%s'", who, q, e.first, m.getCoefficientByKey(q).c_str(), v.c_str());
      c.check(m.getCoefficientTimeByKey(q) == e.first, "%s: the time of key %zu is %g, expected %g", who, q, m.getCoefficientTimeByKey(q), e.first);
      auto f = all.find(q);
      c.check(f != all.end() && f->second == v, "%s: getCoefficients has another value for key %zu", who, q);
    }
    c.check(it == m.coefficientEnd(), "%s: more coefficients than expected", who);
    for (Key q : mod.ever) {
      bool live = std::binary_search(want.begin(), want.end(), q);
      if (!live) c.check(!m.hasCoefficientWithKey(q), "%s: still has the removed key %zu", who, q);
    }
    c.check(!m.hasCoefficientWithKey(0), "%s: has key 0", who);
    for (double p : {-1e9, -1.0, 0.0, 0.25, 0.5, 1.0, 1.5, 2.0, 3.0, 1e9, INF})
      c.check(m.hasCoefficientAtTime(p) == (mod.m.count(p) > 0), "%s: hasCoefficientAtTime(%g)", who, p);
    for (auto& e : mod.m)
      for (double p : {std::nextafter(e.first, INF), std::nextafter(e.first, -INF)})
        c.check(m.hasCoefficientAtTime(p) == (mod.m.count(p) > 0), "%s: hasCoefficientAtTime one unit in the last place next to %g", who, e.first);
    c.check(!m.hasCoefficientAtTime(NAN), "%s: has a coefficient at a time that is not a number", who);
    m.checkInternalConsistency();
    c.check(m.equals(m), "%s: does not equal itself", who);
  }
};

enum { OPS = 34 };
//! Operation number i, if it applies; false if it does not.
bool apply(Ctx& c, Sys& s, int i) {
  size_t n = s.n();
  size_t last = n ? n - 1 : 0, mid = n / 2;
  switch (i) {
    case 0: s.insert(c, 1); return true;
    case 1: s.insert(c, 0); return true;
    case 2: s.insert(c, 2); return true;
    case 3: s.insert(c, -1); return true;
    case 4: s.insert(c, 0.5); return true;
    case 5: s.append(c, 0.5, true); return true;
    case 6: s.insertMany(c, {2, 0, 1}, true); return true;
    case 7: if (!n) return false; s.removeKey(c, 0); return true;
    case 8: if (n < 2) return false; s.removeKey(c, last); return true;
    case 9: if (n < 3) return false; s.removeKey(c, mid); return true;
    case 10: if (!n) return false; s.removeTime(c, 0); return true;
    case 11: if (n < 2) return false; s.removeTime(c, last); return true;
    case 12: if (n < 3) return false; s.removeTime(c, mid); return true;
    case 13: if (!n) return false; s.move(c, last, s.at(last) + 0.25); return true;
    case 14: if (!n) return false; s.move(c, 0, s.at(0) - 0.25); return true;
    case 15: if (!n) return false; s.move(c, 0, s.at(last) + 1); return true;   // across all others
    case 16: if (n < 2) return false; s.move(c, last, s.at(0) - 1); return true;
    case 17: if (!n) return false; s.move(c, mid, s.at(mid)); return true;      // stays
    case 18: if (n < 2) return false; s.move(c, 0, 0.5 * (s.at(0) + s.at(1))); return true;
    case 19: if (!n) return false; s.updateKey(c, 0); return true;
    case 20: if (n < 2) return false; s.updateKey(c, last); return true;
    case 21: s.updateSome(c, 255); return true;
    case 22: if (!n) return false; s.updateSome(c, 0xaa); return true;
    case 23: s.batch(c, 0, n); return true;
    case 24: if (n < 2) return false; s.batch(c, 1, n - 1); return true;
    case 25: if (n < 2) return false; s.batch(c, 0, n - 1); return true;
    case 26: if (!n) return false; s.batch(c, last, 1); return true;
    case 27: s.clear(c); return true;
    case 28: s.insertMany(c, {1, 1, -2}, false); return true;                   // the same time twice
    case 29: s.insertMany(c, {}, true); return true;
    case 30: s.append(c, 1e-9, false); return true;
    case 31: s.insert(c, std::nextafter(1.0, 2.0)); return true;
    case 32: if (n < 3) return false; s.move(c, mid, s.at(last) + 0.5); return true;
    default: s.batch(c, 0, 0); return true;
  }
}
void histories(Ctx& c, int len) {
  Sys s;
  s.verify(c);
  for (int i = 0; i < len; i++) {
    if (!apply(c, s, c.choose(OPS, "operation"))) return;
    s.verify(c);
    c.observe((uint64_t)(s.n() * 131 + (s.n() ? mc::bits(s.at(0)) ^ mc::bits(s.at(s.n() - 1)) * 3 : 0)));
  }
}
}  // namespace
SCENARIO("C12", "C12.histories", mc::QUICK, "all histories of up to 4 of 34 operations (insert, append, insert many, remove by key and time, move, update, batch, clear) on an empty manager, everything observable compared with an ordered map after each") {
  histories(c, 4);
}
SCENARIO("C12", "C12.histories.deep", mc::THOROUGH, "all histories of up to 5 of 34 operations") { histories(c, 5); }

// Every state (times and the order of their keys) that is reachable with times from a small set; every operation in each.
static void closure(Ctx& c, int nTimes) {
  static const double T[5] = {0, 1, 2, -1, 1.5};
  struct Act {
    int k, a, b;
  };
  std::vector<Act> acts;
  for (int i = 0; i < nTimes; i++) {
    acts.push_back({0, i, 0});                                                // insert (or overwrite)
    acts.push_back({1, i, 0});                                                // append
    acts.push_back({2, i, 0});                                                // remove by key
    acts.push_back({3, i, 0});                                                // remove by time
    for (int j = 0; j < nTimes; j++) acts.push_back({4, i, j});               // move
    acts.push_back({5, i, 0});                                                // update
  }
  acts.push_back({6, 0, 0});
  acts.push_back({7, 0, 0});
  acts.push_back({8, 0, 0});
  auto run = [&](Sys& s, const Act& a) {
    double t = T[a.a], u = T[a.b];
    auto idx = [&](double x) { return (size_t)std::distance(s.mod.m.begin(), s.mod.m.find(x)); };
    bool has = s.mod.m.count(t) > 0;
    switch (a.k) {
      case 0: s.insert(c, t); return true;
      case 1:
        if (s.n() && t <= s.at(s.n() - 1)) return false;
        if (s.n()) s.append(c, t - s.at(s.n() - 1), true);
        else s.insertMany(c, {t}, true);
        return true;
      case 2: if (!has) return false; s.removeKey(c, idx(t)); return true;
      case 3: if (!has) return false; s.removeTime(c, idx(t)); return true;
      case 4: if (!has || (t != u && s.mod.m.count(u))) return false; s.move(c, idx(t), u); return true;
      case 5: if (!has) return false; s.updateKey(c, idx(t)); return true;
      case 6: s.clear(c); return true;
      case 7: s.batch(c, 0, s.n()); return true;
      default: s.updateSome(c, 0x55); return true;
    }
  };
  auto canon = [&](const Sys& s) {
    std::vector<std::pair<double, int>> r;
    for (auto& e : s.mod.m) {
      int rank = 0;
      for (auto& f : s.mod.m) rank += f.second.first < e.second.first;
      r.push_back({e.first, rank});
    }
    return r;
  };
  std::map<std::vector<std::pair<double, int>>, std::vector<int>> seen;  // state -> a shortest history
  std::deque<std::vector<int>> q;
  {
    Sys s;
    seen[canon(s)] = {};
    q.push_back({});
  }
  long edges = 0;
  while (!q.empty()) {
    std::vector<int> h = q.front();
    q.pop_front();
    for (int a = 0; a < (int)acts.size(); a++) {
      Sys s;
      for (int x : h) run(s, acts[x]);
      if (!run(s, acts[a])) continue;
      s.verify(c);
      edges++;
      auto k = canon(s);
      if (!seen.count(k)) {
        std::vector<int> g = h;
        g.push_back(a);
        seen[k] = g;
        q.push_back(g);
      }
      c.observe((uint64_t)seen.size() * 1000003 + edges);
    }
  }
  // All subsets with all orders of creation must have been reached.
  long want = 0;
  for (int k = 0; k <= nTimes; k++) {
    long v = 1;
    for (int i = 0; i < k; i++) v *= nTimes - i;
    want += v;
  }
  c.check((long)seen.size() == want, "reached %zu states, expected %ld", seen.size(), want);
}
SCENARIO("C12", "C12.values", mc::BOTH, "all histories of up to 3 of 34 operations with values that are empty or all the same") {
  Sys s;
  s.values = &c;
  int n = 1 + c.choose(3, "length");
  for (int i = 0; i < n; i++) {
    if (!apply(c, s, c.choose(OPS, "operation"))) return;
    s.verify(c);
  }
}
SCENARIO("C12", "C12.closure", mc::QUICK, "explicit-state search to the fixed point over 4 times: every set of times with every order of keys (65 states), every applicable operation in each") { closure(c, 4); }
SCENARIO("C12", "C12.closure.deep", mc::THOROUGH, "the same with 5 times (326 states)") { closure(c, 5); }

static const std::vector<std::vector<double>>& odd() {
  static const std::vector<std::vector<double>> v = {
      {0.0, std::numeric_limits<double>::denorm_min(), -std::numeric_limits<double>::denorm_min()},
      {1e-300, 2e-300, -1e-300},
      {1.5e9, 1.5e9 + 2.5e-7, 1.5e9 + 5e-7},
      {1e18, 1e18 + 128, 1e18 + 256},
      {-1e300, 1e300, 0},
      {-INF, 0, INF},
      {0.1, 0.1 + 0.2, 0.3},
      {5, 5 + 1e-10, 5 + 1e-9},
      {100, 100 + 1e-7, 100.0001},
      {-3, -2, -1}};
  return v;
}
SCENARIO("C12", "C12.times", mc::BOTH, "10 triples of extreme or nearly equal times x all histories of 4 of: insert, remove by key, remove by time, move, update") {
  const std::vector<double>& T = c.pick(odd(), "times");
  Sys s;
  for (int i = 0; i < 4; i++) {
    int k = c.choose(5, "operation");
    double t = T[c.choose(3, "time")];
    auto f = s.mod.m.find(t);
    bool has = f != s.mod.m.end();
    size_t ix = std::distance(s.mod.m.begin(), f);
    if (k == 0) s.insert(c, t);
    else if (!has) return;
    else if (k == 1) s.removeKey(c, ix);
    else if (k == 2) s.removeTime(c, ix);
    else if (k == 3) {
      double u = T[c.choose(3, "to")];
      if (u != t && s.mod.m.count(u)) return;
      s.move(c, ix, u);
    } else
      s.updateKey(c, ix);
    s.verify(c);
    c.observe((uint64_t)(mc::bits(t) * 31 + s.n()));
  }
}
static double orderTime(int pattern, int i, int n) {
  switch (pattern) {
    case 0: return i;
    case 1: return n - i;
    case 2: return i % 2 ? -i : i;
    case 3: return (i * 7919) % 10007;
    default: return 0.1 * i;
  }
}
static void many(Ctx& c, const std::vector<int>& N) {
  int n = c.pick(N, "coefficients");
  int pat = c.choose(5, "order of insertion");
  int del = c.choose(6, "what follows");
  Sys s;
  for (int i = 0; i < n; i++) {
    double t = orderTime(pat, i, n);
    if (pat == 0 && i % 3 == 0 && s.n()) s.append(c, t - s.at(s.n() - 1), i % 2);
    else s.insert(c, t);
  }
  s.verify(c);
  switch (del) {
    case 0:  // every second one
      for (int i = 0; i < n / 2; i++) s.removeKey(c, std::min<size_t>(i, s.n() - 1));
      break;
    case 1:
      while (s.n()) s.removeTime(c, 0);
      break;
    case 2:
      while (s.n() > 1) s.removeKey(c, s.n() - 1);
      break;
    case 3:
      for (int i = 0; i < n; i++) s.move(c, i % s.n(), s.at(s.n() - 1) + 1);  // rotate
      break;
    case 4:
      s.updateSome(c, 0x6d);
      s.batch(c, n / 3, n - n / 3);
      for (int i = 0; i < n; i += 3) s.insert(c, orderTime(pat, i, n));
      break;
    case 5:
      s.clear(c);
      for (int i = 0; i < n; i++) s.insert(c, orderTime((pat + 1) % 5, i, n) + 0.5);
      break;
  }
  s.verify(c);
  c.observe((uint64_t)(s.n() * 7 + pat));
}
SCENARIO("C12", "C12.many", mc::BOTH, "1..400 coefficients x 5 orders of insertion x 6 ways of going on (removals from either end, every second one, rotation, updates, clear and refill)") {
  static const std::vector<int> N = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 64, 65, 100, 128, 129, 257, 400};
  many(c, N);
}

// ---------------------------------------------------------------- C13
static void queries(Ctx& c, const Sys& s, bool allPairs) {
  const Man& m = *s.man;
  std::vector<double> p = {-INF, -1e9, 0, 1e9, INF};
  std::vector<double> t;
  for (auto& e : s.mod.m) t.push_back(e.first);
  for (size_t i = 0; i < t.size(); i++) {
    p.push_back(t[i]);
    p.push_back(std::nextafter(t[i], INF));
    p.push_back(std::nextafter(t[i], -INF));
    if (i + 1 < t.size() && !(std::isinf(t[i]) && std::isinf(t[i + 1]))) p.push_back(0.5 * (t[i] + t[i + 1]));
  }
  if (!t.empty()) {
    p.push_back(t[0] - 0.5);
    p.push_back(t.back() + 0.5);
  }
  std::sort(p.begin(), p.end());
  p.erase(std::unique(p.begin(), p.end()), p.end());
  auto same = [&](Man::CoefficientIter it, size_t i) { return it->first == t[i] && it->second.key == s.mod.m.at(t[i]).first && it->second.coefficient == s.mod.m.at(t[i]).second; };
  for (double q : p) {
    Man::CoefficientIter a = m.coefficientEnd(), b = m.coefficientEnd();
    bool ok = m.getCoefficientsAt(q, &a, &b);
    bool in = t.size() >= 2 && q >= t.front() && q <= t.back();
    c.check(ok == in, "bracket query at %.17g in [%g, %g] of %zu coefficients: %d", q, t.empty() ? 0 : t.front(), t.empty() ? 0 : t.back(), t.size(), ok);
    if (ok) {
      size_t i = 0;
      while (i + 2 < t.size() && t[i + 1] <= q) i++;
      c.check(a != m.coefficientEnd() && b != m.coefficientEnd() && same(a, i) && same(b, i + 1), "bracket query at %.17g: %g and %g, expected %g and %g", q, a->first, b->first, t[i], t[i + 1]);
      c.observe((uint64_t)i + 17);
    }
  }
  {
    Man::CoefficientIter a = m.coefficientEnd(), b = m.coefficientEnd();
    c.check(!m.getCoefficientsAt(NAN, &a, &b), "bracket query at a time that is not a number succeeds, %zu coefficients", t.size());
    for (int k = 0; k < 3; k++) {
      Man::CoefficientMap out;
      m.getCoefficientsInRange(k != 1 ? NAN : m.getMinTime(), k != 0 ? NAN : m.getMaxTime(), &out);
      c.check(out.empty(), "range with an end that is not a number has %zu coefficients", out.size());
    }
  }
  for (size_t x = 0; x < p.size(); x++)
    for (size_t y = 0; y < p.size(); y++) {
      if (!allPairs && (y > x ? y - x : x - y) > 6 && (x % (p.size() / 24) || y % (p.size() / 24))) continue;
      double lo = p[x], hi = p[y];
      Man::CoefficientMap out, want;
      out[999999999] = want[999999999] = "was there before";
      m.getCoefficientsInRange(lo, hi, &out);
      if (!t.empty() && lo <= hi && lo <= t.back() && hi >= t.front()) {
        size_t i = 0, j = t.size() - 1;
        while (i + 1 < t.size() && t[i + 1] <= lo) i++;
        while (j > 0 && t[j - 1] >= hi) j--;
        for (size_t k = i; k <= std::max(i, j); k++) want[s.mod.m.at(t[k]).first] = s.mod.m.at(t[k]).second;
      }
      c.check(out == want, "range query [%.17g, %.17g] of %zu coefficients returned %zu, expected %zu", lo, hi, t.size(), out.size() - 1, want.size() - 1);
    }
  double mx = t.empty() ? 0 : t.back(), mn = t.empty() ? 0 : t.front();
  for (double q : p) {
    if (q < mn) continue;
    std::vector<double> out(2, 5.5), want;
    for (double x : t)
      if (x >= q) want.push_back(x);
    m.getTimesInWindow(&out, q, mx);
    c.check(out == want, "window query from %.17g to the end of %zu coefficients returned %zu times, expected %zu", q, t.size(), out.size(), want.size());
  }
}
SCENARIO("C13", "C13.sets", mc::BOTH, "all subsets of 7 times x 4 histories that lead to them x all brackets, ranges (all pairs) and windows at, next to, between and outside of the coefficients") {
  static const std::vector<double> T = {0, 1, 1.25, 3, -2, -0.5, 1e6};
  int mask = c.choose(128, "subset");
  int how = c.choose(4, "history");
  Sys s;
  c.note("subset %d", mask);
  for (int i = 0; i < 7; i++) {
    int j = how == 1 ? 6 - i : i;
    if (mask >> j & 1) s.insert(c, how == 2 ? T[j] + 1e7 + 100 * j : T[j]);
    else if (how == 3) s.insert(c, T[j]);
  }
  if (how == 2)
    for (int j = 0; j < 7; j++)
      if (mask >> j & 1) s.move(c, std::distance(s.mod.m.begin(), s.mod.m.find(T[j] + 1e7 + 100 * j)), T[j]);
  if (how == 3)
    for (int j = 0; j < 7; j++)
      if (!(mask >> j & 1)) s.removeTime(c, std::distance(s.mod.m.begin(), s.mod.m.find(T[j])));
  s.verify(c);
  queries(c, s, true);
}
SCENARIO("C13", "C13.times", mc::BOTH, "10 triples of extreme or nearly equal times x all subsets x all queries") {
  const std::vector<double>& T = c.pick(odd(), "times");
  int mask = c.choose(8, "subset");
  Sys s;
  for (int i = 0; i < 3; i++)
    if (mask >> i & 1) s.insert(c, T[i]);
  queries(c, s, true);
}
SCENARIO("C13", "C13.histories", mc::QUICK, "all histories of up to 3 of 34 operations, then all queries") {
  Sys s;
  for (int i = 0; i < 3; i++)
    if (!apply(c, s, c.choose(OPS, "operation"))) return;
  queries(c, s, true);
}
SCENARIO("C13", "C13.histories.deep", mc::THOROUGH, "all histories of up to 4 of 34 operations, then all queries") {
  Sys s;
  for (int i = 0; i < 4; i++)
    if (!apply(c, s, c.choose(OPS, "operation"))) return;
  queries(c, s, true);
}
SCENARIO("C13", "C13.many", mc::BOTH, "1..200 coefficients x 5 orders of insertion x all brackets and windows, all short ranges and a grid of long ones") {
  static const std::vector<int> N = {1, 2, 3, 5, 8, 9, 16, 17, 33, 64, 100, 200};
  int n = c.pick(N, "coefficients");
  int pat = c.choose(5, "order of insertion");
  Sys s;
  for (int i = 0; i < n; i++) s.insert(c, orderTime(pat, i, n));
  queries(c, s, n <= 17);
}

// ---------------------------------------------------------------- C14
static void copies(Ctx& c, int before, int after, const std::vector<int>& ops) {
  Sys a;
  for (int i = 0; i < before; i++)
    if (!apply(c, a, c.pick(ops, "before"))) return;
  int way = c.choose(6, "way of copying");
  Sys b;
  b.mod.ever = a.mod.ever;
  static const char* nm[] = {"copy construction", "assignment to an empty manager", "assignment to a manager with content", "assignment to itself first", "copy of a copy", "passing by value"};
  c.step("%s", nm[way]);
  switch (way) {
    case 0: b.man.reset(new Man(*a.man)); break;
    case 1: *b.man = *a.man; break;
    case 2: {
      Sys d;
      for (double t : {1.0, 7.0, 8.0}) d.insert(c, t);
      for (Key k : d.mod.ever) a.mod.ever.insert(k);
      *d.man = *a.man;
      b.man = std::move(d.man);
      b.mod.ever = a.mod.ever;
      break;
    }
    case 3: {
      Man& self = *a.man;
      *a.man = self;
      b.man.reset(new Man(*a.man));
      break;
    }
    case 4: {
      Man tmp(*a.man);
      *b.man = tmp;
      break;
    }
    default: {
      auto f = [](Man m) { return m; };
      *b.man = f(*a.man);
    }
  }
  b.mod.m = a.mod.m;
  a.verify(c, "original");
  b.verify(c, "copy");
  c.check(a.man->equals(*b.man) && b.man->equals(*a.man), "a copy does not equal its original");
  for (int i = 0; i < after; i++) {
    int side = c.choose(2, "on which");
    Sys &x = side ? b : a, &y = side ? a : b;
    c.note("on the %s", side ? "copy" : "original");
    std::set<Key> both = a.mod.ever;
    both.insert(b.mod.ever.begin(), b.mod.ever.end());
    x.mod.ever = both;
    bool same = false;
    if (!apply(c, x, c.pick(ops, "after"))) return;
    x.verify(c, side ? "copy, changed" : "original, changed");
    y.verify(c, side ? "original, after a change of the copy" : "copy, after a change of the original");
    same = a.mod.m == b.mod.m;
    c.check(a.man->equals(*b.man) == same, "equals is %d for %s managers", !same, same ? "equal" : "different");
    c.observe((uint64_t)(x.n() * 16 + y.n()));
  }
  c.step("destroy one");
  if (c.flip("destroy which")) {
    a.man.reset();
    b.verify(c, "copy of a destroyed manager");
    b.insert(c, 0.125);
    b.verify(c, "copy of a destroyed manager");
  } else {
    b.man.reset();
    a.verify(c, "original of a destroyed copy");
    if (a.n()) a.removeKey(c, 0);
    a.verify(c, "original of a destroyed copy");
  }
}
static std::vector<int> allOps() {
  std::vector<int> r;
  for (int i = 0; i < OPS; i++) r.push_back(i);
  return r;
}
SCENARIO("C14", "C14.copies", mc::QUICK, "all histories of 2 operations x 6 ways of copying x one operation of 34 on either x destruction of either") {
  static const std::vector<int> o = allOps();
  copies(c, 2, 1, o);
}
SCENARIO("C14", "C14.copies.long", mc::QUICK, "histories of 2 of 11 operations x 6 ways of copying x 2 operations on either x destruction of either") {
  static const std::vector<int> o = {6, 5, 7, 11, 13, 15, 20, 21, 24, 27, 28};
  copies(c, 2, 2, o);
}
SCENARIO("C14", "C14.copies.deep", mc::THOROUGH, "histories of 2 of 34 operations x 6 ways of copying x 2 of 34 operations on either") {
  static const std::vector<int> o = allOps();
  copies(c, 2, 2, o);
}
//! Moves the coefficient at one time to another one and gives it a value.
static void moveTo(Man& m, double from, double to, const Val& v) {
  auto it = m.coefficientBegin();
  while (it != m.coefficientEnd() && it->first != from) ++it;
  m.modifyCoefficient(it, to, v);
}
SCENARIO("C14", "C14.equality", mc::BOTH, "managers with 0..4 coefficients and copies of them x every single difference (a time moved, a value changed, a key replaced, one missing, one more; by much or hardly): not equal, and equal again after assignment") {
  int n = c.choose(5, "coefficients"), what = c.choose(7, "difference");
  bool tiny = c.flip("hardly");
  int i = n > 1 ? c.choose(n, "which") : 0;
  if (n == 0 && what != 0 && what != 5) return;
  Man a;
  std::vector<Key> keys;
  for (int j = 0; j < n; j++) keys.push_back(a.insertCoefficient(1.0 + 2 * j, val(10 + j)));
  Man b(a);
  double t = 1.0 + 2 * i, t2 = tiny ? std::nextafter(t, 100) : t + 0.5;
  Man::CoefficientType v = n ? a.getCoefficientByKey(keys[i]) : val(1), w = v;
  if (tiny && !w.empty()) w.back()++;
  else w = "else";
  c.step("%d coefficients, difference %d at %d", n, what, i);
  c.check(a.equals(a) && a.equals(b) && b.equals(a), "a copy of %d coefficients does not equal its original", n);
  switch (what) {
    case 0: break;
    case 1:  // another time, nothing else
      moveTo(b, t, t2, v);
      break;
    case 2: b.updateCoefficientByKey(keys[i], w); break;
    case 3:  // another key, nothing else
      b.removeCoefficientWithKey(keys[i]);
      b.insertCoefficient(t, v);
      break;
    case 4: b.removeCoefficientAtTime(t); break;
    case 5: b.insertCoefficient(tiny ? std::nextafter(t, 100) : 0.25 + 2 * n, v); break;
    default: {  // times exchanged between two coefficients
      if (n < 2) return;
      double u = 1.0 + 2 * ((i + 1) % n);
      Man::CoefficientType x = b.getCoefficientByKey(keys[(i + 1) % n]);
      moveTo(b, t, -5, v);
      moveTo(b, u, t, x);
      moveTo(b, -5, u, v);
    }
  }
  c.check(a.equals(b) == (what == 0) && b.equals(a) == (what == 0), "equality of managers with %d coefficients and difference %d (%s): %d, %d", n, what,
          tiny ? "hardly" : "much", (int)a.equals(b), (int)b.equals(a));
  bool back = c.flip("assign which way");
  Man &to = back ? a : b, &from = back ? b : a;
  to = from;
  c.check(a.equals(b) && b.equals(a), "not equal after assignment (difference %d of %d coefficients)", what, n);
  std::vector<double> ta, tb;
  std::vector<Key> ka, kb;
  a.getTimes(&ta);
  b.getTimes(&tb);
  a.getKeys(&ka);
  b.getKeys(&kb);
  c.check(ta == tb && ka == kb, "times or keys differ after assignment (difference %d of %d coefficients)", what, n);
  for (size_t j = 0; j < ka.size(); j++)
    c.check(a.getCoefficientByKey(ka[j]) == b.getCoefficientByKey(ka[j]) && a.getCoefficientTimeByKey(ka[j]) == b.getCoefficientTimeByKey(ka[j]),
            "coefficient %zu differs after assignment (difference %d)", j, what);
  c.observe((uint64_t)ta.size());
}
SCENARIO("C14", "C14.many", mc::BOTH, "copies of managers with 1..300 coefficients, by construction and assignment, then removals from one of them") {
  static const std::vector<int> N = {1, 2, 8, 17, 64, 300};
  int n = c.pick(N, "coefficients");
  int pat = c.choose(5, "order of insertion"), way = c.choose(2, "way");
  Sys a, b;
  for (int i = 0; i < n; i++) a.insert(c, orderTime(pat, i, n));
  c.step("copy");
  if (way) b.man.reset(new Man(*a.man));
  else *b.man = *a.man;
  b.mod = a.mod;
  b.verify(c, "copy");
  while (a.n() > 1) a.removeKey(c, a.n() / 2);
  a.verify(c, "original");
  b.verify(c, "copy");
  a.man.reset();
  for (int i = 0; i < n; i += 2) b.updateKey(c, i);
  b.verify(c, "copy");
  c.observe((uint64_t)(n * 5 + pat));
}

// ---------------------------------------------------------------- C23
namespace {
struct Bad {
  std::string name;
  std::function<void(Man&)> call;
};
std::vector<Bad> misuse(const Sys& s) {
  std::vector<Bad> r;
  std::vector<double> t;
  for (auto& e : s.mod.m) t.push_back(e.first);
  size_t n = t.size();
  std::vector<std::pair<std::string, Key>> keys = {{"key 0", 0}, {"the largest key", (Key)-1}, {"a key never handed out", s.mod.ever.empty() ? 1000000 : *s.mod.ever.rbegin() + 1000}};
  for (Key k : s.mod.ever) {
    bool live = false;
    for (auto& e : s.mod.m) live = live || e.second.first == k;
    if (!live) {
      keys.push_back({"a removed key", k});
      break;
    }
  }
  for (auto& k : keys) {
    Key q = k.second;
    r.push_back({"removeCoefficientWithKey of " + k.first, [q](Man& m) { m.removeCoefficientWithKey(q); }});
    r.push_back({"updateCoefficientByKey of " + k.first, [q](Man& m) { m.updateCoefficientByKey(q, "x"); }});
    r.push_back({"getCoefficientByKey of " + k.first, [q](Man& m) { m.getCoefficientByKey(q); }});
    r.push_back({"getCoefficientTimeByKey of " + k.first, [q](Man& m) { m.getCoefficientTimeByKey(q); }});
    r.push_back({"updateCoefficients with " + k.first, [q](Man& m) {
                   Man::CoefficientMap u;
                   m.getCoefficients(&u);
                   u[q] = "x";
                   m.updateCoefficients(u);
                 }});
  }
  std::vector<double> absent = {-1e9, 1e9, 0.3, NAN};
  for (double x : t) {
    absent.push_back(std::nextafter(x, INF));
    absent.push_back(std::nextafter(x, -INF));
  }
  for (double x : absent) {
    if (!std::isnan(x) && s.mod.m.count(x)) continue;
    r.push_back({mc::fmt("removeCoefficientAtTime(%.17g), where there is none", x), [x](Man& m) { m.removeCoefficientAtTime(x); }});
    r.push_back({mc::fmt("batch at %.17g, where there is none", x), [x](Man& m) { m.modifyCoefficientsValuesInBatch({x}, {Val("x")}); }});
  }
  for (double x : t)
    r.push_back({mc::fmt("addCoefficientAtEnd(%g), which is taken", x), [x](Man& m) { m.addCoefficientAtEnd(x, "x"); }});
  r.push_back({"insertCoefficient at a time that is not a number", [](Man& m) { m.insertCoefficient(NAN, "x"); }});
  r.push_back({"insertCoefficients with a time that is not a number", [](Man& m) { m.insertCoefficients({50.0, NAN, 51.0}, {Val("x"), Val("y"), Val("z")}); }});
  r.push_back({"addCoefficientAtEnd at a time that is not a number", [](Man& m) { m.addCoefficientAtEnd(NAN, "x"); }});
  r.push_back({"window that begins at a time that is not a number", [](Man& m) {
                 std::vector<double> o;
                 m.getTimesInWindow(&o, NAN, m.getMaxTime());
               }});
  r.push_back({"window that ends at a time that is not a number", [](Man& m) {
                 std::vector<double> o;
                 m.getTimesInWindow(&o, m.getMinTime(), NAN);
               }});
  if (n) {
    for (size_t i : {(size_t)0, n / 2, n - 1})
      r.push_back({mc::fmt("moving the coefficient at %g to a time that is not a number", t[i]), [i](Man& m) {
                     auto it = m.coefficientBegin();
                     std::advance(it, i);
                     m.modifyCoefficient(it, NAN, "x");
                   }});
    for (double x : {std::nextafter(t.back(), -INF), t[0] - 1, n > 1 ? 0.5 * (t[0] + t[1]) : t[0] - 2})
      r.push_back({mc::fmt("addCoefficientAtEnd(%.17g), not at the end", x), [x](Man& m) { m.addCoefficientAtEnd(x, "x"); }});
    for (double x : {t.back() + 1, std::nextafter(t.back(), INF), std::nextafter(t.back(), -INF), t[0] - 1})
      r.push_back({mc::fmt("window that ends at %.17g", x), [x](Man& m) {
                     std::vector<double> o;
                     m.getTimesInWindow(&o, m.getMinTime(), x);
                   }});
    for (double x : {t[0] - 1, std::nextafter(t[0], -INF)})
      r.push_back({mc::fmt("window that begins at %.17g", x), [x](Man& m) {
                     std::vector<double> o;
                     m.getTimesInWindow(&o, x, m.getMaxTime());
                   }});
    double last = t.back();
    r.push_back({"batch that goes on after the last coefficient", [last](Man& m) { m.modifyCoefficientsValuesInBatch({last, last + 1}, {Val("x"), Val("y")}); }});
    r.push_back({"batch with the same time twice", [last](Man& m) { m.modifyCoefficientsValuesInBatch({last, last}, {Val("x"), Val("y")}); }});
    r.push_back({"batch with more values than times", [last](Man& m) { m.modifyCoefficientsValuesInBatch({last}, {Val("x"), Val("y")}); }});
    r.push_back({"batch with fewer values than times", [last](Man& m) { m.modifyCoefficientsValuesInBatch({last}, {}); }});
  } else {
    r.push_back({"window of an empty manager that ends elsewhere", [](Man& m) {
                   std::vector<double> o;
                   m.getTimesInWindow(&o, 0, 1);
                 }});
    r.push_back({"window of an empty manager that begins elsewhere", [](Man& m) {
                   std::vector<double> o;
                   m.getTimesInWindow(&o, -1, 0);
                 }});
  }
  if (n >= 3) r.push_back({"batch that leaves one out", [t](Man& m) { m.modifyCoefficientsValuesInBatch({t[0], t[2]}, {Val("x"), Val("y")}); }});
  if (n >= 2) {
    r.push_back({"batch in reverse order", [t](Man& m) { m.modifyCoefficientsValuesInBatch({t[1], t[0]}, {Val("x"), Val("y")}); }});
    for (size_t i : {(size_t)0, n - 1})
      for (size_t j : {(size_t)0, n - 1, n / 2}) {
        if (i == j) continue;
        double u = t[j];
        r.push_back({mc::fmt("moving the coefficient at %g to %g, which is taken", t[i], u), [i, u](Man& m) {
                       auto it = m.coefficientBegin();
                       std::advance(it, i);
                       m.modifyCoefficient(it, u, "x");
                     }});
      }
  }
  r.push_back({"insertion of more times than values", [](Man& m) { m.insertCoefficients({1, 2}, {Val("x")}); }});
  r.push_back({"insertion of fewer times than values", [](Man& m) { m.insertCoefficients({1}, {Val("x"), Val("y")}); }});
  r.push_back({"insertion of values without times", [](Man& m) { m.insertCoefficients({}, {Val("x")}); }});
  r.push_back({"insertion of times without values", [](Man& m) { m.insertCoefficients({1}, {}); }});
  r.push_back({"getKeys without output", [](Man& m) { m.getKeys(nullptr); }});
  r.push_back({"appendKeys without output", [](Man& m) { m.appendKeys(nullptr); }});
  r.push_back({"getTimes without output", [](Man& m) { m.getTimes(nullptr); }});
  r.push_back({"getTimesInWindow without output", [](Man& m) { m.getTimesInWindow(nullptr, m.getMinTime(), m.getMaxTime()); }});
  r.push_back({"getCoefficients without output", [](Man& m) { m.getCoefficients(nullptr); }});
  for (int k = 0; k < 3; k++)
    r.push_back({mc::fmt("range query without output, %s", k == 0 ? "of everything" : k == 1 ? "backwards" : "outside"), [k](Man& m) {
                   double a = m.getMinTime(), b = m.getMaxTime();
                   m.getCoefficientsInRange(k == 0 ? a : b + 1, k == 0 ? b : k == 1 ? a - 1 : b + 2, nullptr);
                 }});
  r.push_back({"bracket query without first output", [](Man& m) {
                 Man::CoefficientIter it;
                 m.getCoefficientsAt(0.5, nullptr, &it);
               }});
  r.push_back({"bracket query without second output", [](Man& m) {
                 Man::CoefficientIter it;
                 m.getCoefficientsAt(0.5, &it, nullptr);
               }});
  return r;
}
void misused(Ctx& c, Sys& s) {
  auto bad = misuse(s);
  const Bad& b = bad[c.choose((int)bad.size(), "misuse")];
  c.step("%s", b.name.c_str());
  mc::Fate f = mc::inChild([&] { b.call(*s.man); });
  c.check(f.kind == mc::Fate::Checked || f.kind == mc::Fate::Threw, "%s (%zu coefficients) is not detected: %s", b.name.c_str(), s.n(), f.text.c_str());
  c.observe((uint64_t)std::hash<std::string>()(b.name));
  s.verify(c);
}
}  // namespace
SCENARIO("C23", "C23.histories", mc::QUICK, "all histories of 1 of 34 operations and all pairs of 12 of them x every misuse, each in a process of its own") {
  static const std::vector<int> o = {6, 3, 5, 7, 11, 9, 13, 15, 17, 24, 27, 31};
  Sys s;
  int k = c.choose(1 + OPS + (int)(o.size() * o.size()), "history");
  if (k >= 1 && k <= OPS) {
    if (!apply(c, s, k - 1)) return;
  } else if (k > OPS) {
    int a = (k - OPS - 1) / (int)o.size(), b = (k - OPS - 1) % (int)o.size();
    if (!apply(c, s, o[a]) || !apply(c, s, o[b])) return;
  }
  misused(c, s);
}
SCENARIO("C23", "C23.histories.deep", mc::THOROUGH, "all histories of up to 2 of 34 operations x every misuse") {
  Sys s;
  int n = c.choose(3, "length");
  for (int i = 0; i < n; i++)
    if (!apply(c, s, c.choose(OPS, "operation"))) return;
  misused(c, s);
}
SCENARIO("C23", "C23.sets", mc::BOTH, "all subsets of 5 times x every misuse") {
  static const std::vector<double> T = {0, 1, 1.25, 3, -2};
  int mask = c.choose(32, "subset");
  Sys s;
  for (int i = 0; i < 5; i++)
    if (mask >> i & 1) s.insert(c, T[i]);
  misused(c, s);
}
