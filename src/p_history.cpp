// C09, C10, C11: rejected data, independence of history, linearity.
#include "gen.hpp"
using mc::Ctx;

static double ev(const Cont& s, int d, double t) { return d == 0 ? s.pos(t) : d == 1 ? s.vel(t) : s.acc(t); }

//! Everything a user can see of an object, as a list of numbers.
static std::vector<double> view(const Fitted& f) {
  std::vector<double> r;
  static const double T[] = {-5, -3, -1.75, -0.5, 0, 0.25, 0.5, 1, 1.25, 1.5, 2.25, 3, 3.5, 4.75, 6, 10};
  if (f.cont) {
    const Cont& s = *f.cont;
    double off = 0;
    for (double v : {s.duration(), s.time(), (double)s.isEmpty(), s.pos(), s.vel(), s.acc(), s.endPos(), s.endVel(), s.endAcc(), (double)s.nSplines(),
                     (double)s.checkContainer()})
      r.push_back(v);
    if (s.time() < s.duration()) r.push_back(s.index());
    for (double t : T) {
      for (int d = 0; d < 3; d++) r.push_back(ev(s, d, t));
      off = -1;
      r.push_back(s.indexAt(t, off));
      if (!s.isEmpty()) r.push_back(off);
    }
  } else {
    const Crv& s = *f.crv;
    r = {s.minTime(), s.maxTime()};
    for (double t : T)
      for (int d = 0; d < 3; d++) {
        std::vector<double> x;
        bool ok = d == 0 ? s.eval(x, t) : s.evalD(x, t, d);
        r.push_back(ok);
        for (double v : x) r.push_back(v);
      }
  }
  return r;
}
static void same(Ctx& c, const std::vector<double>& a, const std::vector<double>& b, const char* what) {
  c.check(a.size() == b.size(), "%s", what);
  for (size_t i = 0; i < a.size(); i++)
    c.near(a[i], b[i], 1e-9 * (1 + std::fabs(b[i])), "%s (item %zu of what can be observed)", what, i);
}
static Fitted clone(const Fitted& f, bool assign, const Fitted* into) {
  Fitted r;
  r.k = f.k;
  r.order = f.order;
  r.dims = f.dims;
  r.kind = f.kind;
  r.variant = f.variant;
  r.dflt = f.dflt;
  r.what = f.what;
  if (f.cont) {
    r.cont = assign ? into->cont->clone() : f.cont->clone();
    if (assign) r.cont->assign(*f.cont);
  } else {
    r.crv = assign ? into->crv->clone() : f.crv->clone();
    if (assign) r.crv->assign(*f.crv);
  }
  return r;
}
static const std::vector<Case>& cases() {
  static const std::vector<Case> v = [] {
    std::vector<Case> r(4);
    r[0].t = {0, 1, 1.5, 3.5};
    r[0].x = {0, 4, -1, 2};
    setBc(r[0], bcs()[5]);
    r[1].t = {-2, 0.5};
    r[1].x = {3, 1};
    setBc(r[1], bcs()[6]);
    r[2].t = {1, 2, 3, 4, 5, 6};
    r[2].x = {1, 2, 2, 2, -1, 5};
    setBc(r[2], bcs()[7]);
    r[3].t = {-4.5, -4, 0, 0.125};
    r[3].x = {1, 1, 1, 1};
    return r;
  }();
  return v;
}

// ---------------------------------------------------------------- C09
struct BadCase {
  Case k;
  bool sizes;  // times and positions differ in number
  std::string what;
};
static const std::vector<BadCase>& bad() {
  static const std::vector<BadCase> b = [] {
    std::vector<BadCase> r;
    auto add = [&](std::vector<double> t, std::vector<double> x, const char* w) {
      BadCase q;
      q.k.t = t;
      q.k.x = x;
      setBc(q.k, bcs()[5]);
      q.sizes = t.size() != x.size();
      q.what = w;
      r.push_back(q);
    };
    add({}, {}, "no knots");
    add({1}, {2}, "one knot");
    add({0}, {0}, "one knot at zero");
    for (int n = 2; n <= 6; n++) {
      std::vector<double> t, x;
      for (int i = 0; i < n; i++) {
        t.push_back(2 + 0.75 * i);
        x.push_back((i * 3) % 5);
      }
      for (int i = 1; i < n; i++) {
        std::vector<double> u = t;
        u[i] = u[i - 1];
        add(u, x, "equal times");
        u[i] = std::nextafter(u[i - 1], -1e9);
        add(u, x, "a time one unit in the last place too early");
        u[i] = -100;
        add(u, x, "a time far too early");
        u = t;
        std::swap(u[i], u[i - 1]);
        add(u, x, "swapped times");
      }
      std::vector<double> rev(t.rbegin(), t.rend());
      add(rev, x, "reversed times");
      add(std::vector<double>(n, 0.0), x, "all times zero");
      std::vector<double> y = x;
      y.push_back(1);
      add(t, y, "one position too many");
      y = x;
      y.pop_back();
      add(t, y, "one position too few");
      add(t, {}, "no positions");
      add({}, x, "no times");
      y = x;
      y.insert(y.end(), 3, 2.0);
      add(t, y, "three positions too many");
    }
    const double nan = std::nan("");
    for (int n = 2; n <= 4; n++)
      for (int i = 0; i < n; i++)
        for (double bad : {nan, (double)INFINITY, -(double)INFINITY}) {
          std::vector<double> t, x(n, 1.5);
          for (int j = 0; j < n; j++) t.push_back(j == i ? bad : -1.0 + j);
          add(t, x, "a time that is not finite");
        }
    add({-1.5e308, 1.5e308}, {1, 2}, "a duration that is not finite");
    for (double at : {1.5e9, -1e6, 1e-9})
      for (int n : {2, 3, 17, 65}) {
        std::vector<double> t, x;
        for (int i = 0; i < n; i++) {
          t.push_back(at + 0.125 * i);
          x.push_back((i * 3) % 5);
        }
        for (int i : {1, n / 2, n - 1}) {
          std::vector<double> u = t;
          u[i] = u[i - 1];
          add(u, x, "equal times");
          u[i] = std::nextafter(u[i - 1], -1e12);
          add(u, x, "a time one unit in the last place too early");
          u[i] = u[i - 1] - 1e-3;
          add(u, x, "a time slightly too early");
        }
        std::vector<double> y = x;
        y.pop_back();
        add(t, y, "one position too few");
      }
    return r;
  }();
  return b;
}
static void gone(Ctx& c, const Fitted& f, const char* w) {
  if (f.cont) {
    const Cont& s = *f.cont;
    c.check(s.isEmpty() && s.nSplines() == 0, "%s: %zu pieces after invalid data (%s)", f.what.c_str(), s.nSplines(), w);
    c.check(s.duration() == 0, "%s: duration %g after invalid data (%s)", f.what.c_str(), s.duration(), w);
    c.check(s.time() == 0, "%s: container time %g after invalid data (%s)", f.what.c_str(), s.time(), w);
    c.check(!const_cast<Cont&>(s).advance(0.5), "%s: advances through nothing after invalid data (%s)", f.what.c_str(), w);
    c.check(s.pos() == 0 && s.vel() == 0 && s.acc() == 0 && s.endPos() == 0 && s.endVel() == 0 && s.endAcc() == 0, "%s: values after invalid data (%s)",
            f.what.c_str(), w);
    for (double t : {-1.0, 0.0, 0.5, 2.5, 100.0})
      for (int d = 0; d < 3; d++) c.check(ev(s, d, t) == 0, "%s: derivative %d at %g after invalid data (%s)", f.what.c_str(), d, t, w);
  } else {
    c.check(f.crv->maxTime() == 0 && f.crv->minTime() == 0, "%s: spans %g..%g after invalid data (%s)", f.what.c_str(), f.crv->minTime(), f.crv->maxTime(), w);
    for (double t : {-1.0, 0.0, 0.5, 2.5, 100.0})
      for (int d = 0; d < 3; d++)
        for (int j = 0; j < f.dims; j++) c.check(f.ev(d, j, t) == 0, "%s: derivative %d at %g after invalid data (%s)", f.what.c_str(), d, t, w);
  }
}
SCENARIO("C09", "C09.reject", mc::BOTH,
         "every way of fitting x 5 earlier histories x every kind of invalid knots (too few, non-increasing at each place, not a number, sizes that differ) with up to 6 knots (65 at some places), twice, then valid data") {
  static const std::vector<Way> ws = ways(true, true);
  const Way& w = c.pick(ws, "way of fitting");
  const BadCase& b = c.pick(bad(), "invalid data");
  int before = c.choose(5, "before"), after = c.choose((int)cases().size(), "after");
  Fitted f = makeFit(w);
  if (before >= 1) doFit(f, cases()[0]);
  if (before >= 2 && f.cont) f.cont->advance(1.25);
  if (before >= 3 && f.cont) f.cont->addSpline(std::vector<double>(f.order + 1, 2.0), 0.5, true);
  if (before == 4) {
    Fitted o = makeFit(w);
    doFit(o, cases()[2]);
    f = clone(o, true, &f);
  }
  for (int twice = 0; twice < 2; twice++) {
    c.step("%s: %s", f.what.c_str(), b.what.c_str());
    doFit(f, b.k);
    if (f.cont) c.check(!f.ok, "%s: accepted %s: %s", f.what.c_str(), b.what.c_str(), b.k.str().c_str());
    gone(c, f, b.what.c_str());
  }
  Fitted g = makeFit(w);
  doFit(g, cases()[after]);
  c.step("then valid data");
  doFit(f, cases()[after]);
  c.check(f.ok, "%s: refuses valid data after invalid data (%s)", f.what.c_str(), b.what.c_str());
  same(c, view(f), view(g), "a fit after invalid data differs from a fresh one");
  for (double v : view(g)) c.observe(v);
}

SCENARIO("C09", "C09.accept", mc::BOTH, "every way of fitting x 1..3 segments with durations of 10^k, k = -13..6, in all combinations of 9 magnitudes x start times: never refused") {
  static const std::vector<Way> ws = ways(true, true);
  static const std::vector<double> D = {1e-13, 1e-9, 3e-8, 1e-6, 1e-4, 0.03, 1, 100, 1e6}, S = {0, -1.25};
  const Way& w = c.pick(ws, "way of fitting");
  Case k;
  int n = 1 + c.choose(3, "segments-1");
  k.t.push_back(c.pick(S, "start"));
  for (int i = 0; i < n; i++) {
    k.t.push_back(k.t.back() + c.pick(D, "duration"));
    if (!(k.t[i + 1] > k.t[i])) return;
  }
  for (int i = 0; i <= n; i++) k.x.push_back((i * 7) % 5 - 1.0);
  setBc(k, bcs()[5]);
  Fitted f = makeFit(w);
  c.step("%s on %s", f.what.c_str(), k.str().c_str());
  doFit(f, k);
  c.check(f.ok, "%s: refused valid data %s", f.what.c_str(), k.str().c_str());
  double T = k.t.back() - k.t.front();
  if (f.cont) {
    c.check((int)f.cont->nSplines() == n, "%s: %zu pieces for %d intervals of %s", f.what.c_str(), f.cont->nSplines(), n, k.str().c_str());
    for (int i = 0; i < n; i++)
      c.near(f.cont->splDuration(i), k.t[i + 1] - k.t[i], 1e-15 * (1 + std::fabs(k.t[i]) + std::fabs(k.t[i + 1])), "%s: duration of piece %d of %s", f.what.c_str(), i, k.str().c_str());
    c.near(f.cont->duration(), T, 1e-12 * T + 1e-15 * (1 + std::fabs(k.t.front()) + std::fabs(k.t.back())), "%s: duration of %s", f.what.c_str(), k.str().c_str());
  } else {
    c.check(f.crv->minTime() == k.t.front(), "%s: minimum time of %s", f.what.c_str(), k.str().c_str());
    c.near(f.crv->maxTime(), k.t.back(), 1e-12 * (T + std::fabs(k.t.front())), "%s: maximum time of %s", f.what.c_str(), k.str().c_str());
  }
  c.observe(T);
}

// ---------------------------------------------------------------- C10
static std::vector<Opt> someOptions() { return {{1, 0, 1, 0, 0, 0, 0}, {0.5, 1, -2, 0.5, -1, 2, 3}}; }
enum { NCONT = 14, NCRV = 10 };
static const char* doOp(Fitted& f, int op, const Fitted& other) {
  if (f.cont) {
    Cont& s = *f.cont;
    switch (op) {
      case 0: f.ok = fitCont(s, cases()[0], f.kind); return "fit of 3 segments";
      case 1: fitCont(s, cases()[2], 2); return "fit of 5 segments with velocities";
      case 2: fitCont(s, cases()[1], 1); return "linear fit of 1 segment";
      case 3: fitCont(s, bad()[4].k, f.kind); return "invalid fit";
      case 4: s.addSpline(std::vector<double>(f.order + 1, 2.0), 0.75, false); return "addSpline";
      case 5: s.advance(1.25); return "advance";
      case 6: s.reset(); return "reset";
      case 7: s.setContainerTime(2.25); return "setContainerTime";
      case 8: s.assign(*other.cont); return "assignment from another container";
      case 9: s.resetTime(); return "resetTime";
      case 10: s.assign(s); return "assignment to itself";
      case 11: s.reserve(64); return "reserveSplines";
      case 12: s.addSpline(std::vector<double>(f.order + 1, 3.0), 0.0, true); return "addSpline of no duration";
      default: s.setContainerTime(-1); return "setContainerTime before the start";
    }
  }
  Crv& s = *f.crv;
  switch (op) {
    case 0: fitCrv(s, cases()[0], -1); return "default fit of 3 segments";
    case 1: fitCrv(s, cases()[2], 0); return "fit of 5 segments";
    case 2: fitCrv(s, cases()[1], f.variant); return "fit of 1 segment";
    case 3: fitCrv(s, bad()[4].k, f.variant); return "invalid fit";
    case 4: s.clear(); return "clear";
    case 5: s.assign(*other.crv); return "assignment from another curve";
    case 6: s.assign(s); return "assignment to itself";
    case 7: fitCrv(s, cases()[3], 0); return "fit of constant data";
    case 8:
      if (s.hasOptions()) s.fit(someOptions());
      else fitCrv(s, cases()[2], 1);
      return "fit of options or derivative lists";
    default: fitCrv(s, bad()[0].k, f.variant); return "fit of no knots";
  }
}
static void history(Ctx& c, int len, const std::vector<Way>& ws) {
  const Way& w = c.pick(ws, "object");
  int fin = c.choose(8, "final operation");
  Fitted other = makeFit(w);
  doFit(other, cases()[2]);
  Fitted f = makeFit(w), g = makeFit(w);
  int n = c.choose(len + 1, "length");
  for (int i = 0; i < n; i++) {
    const char* nm = doOp(f, c.choose(f.cont ? NCONT : NCRV, "operation"), other);
    c.step("%s: %s", f.what.c_str(), nm);
  }
  c.step("final operation %d", fin);
  for (Fitted* p : {&f, &g}) {
    if (fin < 4) doFit(*p, cases()[fin]);
    else if (fin == 4) {
      if (p->cont) p->cont->reset();
      else p->crv->clear();
    } else if (fin == 5) {
      if (p->cont) p->cont->assign(*other.cont);
      else p->crv->assign(*other.crv);
    } else if (p->cont || !p->crv->hasOptions()) {
      if (fin == 7) return;
      doFit(*p, bad()[4].k);
    } else
      p->crv->fit(fin == 6 ? someOptions() : std::vector<Opt>());
  }
  static const char* nm[8] = {"fit", "fit", "fit", "fit", "clearing", "assignment", "fit of options, or of invalid data,", "fit of no options"};
  same(c, view(f), view(g), mc::fmt("%s: the result of a %s depends on what the object held before", f.what.c_str(), nm[fin]).c_str());
  auto v = view(f);
  c.observe(v[v.size() / 2]);
}
static const std::vector<Way>& someWays() {
  static const std::vector<Way> v = [] {
    std::vector<Way> r;
    for (auto& w : ways(true, true))
      if (w.cls == 0 ? w.kind == 3 || (w.order == 3 && w.kind == 1) || (w.order == 5 && w.kind == 2)
                     : w.how == 0 || (w.dim == 3) || (w.dim == 0 && w.order == 5))
        r.push_back(w);
    return r;
  }();
  return v;
}
SCENARIO("C10", "C10.history", mc::QUICK, "objects of every class x all histories of up to 3 of 14 (10) operations x 8 final operations") { history(c, 3, someWays()); }
SCENARIO("C10", "C10.history.deep", mc::THOROUGH, "objects of every class x all histories of up to 4 operations x 8 final operations") { history(c, 4, someWays()); }

//! Data sets that have much, but not everything, in common.
static const std::vector<Case>& related() {
  static const std::vector<Case> v = [] {
    std::vector<Case> r;
    Case a = cases()[0];
    a.t = {0, 1, 1.5, 2.25, 3.25};
    a.x = {0, 4, -1, 2, 1};
    r.push_back(a);
    auto add = [&](void (*f)(Case&)) {
      Case b = a;
      f(b);
      r.push_back(b);
    };
    add([](Case& b) { b.t = {0, 1, 1.75, 2.25, 3.25}; });        // another inner time
    add([](Case& b) { b.t = {0, 0.5, 1.5, 2.75, 3.25}; });       // other first and last durations
    add([](Case& b) { for (double& t : b.t) t += 1; });          // later
    add([](Case& b) { for (double& t : b.t) t -= 2.5; });        // earlier
    add([](Case& b) { for (double& t : b.t) t *= 2; });          // slower
    add([](Case& b) { b.t.back() += 1; });                       // a longer last segment
    add([](Case& b) { b.t.front() -= 1; });                      // a longer first segment
    add([](Case& b) { b.x = {0, 4, 1, 2, 1}; });                 // another inner position
    add([](Case& b) { b.x.back() = 7; });                        // another last position
    add([](Case& b) { b.x.front() = -3; });                      // another first position
    add([](Case& b) { for (double& x : b.x) x = 0; setBc(b, bcs()[0]); });  // nothing
    add([](Case& b) { for (double& x : b.x) x = 0; });           // nothing but end conditions
    add([](Case& b) { for (double& x : b.x) x = 4; setBc(b, bcs()[0]); });  // a constant
    add([](Case& b) { setBc(b, bcs()[0]); });                    // other end conditions
    add([](Case& b) { b.v0 = 4; });
    add([](Case& b) { b.a0 = 4; });
    add([](Case& b) { b.vT = 4; });
    add([](Case& b) { b.aT = 4; });
    add([](Case& b) { b.t.pop_back(); b.x.pop_back(); });        // one knot less
    add([](Case& b) { b.t.erase(b.t.begin()); b.x.erase(b.x.begin()); });
    add([](Case& b) { b.t.erase(b.t.begin() + 2); b.x.erase(b.x.begin() + 2); });
    add([](Case& b) { b.t = {0, 3.25}; b.x = {0, 1}; });         // the ends only
    add([](Case& b) { b.t.push_back(4); b.x.push_back(3); });    // one knot more
    add([](Case& b) { std::reverse(b.x.begin(), b.x.end()); });
    add([](Case& b) { for (double& x : b.x) x = -x; });
    add([](Case& b) { b.only = 0; });                            // one component only
    add([](Case& b) { b.only = 1; });
    add([](Case& b) { b.only = 2; b.t = {0, 1, 1.75, 2.25, 3.25}; });
    add([](Case& b) { for (double& t : b.t) t += 1e-7; });       // nearly the same
    add([](Case& b) { b.t[2] += 1e-6; });
    add([](Case& b) { b.x[2] += 1e-6; });
    return r;
  }();
  return v;
}
static void pairs(Ctx& c, int len) {
  static const std::vector<Way> ws = ways(true, true);
  const Way& w = c.pick(ws, "object");
  int n = (int)related().size(), a = 0;
  Fitted f = makeFit(w), g = makeFit(w);
  for (int i = 0; i <= len; i++) {
    a = c.choose(n, "data");
    c.step("%s: data set %d", f.what.c_str(), a);
    doFit(f, related()[a]);
    if (i < len && c.flip("evaluate in between")) view(f);
  }
  doFit(g, related()[a]);
  // closer than usual: two data sets may differ by 1e-6
  auto x = view(f), y = view(g);
  c.check(x.size() == y.size(), "%s: another form after an earlier fit", f.what.c_str());
  for (size_t i = 0; i < x.size(); i++)
    c.near(x[i], y[i], 1e-9 * (1 + std::fabs(y[i])), "%s: the fit to data set %d depends on earlier fits (item %zu of what can be observed)", f.what.c_str(), a, i);
  c.observe(y[y.size() / 2]);
}
SCENARIO("C10", "C10.pairs", mc::BOTH, "every way of fitting x all pairs of 32 data sets that have much in common (times, end times, durations, values, end conditions, zero components), with and without evaluation in between") { pairs(c, 1); }
SCENARIO("C10", "C10.triples", mc::THOROUGH, "every way of fitting x all triples of 32 data sets that have much in common") { pairs(c, 2); }

//! One evaluation, another fit, and the first evaluation after it: what an evaluation left behind must not matter.
static void firstQuery(Ctx& c, const std::vector<int>& sets) {
  static const std::vector<Way> ws = ways(true, true);
  static const std::vector<double> F = {0.0, 0.2, 0.4, 0.6, 0.9, 1.0, 1.5};
  const Way& w = c.pick(ws, "object");
  int a = c.pick(sets, "data"), b = c.pick(sets, "new data"), da = c.choose(3, "derivative"), db = c.choose(2, "same derivative") ? (da + 1) % 3 : da;
  double fa = c.pick(F, "evaluated at"), fb = c.pick(F, "first evaluation at");
  Fitted f = makeFit(w), g = makeFit(w);
  const Case &A = related()[a], &B = related()[b];
  c.step("%s: data set %d, evaluated at %g of it, then data set %d", f.what.c_str(), a, fa, b);
  doFit(f, A);
  c.observe(f.ev(da, 0, A.t[0] + fa * A.T()));
  doFit(f, B);
  doFit(g, B);
  double t = B.t[0] + fb * B.T();
  for (int j = 0; j < f.dims; j++) {
    double x = f.ev(db, j, t), y = g.ev(db, j, t);
    c.near(x, y, 1e-9 * (1 + std::fabs(y)), "%s: derivative %d at %g of data set %d depends on an evaluation before the fit", f.what.c_str(), db, t, b);
  }
}
SCENARIO("C10", "C10.evaluations", mc::BOTH, "every way of fitting x all pairs of 5 similar data sets x an evaluation (7 times, 3 derivatives) of the first fit x the first evaluation (7 times) of the second") { firstQuery(c, {0, 2, 5, 20, 22}); }
SCENARIO("C10", "C10.evaluations.deep", mc::THOROUGH, "the same with all pairs of 14 data sets") { firstQuery(c, {0, 1, 2, 3, 5, 6, 8, 11, 19, 20, 21, 22, 23, 28}); }

static void copies(Ctx& c, int len) {
  const Way& w = c.pick(someWays(), "object");
  Fitted other = makeFit(w);
  doFit(other, cases()[2]);
  Fitted f = makeFit(w);
  int pre = c.choose(3, "before the copy");
  if (pre) doFit(f, cases()[0]);
  if (pre == 2) {
    if (f.cont) f.cont->advance(1.25);
    else doFit(f, cases()[3]);
  }
  auto orig = view(f);
  bool viaAssign = c.flip("copy by assignment");
  Fitted g = clone(f, viaAssign, &other);
  same(c, view(g), orig, "a copy differs from its original");
  same(c, view(f), orig, "copying changed the original");
  std::vector<double> vf = orig, vg = orig;
  for (int i = 0; i < len; i++) {
    bool onCopy = c.flip("on the copy");
    Fitted& x = onCopy ? g : f;
    int op = c.choose(f.cont ? NCONT : NCRV, "operation");
    const char* nm = doOp(x, op, other);
    c.step("%s: %s on the %s", f.what.c_str(), nm, onCopy ? "copy" : "original");
    if (onCopy) {
      vg = view(g);
      same(c, view(f), vf, "an operation on the copy changed the original");
    } else {
      vf = view(f);
      same(c, view(g), vg, "an operation on the original changed the copy");
    }
    c.observe(view(x)[5]);
  }
}
SCENARIO("C10", "C10.copies", mc::QUICK, "objects of every class x copy construction / assignment x all histories of 2 operations on either") { copies(c, 2); }
SCENARIO("C10", "C10.copies.deep", mc::THOROUGH, "the same with histories of 3 operations") { copies(c, 3); }

// ---------------------------------------------------------------- C11
static void linear(Ctx& c, int which) {
  static const std::vector<Way> ws = ways(true, true);
  const Way& w = c.pick(ws, "way of fitting");
  if (w.dim > 1 || w.how < 0) {
    c.check(true, "vector curves are compared with scalar ones, and default fits with explicit ones");
    return;
  }
  Case a = which == 2 ? genNear(c, 2) : which == 3 ? genScaled(c, 1) : genSmall(c, which == 1 ? 3 : 2, false);
  static const std::vector<std::pair<double, double>> f = {{2, 1}, {-1, 0.5}, {1, -3}, {1e3, 1}}, e = {{1e-6, 0}, {-1, 0}, {1e6, 0}, {1e-3, 1e-4}};
  auto q = c.pick(which >= 2 ? e : f, "factors");
  Case b = a, s = a;
  for (size_t i = 0; i < b.x.size(); i++) {
    b.x[i] = (double)((i * 3 + 1) % 4) - 1.5;
    s.x[i] = q.first * a.x[i] + q.second * b.x[i];
  }
  setBc(b, bcs()[6]);
  s.v0 = q.first * a.v0 + q.second * b.v0;
  s.vT = q.first * a.vT + q.second * b.vT;
  s.a0 = q.first * a.a0 + q.second * b.a0;
  s.aT = q.first * a.aT + q.second * b.aT;
  Fitted A = makeFit(w), B = makeFit(w), M = makeFit(w);
  c.step("%s: %g * (%s) + %g * (%s)", A.what.c_str(), q.first, a.str().c_str(), q.second, b.str().c_str());
  doFit(A, a);
  doFit(B, b);
  doFit(M, s);
  for (int i = 0; i < a.n(); i++)
    for (double u : {0.125, 0.5, 0.875})
      for (int d = 0; d < 3; d++) {
        double t = a.t[i] + u * (a.t[i + 1] - a.t[i]);
        double want = q.first * A.ev(d, 0, t) + q.second * B.ev(d, 0, t);
        double tol = std::fabs(q.first) * a.tol(d) + std::fabs(q.second) * b.tol(d) + s.tol(d);
        c.near(M.ev(d, 0, t), want, tol, "%s: derivative %d at %g is not linear in the data", A.what.c_str(), d, t);
      }
  c.observe(M.ev(0, 0, 0.5 * (a.t[0] + a.t[1])));
}
SCENARIO("C11", "C11.linear", mc::QUICK, "every way of fitting x data with up to 2 segments x a second data set x 4 pairs of factors") { linear(c, 0); }
SCENARIO("C11", "C11.linear.near", mc::BOTH, "every way of fitting x nearly equal data x 4 pairs of factors from 1e-6 to 1e6") { linear(c, 2); }
SCENARIO("C11", "C11.linear.scaled", mc::BOTH, "every way of fitting x one segment at scales of time and value x 4 pairs of factors from 1e-6 to 1e6") { linear(c, 3); }
SCENARIO("C11", "C11.linear.deep", mc::THOROUGH, "the same with up to 3 segments") { linear(c, 1); }
static void shifted(Ctx& c, int n) {
  static const std::vector<Way> ws = ways(true, true);
  const Way& w = c.pick(ws, "way of fitting");
  Case a = genSmall(c, n, false);
  double base = a.t[0];
  for (double& t : a.t) t -= base;
  Case b = a;
  double s = base == 0 ? -4096.0625 : base;
  for (double& t : b.t) t += s;
  Fitted A = makeFit(w), B = makeFit(w);
  c.step("%s on %s, shifted by %g", A.what.c_str(), a.str().c_str(), s);
  doFit(A, a);
  doFit(B, b);
  for (int j = 0; j < A.dims; j++) {
    Case q = A.comp(j);
    for (int i = -1; i <= a.n(); i++)
      for (double u : {0.0, 0.25, 0.5, 0.75}) {
        double t = i < 0 ? -1 + u : i == a.n() ? a.t[i] + u : a.t[i] + u * (a.t[i + 1] - a.t[i]);
        for (int d = 0; d < 3; d++)
          c.near(B.ev(d, j, t + s), A.ev(d, j, t), q.tol(d), "%s: derivative %d at %g changes when all times are shifted by %g: %s", A.what.c_str(), d, t, s, q.str().c_str());
      }
  }
  if (A.crv) {
    c.near(B.crv->minTime(), A.crv->minTime() + s, 1e-9, "minimum time after a shift");
    c.near(B.crv->maxTime(), A.crv->maxTime() + s, 1e-9, "maximum time after a shift");
  }
  c.observe(B.ev(0, 0, s + 0.5 * (a.t[0] + a.t[1])));
}
SCENARIO("C11", "C11.shift", mc::QUICK, "every way of fitting x data with up to 2 segments x 3 shifts of time x 4 times per segment and outside") { shifted(c, 2); }
SCENARIO("C11", "C11.shift.deep", mc::THOROUGH, "the same with up to 3 segments") { shifted(c, 3); }
SCENARIO("C11", "C11.shift.far", mc::BOTH, "every way of fitting x 6 data sets x 34 shifts of either sign between 1e-9 and 1e12, with and without fractions") {
  static const std::vector<Way> ws = ways(true, true);
  static const std::vector<double> S = {1e-9, 1e-6, 0.001, 0.1, 1.0 / 3, 0.5, 0.7, 1, 3.3, 17.3, 100, 255.9, 1000.1, 4096, 32767.7, 65536.1, 1e5 + 1.0 / 3, 1e6, 1e6 + 0.1, 16777217, 1e7 + 0.3, 123456789.123, 1e9, 1e9 + 0.1, 1.5e9 + 0.123,
                                        2147483647, 2147483648, 2147483649.5, 4294967295, 4294967296, 4294967297.25, 1e10, 1e11, 1e12};
  const Way& w = c.pick(ws, "way of fitting");
  Case a = c.pick(std::vector<Case>{cases()[0], cases()[1], cases()[2], cases()[3], related()[0], related()[2]}, "data");
  double s = c.pick(S, "shift") * (c.flip("to the past") ? -1 : 1);
  double base = a.t[0];
  for (double& t : a.t) t -= base;
  Case b = a;
  for (double& t : b.t) t += s;
  // what is shifted is what the rounded times say
  Fitted A = makeFit(w), B = makeFit(w);
  c.step("%s on %s, shifted by %.17g", A.what.c_str(), a.str().c_str(), s);
  doFit(A, a);
  doFit(B, b);
  c.check(A.ok && B.ok, "%s: refused", A.what.c_str());
  for (int j = 0; j < A.dims; j++) {
    Case q = B.comp(j);
    for (int i = -1; i <= a.n(); i++)
      for (double u : {0.0, 0.25, 0.5, 0.75}) {
        double t = i < 0 ? -1 + u : i == a.n() ? a.t[i] + u : a.t[i] + u * (a.t[i + 1] - a.t[i]);
        for (int d = 0; d < 3; d++) {
          // at a junction, rounding decides which piece is asked
          if (u == 0 && d >= (effectiveKind(A.order ? A.order : 5, a.n(), A.kind) >= 2 ? 3 : 1)) continue;
          if (i < 0 && u > 0.6 && d > 0) continue;
          c.near(B.ev(d, j, t + s), A.ev(d, j, t), q.tol(d), "%s: derivative %d at %g changes when all times are shifted by %.17g: %s", A.what.c_str(), d, t, s, q.str().c_str());
        }
      }
  }
  if (A.crv) {
    c.near(B.crv->minTime(), b.t.front(), 0, "minimum time after a shift");
    c.near(B.crv->maxTime(), b.t.back(), 4e-16 * std::fabs(b.t.back()) + 1e-9, "maximum time after a shift");
  }
}
static void vectors(Ctx& c, int which, bool rich) {
  static const std::vector<int> dims = {1, 3, 6};
  int dim = c.pick(dims, "dimension");
  int how = c.choose(3, "how") - 1;
  Case k = which == 0 ? genSmall(c, rich ? 4 : 2, rich) : which == 1 ? genScaled(c, 2) : genLong(c, rich, 12);
  Fitted V = makeFit({1, 5, dim, 3, how});
  c.step("%s on %s", V.what.c_str(), k.str().c_str());
  doFit(V, k);
  for (int j = 0; j < dim; j++) {
    Case q = V.comp(j);
    Fitted S = makeFit({1, 5, 0, 3, 0});
    doFit(S, q);
    c.check(V.crv->minTime() == S.crv->minTime() && V.crv->maxTime() == S.crv->maxTime(), "vector and scalar curves span %g..%g and %g..%g", V.crv->minTime(), V.crv->maxTime(),
            S.crv->minTime(), S.crv->maxTime());
    for (int i = -1; i <= k.n(); i++)
      for (double u : {0.0, 0.25, 0.625}) {
        double t = i < 0 ? k.t[0] - 1 + u : i == k.n() ? k.t[i] + u : k.t[i] + u * (k.t[i + 1] - k.t[i]);
        for (int d = 0; d < 3; d++)
          c.near(V.ev(d, j, t), S.ev(d, 0, t), q.tol(d), "%s: derivative %d of component %d at %g is not that of the scalar curve of its data: %s", V.what.c_str(), d, j, t,
                 q.str().c_str());
      }
    c.observe(V.ev(0, j, 0.5 * (k.t[0] + k.t[1])));
  }
}
SCENARIO("C11", "C11.components", mc::QUICK, "vector curves of dimension 1, 3, 6 x 3 overloads x data with up to 2 segments against one scalar curve per component") { vectors(c, 0, false); }
SCENARIO("C11", "C11.components.scaled", mc::BOTH, "the same at scales of time and value") { vectors(c, 1, false); }
SCENARIO("C11", "C11.components.long", mc::BOTH, "the same with 4..101 segments") { vectors(c, 2, false); }
SCENARIO("C11", "C11.components.deep", mc::THOROUGH, "the same with up to 4 segments") { vectors(c, 0, true); }
