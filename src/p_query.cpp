// C06, C08, C24: queries.
#include "gen.hpp"
#include <limits>
using mc::Ctx;
static const double INF = std::numeric_limits<double>::infinity();
static double ev(const Spl& s, int d, double t) { return d == 0 ? s.pos(t) : d == 1 ? s.vel(t) : s.acc(t); }
static double ev(const Cont& s, int d, double t) { return d == 0 ? s.pos(t) : d == 1 ? s.vel(t) : s.acc(t); }

// ---------------------------------------------------------------- C06
static void outside(Ctx& c, Fitted& f) {
  c.check(f.ok, "%s: fit refused valid data %s", f.what.c_str(), f.k.str().c_str());
  const Case& k = f.k;
  double T = k.T(), lo = k.t.front(), hi = k.t.back();
  double ulp = std::ldexp(std::max(std::fabs(lo), std::fabs(hi)), -50);
  if (f.crv) {
    c.check(f.crv->minTime() == lo, "%s: minimum time %.17g, first knot at %.17g", f.what.c_str(), f.crv->minTime(), lo);
    c.near(f.crv->maxTime(), hi, ulp + 1e-12 * T * k.n(), "%s: maximum time", f.what.c_str());
  } else {
    c.near(f.cont->duration(), T, ulp + 1e-12 * T * k.n(), "%s: duration", f.what.c_str());
  }
  const double before[] = {lo - 1e-3 * T, lo - T, lo - 1e3 * T - 1, -1e12, -1e300, -INF};
  const double after[] = {hi + 1e-3 * T, hi + T, hi + 1e3 * T + 1, 1e12, 1e300, INF};
  for (int j = 0; j < f.dims; j++) {
    Case q = f.comp(j);
    double J = (ulp / (k.t[1] - k.t[0]) + ulp / (k.t[k.n()] - k.t[k.n() - 1])) * 1e3;
    for (int d = 0; d < 3; d++) {
      double a = f.ev(d, j, lo), b = f.ev(d, j, hi), tol = q.tol(d) + J * q.scale(d);
      for (double t : before)
        c.near(f.ev(d, j, t), a, tol, "%s: derivative %d before the start (t=%g) is not that at the start, %s", f.what.c_str(), d, t, q.str().c_str());
      for (double t : after)
        c.near(f.ev(d, j, t), b, tol, "%s: derivative %d after the end (t=%g) is not that at the end, %s", f.what.c_str(), d, t, q.str().c_str());
      if (f.cont) {
        double e = d == 0 ? f.cont->endPos() : d == 1 ? f.cont->endVel() : f.cont->endAcc();
        c.near(e, b, tol, "%s: end value of derivative %d, %s", f.what.c_str(), d, q.str().c_str());
      }
      c.observe(b);
    }
  }
}
static void empty(Ctx& c, Fitted& f, const char* how) {
  for (double t : {0.0, 1.0, -1.0, 5.0, 1e300, -INF, INF})
    for (int d = 0; d < 3; d++)
      for (int j = 0; j < f.dims; j++) {
        double v;
        if (f.cont) v = ev(*f.cont, d, t);
        else {
          std::vector<double> x;
          bool ok = d == 0 ? f.crv->eval(x, t) : f.crv->evalD(x, t, d);
          c.check(ok, "%s %s: evaluation failed", how, f.what.c_str());
          v = x.at(j);
        }
        c.check(v == 0, "%s %s: derivative %d at %g is %g", how, f.what.c_str(), d, t, v);
      }
  if (f.cont) {
    c.check(f.cont->isEmpty() && f.cont->duration() == 0 && f.cont->time() == 0, "%s %s: not empty", how, f.what.c_str());
    c.check(f.cont->endPos() == 0 && f.cont->endVel() == 0 && f.cont->endAcc() == 0, "%s %s: end values", how, f.what.c_str());
    c.check(f.cont->pos() == 0 && f.cont->vel() == 0 && f.cont->acc() == 0, "%s %s: current values", how, f.what.c_str());
    double off = 0;
    c.check(f.cont->indexAt(0.5, off) == -1, "%s %s: has an active spline", how, f.what.c_str());
  } else
    c.check(f.crv->minTime() == 0 && f.crv->maxTime() == 0, "%s %s: spans %g..%g", how, f.what.c_str(), f.crv->minTime(), f.crv->maxTime());
}
static void fam6(Ctx& c, int which, bool rich) {
  static const std::vector<Way> ws = ways(true, true);
  const Way& w = c.pick(ws, "way of fitting");
  Case k = which == 0 ? genSmall(c, rich ? 4 : 2, rich) : which == 1 ? genScaled(c, rich ? 3 : 2) : genLong(c, rich, 12);
  Fitted f = makeFit(w);
  empty(c, f, "fresh");
  c.step("%s on %s", f.what.c_str(), k.str().c_str());
  doFit(f, k);
  outside(c, f);
  if (f.cont) f.cont->reset();
  else f.crv->clear();
  empty(c, f, "cleared");
}
SCENARIO("C06", "C06.small", mc::QUICK, "every way of fitting x data with up to 2 segments x 12 times outside of the domain, fresh and cleared objects") { fam6(c, 0, false); }
SCENARIO("C06", "C06.scaled", mc::QUICK, "the same at scales of time and value") { fam6(c, 1, false); }
SCENARIO("C06", "C06.long", mc::QUICK, "the same with 4..101 segments in patterns") { fam6(c, 2, false); }
SCENARIO("C06", "C06.small.deep", mc::THOROUGH, "up to 4 segments") { fam6(c, 0, true); }
SCENARIO("C06", "C06.scaled.deep", mc::THOROUGH, "up to 3 segments") { fam6(c, 1, true); }
SCENARIO("C06", "C06.long.deep", mc::THOROUGH, "up to 128 segments") { fam6(c, 2, true); }
static std::vector<double> coeffs(int order, int seed) {
  // Distinct, discontinuous pieces.
  std::vector<double> a;
  for (int i = 0; i <= order; i++) a.push_back(((seed * 7 + i * 5) % 11) - 5 + (i == order ? 16.0 * (seed % 13) : 0));
  return a;
}
//! Where playback stands must not matter for what does not depend on it.
static void playback(Ctx& c, Cont& s, double T) {
  switch (c.choose(6, "playback")) {
    case 1: s.setContainerTime(0.4 * T); break;
    case 2: s.advance(0.6 * T); break;
    case 3: s.setContainerTime(T); break;
    case 4: s.advance(T + 0.5); break;
    case 5: s.setContainerTime(T + 1.25); break;
    default: return;
  }
  c.step("playback to %g of %g", s.time(), T);
}
SCENARIO("C06", "C06.pieces", mc::BOTH, "orders 1..5 x containers of up to 4 discontinuous pieces x durations {.25,1,3} x 6 states of playback: ends and outside") {
  int order = 1 + c.choose(5, "order");
  int n = 1 + c.choose(4, "pieces");
  static const std::vector<double> D = {0.25, 1, 3};
  auto s = makeCont(order);
  std::vector<std::unique_ptr<Spl>> ref;
  double T = 0;
  for (int i = 0; i < n; i++) {
    double d = c.pick(D, "duration");
    c.step("addSpline %d of duration %g", i, d);
    s->addSpline(coeffs(order, i + 1), d, i % 2);
    ref.push_back(makeSpl(order));
    ref.back()->setCoeffs(coeffs(order, i + 1), d, 0);
    T += d;
  }
  playback(c, *s, T);
  c.check(s->duration() == T, "duration %g, not %g", s->duration(), T);
  for (int d = 0; d < 3; d++) {
    double a = ev(*ref[0], d, 0), b = ev(*ref[n - 1], d, ref[n - 1]->duration());
    for (double t : {-1e-9, -1.0, -1e300, -INF, 0.0}) c.near(ev(*s, d, t), a, 1e-9 * (1 + std::fabs(a)), "derivative %d at %g", d, t);
    for (double t : {T, T + 1e-9, T + 1, 1e300, INF}) c.near(ev(*s, d, t), b, 1e-9 * (1 + std::fabs(b)), "derivative %d at %g", d, t);
    double e = d == 0 ? s->endPos() : d == 1 ? s->endVel() : s->endAcc();
    c.near(e, b, 1e-9 * (1 + std::fabs(b)), "end value, derivative %d", d);
    c.observe(b);
  }
}

// ---------------------------------------------------------------- C08
static void lookup(Ctx& c, int nMax, const std::vector<double>& D, bool allOrders) {
  int order = allOrders ? 1 + c.choose(5, "order") : 3;
  int n = 1 + c.choose(nMax, "pieces");
  int how = c.choose(2, "pieces added or fitted");
  std::vector<double> d, off;
  double T = 0;
  for (int i = 0; i < n; i++) {
    d.push_back(c.pick(D, "duration"));
    off.push_back(T);
    T += d.back();
  }
  auto s = makeCont(order);
  c.step("container of order %d with %d pieces", order, n);
  if (how == 0)
    for (int i = 0; i < n; i++) s->addSpline(coeffs(order, i + 1), d[i], i % 2);
  else {
    std::vector<double> t(1, 0.0), x;
    for (int i = 0; i < n; i++) t.push_back(off[i] + d[i]);
    for (int i = 0; i <= n; i++) x.push_back((i * 7) % 5);
    c.check(s->setData(t, x, 1, 2), "fit refused");
  }
  c.check((int)s->nSplines() == n, "%zu pieces, not %d", s->nSplines(), n);
  c.check(s->duration() == T, "duration %.17g, sum of the pieces %.17g", s->duration(), T);
  c.check(s->checkContainer(), "checkContainer refuses a valid container");
  for (double t : {T, T / 2, 0.0}) {
    s->setContainerTime(t);
    c.check(s->checkContainer(), "checkContainer refuses a valid container at time %.17g of %.17g", t, T);
  }
  playback(c, *s, T);
  std::vector<std::pair<double, int>> probe;
  for (int i = 0; i < n; i++) {
    double e = std::ldexp(std::max(off[i] + d[i], 1.0), -48);
    probe.push_back({off[i], i});
    if (e < d[i]) probe.push_back({off[i] + e, i});
    probe.push_back({off[i] + d[i] / 2, i});
    if (e < d[i]) probe.push_back({off[i] + d[i] - e, i});
  }
  for (double t : {T, T + 1e-9, T * 2, 1e300, INF}) probe.push_back({t, n - 1});
  for (double t : {-1e-9, -1.0, -1e300, -INF}) probe.push_back({t, 0});
  for (auto& p : probe) {
    double o = 12345;
    int i = s->indexAt(p.first, o);
    c.check(i == p.second, "at t=%.17g piece %d is active, not %d (of %d)", p.first, i, p.second, n);
    c.check(o == off[p.second], "at t=%.17g the active piece begins at %.17g, not %.17g", p.first, o, off[p.second]);
    for (int k = 0; k < 3; k++) {
      double u = p.first - off[p.second];
      double w = k == 0 ? s->splPos(p.second, u) : k == 1 ? s->splVel(p.second, u) : s->splAcc(p.second, u);
      c.near(ev(*s, k, p.first), w, 1e-9 * (1 + std::fabs(w)), "derivative %d at t=%.17g is not that of piece %d", k, p.first, p.second);
    }
    c.observe(s->pos(p.first));
  }
}
SCENARIO("C08", "C08.small", mc::BOTH, "orders 1..5 x up to 4 pieces x durations {1,1/4,3,1/1024,2^-40} x 6 states of playback x 4 times per piece and 9 outside") {
  static const std::vector<double> D = {1, 0.25, 3, 1.0 / 1024, std::ldexp(1.0, -40)};
  lookup(c, 4, D, true);
}
SCENARIO("C08", "C08.many", mc::BOTH, "up to 9 pieces x durations {1/2,2}") {
  static const std::vector<double> D = {0.5, 2};
  lookup(c, 9, D, false);
}
SCENARIO("C08", "C08.deep", mc::THOROUGH, "orders 1..5 x up to 7 pieces x durations {1,1/4,6}") {
  static const std::vector<double> D = {1, 0.25, 6};
  lookup(c, 7, D, true);
}
SCENARIO("C08", "C08.long", mc::BOTH, "orders 1..5 x 10..2000 equal or alternating pieces, dyadic and decimal durations, probes in every piece and at its ends") {
  int order = 1 + c.choose(5, "order");
  static const std::vector<int> N = {10, 16, 17, 31, 33, 64, 65, 100, 127, 128, 129, 200, 300, 1025, 2000};
  static const std::vector<double> D = {1, 0.1, 0.0625, 7.3};
  int n = c.pick(N, "pieces");
  double d0 = c.pick(D, "duration");
  int alt = c.choose(2, "alternating");
  auto s = makeCont(order);
  double T = 0;
  std::vector<double> off, d;
  c.step("container of order %d with %d pieces", order, n);
  for (int i = 0; i < n; i++) {
    d.push_back(alt && i % 2 ? 3 * d0 : d0);
    off.push_back(T);
    T += d.back();
    s->addSpline(coeffs(order, i + 1), d.back(), false);
  }
  c.near(s->duration(), T, 1e-9 * T, "duration");
  for (int i = n - 1; i >= 0; i--) {
    for (double f : {0.001, 0.5, 0.999}) {
      double o = -1;
      double t = off[i] + f * d[i];
      int k = s->indexAt(t, o);
      c.check(k == i, "at t=%.17g piece %d is active, not %d", t, k, i);
      c.near(o, off[i], 1e-9 * T, "beginning of piece %d", i);
      double w = s->splPos(i, t - off[i]);
      c.near(s->pos(t), w, 1e-6 * (1 + std::fabs(w)), "position at %.17g is not that of piece %d", t, i);
    }
    if (d0 == 1 || d0 == 0.0625) {  // the ends of pieces are exact
      double o = -1;
      c.check(s->indexAt(off[i], o) == i && o == off[i], "at its start %.17g, piece %d is not active but %d, from %.17g", off[i], i, s->indexAt(off[i], o), o);
      double e = std::nextafter(off[i] + d[i], 0);
      c.check(s->indexAt(e, o) == i && o == off[i], "just before its end, at %.17g, piece %d is not active but %d", e, i, s->indexAt(e, o));
      c.near(s->pos(off[i]), s->splPos(i, 0), 1e-9 * (1 + std::fabs(s->splPos(i, 0))), "position at the start of piece %d", i);
    }
    c.observe(s->pos(off[i] + 0.5 * d[i]));
  }
  double o = -1;
  for (double t : {off[n - 1] + 2 * d[n - 1], 2 * T + 1, 1e300}) c.check(s->indexAt(t, o) == n - 1, "after the end, at %g, piece %d of %d is active", t, s->indexAt(t, o), n);
}

// ---------------------------------------------------------------- C24
// Queries must not influence each other: every sequence of queries, on two interleaved objects.
namespace {
struct Obj {
  std::unique_ptr<Cont> cont;
  std::unique_ptr<Crv> crv;
  std::vector<double> q(int kind, double t) const {
    std::vector<double> r;
    if (cont) {
      double o = 0;
      switch (kind) {
        case 0: r = {cont->pos(t)}; break;
        case 1: r = {cont->vel(t)}; break;
        case 2: r = {cont->acc(t)}; break;
        case 3: r = {(double)cont->indexAt(t, o), o}; break;
        default:
          r = {cont->endPos(), cont->endVel(), cont->endAcc(), cont->duration(), cont->time(), cont->pos(), cont->vel(), cont->acc(),
               (double)cont->index(), (double)cont->isEmpty(), (double)cont->checkContainer()};
      }
      return r;
    }
    bool ok = true;
    switch (kind) {
      case 0: ok = crv->eval(r, t); break;
      case 1: ok = crv->evalD(r, t, 1); break;
      case 2: ok = crv->evalD(r, t, 2); break;
      case 3: crv->evalD(r, t, 7); r.clear(); ok = false; break;  // asks for something that is not available
      default: r = {crv->minTime(), crv->maxTime()};
    }
    r.push_back(ok);
    return r;
  }
};
Obj build(const Way& w, int which) {
  Obj o;
  Case k;
  if (which == 0) {
    k.t = {0, 1, 1.5, 3.5};
    k.x = {0, 4, -1, 2};
  } else {
    k.t = {-0.5, 0.25, 2.25, 4, 4.5};
    k.x = {3, 3, -2, 0, 7};
  }
  setBc(k, bcs()[5 + which]);
  if (w.cls == 0) {
    o.cont = makeCont(w.order);
    fitCont(*o.cont, k, w.kind);
    if (which) o.cont->setContainerTime(1.75);
  } else {
    o.crv = makeCrv(w.order, w.dim);
    fitCrv(*o.crv, k, w.how);
  }
  return o;
}
void pure(Ctx& c, int len) {
  static const std::vector<Way> ws = [] {
    std::vector<Way> r;
    for (auto& w : ways(true, true))
      if (w.cls == 0 ? (w.kind == 3 && w.order >= 3) || (w.kind == 1 && w.order < 3) : w.how == 0 && (w.dim == 3 || (w.dim == 0 && w.order >= 3))) r.push_back(w);
    return r;
  }();
  static const std::vector<std::pair<int, double>> qs = {{0, 0.5}, {0, 1.5}, {0, 3.25}, {0, -1}, {0, 9}, {1, 1.25}, {2, 0.25}, {3, 2}, {4, 0}};
  static std::map<std::tuple<int, int, int>, std::vector<double>> memo;  // answers of fresh objects asked once
  int wi = c.choose((int)ws.size(), "object");
  Obj o[2] = {build(ws[wi], 0), build(ws[wi], 1)};
  for (int i = 0; i < len; i++) {
    int which = c.choose(2, "which object"), q = c.choose((int)qs.size(), "query");
    auto key = std::make_tuple(wi, which, q);
    auto it = memo.find(key);
    if (it == memo.end()) {
      Obj f = build(ws[wi], which);
      it = memo.insert({key, f.q(qs[q].first, qs[q].second)}).first;
    }
    c.step("%s, object %d, query %d at %g", wayName(ws[wi]).c_str(), which, qs[q].first, qs[q].second);
    auto got = o[which].q(qs[q].first, qs[q].second);
    c.check(got.size() == it->second.size(), "%s: query answers change", wayName(ws[wi]).c_str());
    for (size_t k = 0; k < got.size(); k++)
      c.near(got[k], it->second[k], 1e-9 * (1 + std::fabs(it->second[k])), "%s: the answer to query kind %d at %g depends on earlier queries", wayName(ws[wi]).c_str(),
             qs[q].first, qs[q].second);
    c.observe(got.empty() ? 0.0 : got[0]);
  }
}
}  // namespace
SCENARIO("C24", "C24.queries", mc::QUICK, "two objects of each of 9 kinds x all sequences of 4 of 9 queries on either") { pure(c, 4); }
SCENARIO("C24", "C24.queries.deep", mc::THOROUGH, "two objects of each of 9 kinds x all sequences of 5 of 9 queries on either") { pure(c, 5); }
SCENARIO("C24", "C24.times", mc::BOTH, "every kind of object x all sequences of 3 evaluations (position, velocity, acceleration) at 14 times: knots, interior, outside") {
  static const std::vector<Way> ws = ways(true, true);
  static const std::vector<double> T = {0, 0.25, 0.5, 1, 1.25, 1.5, 2, 3, 3.5, -1, 4, 1e9, 0.999999, 1.500001};
  int wi = c.choose((int)ws.size(), "object");
  Obj o = build(ws[wi], 0);
  for (int i = 0; i < 3; i++) {
    int d = c.choose(3, "derivative");
    double t = c.pick(T, "time");
    Obj f = build(ws[wi], 0);
    c.step("derivative %d at %g", d, t);
    auto a = o.q(d, t), b = f.q(d, t);
    for (size_t k = 0; k < a.size(); k++)
      c.near(a[k], b[k], 1e-9 * (1 + std::fabs(b[k])), "%s: derivative %d at %g depends on earlier queries", wayName(ws[wi]).c_str(), d, t);
    c.observe(a[0]);
  }
}
SCENARIO("C24", "C24.near", mc::BOTH, "every kind of object x an evaluation at 9 times x another one (all pairs of derivatives) next to it, at 20 distances from 1e-11 to 0.01, with and without one far away in between") {
  static const std::vector<Way> ws = ways(true, true);
  static const std::vector<double> T = {0, 0.3, 0.5, 1, 1.25, 1.5, 2.6, 3.5, 3.4999};
  static const std::vector<double> D = {1e-11, 1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 0.01};
  int wi = c.choose((int)ws.size(), "object");
  double t = c.pick(T, "time"), dt = c.pick(D, "distance");
  if (c.flip("earlier")) dt = -dt;
  int d1 = c.choose(3, "derivative"), d2 = c.choose(3, "next derivative");
  bool far = c.flip("another one in between");
  Obj o = build(ws[wi], 0), f = build(ws[wi], 0);
  c.step("%s: derivative %d at %g, then %d at a distance of %g", wayName(ws[wi]).c_str(), d1, t, d2, dt);
  o.q(d1, t);
  if (far) o.q(d1, t < 2 ? 3.1 : 0.1);
  auto a = o.q(d2, t + dt), b = f.q(d2, t + dt);
  for (size_t k = 0; k < a.size(); k++)
    c.near(a[k], b[k], 1e-13 * (1 + std::fabs(b[k])), "%s: derivative %d at %.15g depends on earlier queries", wayName(ws[wi]).c_str(), d2, t + dt);
  c.observe(a[0]);
}
