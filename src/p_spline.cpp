// C04, C05: single splines, and derivatives everywhere.
#include "gen.hpp"
using mc::Ctx;

static double S(double pos, double v, double a, double tf) {
  return std::max(1e-9, std::max(std::fabs(pos), std::max(std::fabs(v) * tf, std::fabs(a) * tf * tf)));
}
static double optScale(const Opt& o) {
  return std::max(S(o.pos0, o.vel0, o.acc0, o.tf), S(o.posT, o.velT, o.accT, o.tf));
}
static std::string str(const Opt& o) {
  return mc::fmt("tf=%g pos0=%g posT=%g vel0=%g velT=%g acc0=%g accT=%g", o.tf, o.pos0, o.posT, o.vel0, o.velT, o.acc0, o.accT);
}
//! What each order promises: linear both positions; quadratic + initial velocity; cubic + both velocities;
//! quartic + initial acceleration; quintic everything.
template <typename F>
static void boundary(Ctx& c, int order, const Opt& o, F at, const char* what, bool start = true, bool end = true, double rel = 1e-9) {
  double s = optScale(o) * rel;
  double T = o.tf;
  if (start) {
    c.near(at(0, 0.0), o.pos0, s, "%s order %d (%s): initial position", what, order, str(o).c_str());
    if (order >= 2) c.near(at(1, 0.0), o.vel0, s / T, "%s order %d (%s): initial velocity", what, order, str(o).c_str());
    if (order >= 4) c.near(at(2, 0.0), o.acc0, s / T / T, "%s order %d (%s): initial acceleration", what, order, str(o).c_str());
  }
  if (end) {
    c.near(at(0, T), o.posT, s, "%s order %d (%s): final position", what, order, str(o).c_str());
    if (order >= 3) c.near(at(1, T), o.velT, s / T, "%s order %d (%s): final velocity", what, order, str(o).c_str());
    if (order >= 5) c.near(at(2, T), o.accT, s / T / T, "%s order %d (%s): final acceleration", what, order, str(o).c_str());
  }
}
static double ev(const Spl& s, int d, double t) { return d == 0 ? s.pos(t) : d == 1 ? s.vel(t) : s.acc(t); }
static double ev(const Cont& s, int d, double t) { return d == 0 ? s.pos(t) : d == 1 ? s.vel(t) : s.acc(t); }
static double ev(const Crv& s, int d, double t) {
  std::vector<double> v;
  bool ok = d == 0 ? s.eval(v, t) : s.evalD(v, t, d);
  if (!ok) throw mc::Violation{mc::fmt("evaluation of derivative %d at %g failed", d, t)};
  return v.at(0);
}

static void single(Ctx& c, const std::vector<double>& tfs, const std::vector<double>& vals, double scale) {
  int order = 1 + c.choose(5, "order");
  double tf = c.pick(tfs, "tf");
  int how = c.choose(4, "how");
  double g = scale, v = g / tf, a = v / tf;
  Opt o;
  o.tf = tf;
  o.pos0 = g * c.pick(vals, "pos0");
  o.posT = g * c.pick(vals, "posT");
  o.vel0 = v * c.pick(vals, "vel0");
  o.velT = v * c.pick(vals, "velT");
  o.acc0 = a * c.pick(vals, "acc0");
  o.accT = a * c.pick(vals, "accT");
  auto s = makeSpl(order);
  for (int again = 0; again < 2; again++) {
    if (again) s->setCoeffs(std::vector<double>(order + 1, 3.5), 17.0, 0);  // what was there before must not matter
    c.step("order %d way %d: %s", order, how, str(o).c_str());
    c.check(s->compute(o, how), "computing a spline of order %d for %s failed", order, str(o).c_str());
    c.check(s->duration() == tf, "order %d way %d: duration is %g, not %g", order, how, s->duration(), tf);
    boundary(c, order, o, [&](int d, double t) { return ev(*s, d, t); }, "spline");
  }
  c.observe(s->pos(tf * 0.37));
}
SCENARIO("C04", "C04.unit", mc::BOTH,
         "orders 1..5 x 4 ways of computing x durations {1,.5,2,1/16,8,1e-3,100} x all boundary values from {0,1,-2}, fresh and used splines") {
  static const std::vector<double> tf = {1, 0.5, 2, 0.0625, 8, 1e-3, 100}, v = {0, 1, -2};
  single(c, tf, v, 1);
}
SCENARIO("C04", "C04.scaled", mc::BOTH, "orders 1..5 x 4 ways x durations {.1,3,25} x value scales {1e-6,1e3,1e6} x boundary values {0,1,-1}") {
  static const std::vector<double> tf = {0.1, 3, 25}, v = {0, 1, -1}, g = {1e-6, 1e3, 1e6};
  double s = c.pick(g, "scale");
  single(c, tf, v, s);
}
SCENARIO("C04", "C04.deep", mc::THOROUGH, "as unit with 9 durations from 1e-3 to 1e3 and boundary values {0,1,-2,0.3}") {
  static const std::vector<double> tf = {1, 0.25, 3, 1e-3, 0.02, 12, 60, 333, 1000}, v = {0, 1, -2, 0.3};
  single(c, tf, v, 1);
}

SCENARIO("C04", "C04.durations", mc::BOTH, "orders 1..5 x 4 ways x durations 10^k, k = -9..9, times {1, 3.7} x boundary values {0,-1.3}") {
  static const std::vector<double> v = {0, -1.3}, m = {1, 3.7};
  int k = c.choose(19, "exponent") - 9;
  single(c, {std::pow(10.0, k) * c.pick(m, "mantissa")}, v, 1);
}
//! One spline object computed for two or three descriptions in a row that have much in common.
static void again(Ctx& c, int len) {
  static const std::vector<Opt> o = [] {
    std::vector<Opt> r;
    Opt b{2, 1, -2, 0.5, -1, 2, 3};
    r.push_back(b);
    Opt x = b; x.tf = 1; r.push_back(x);
    x = b; x.tf = 2.0000001; r.push_back(x);
    x = b; x.tf = 2 + 1e-13; r.push_back(x);
    x = b; x.pos0 = -1; r.push_back(x);
    x = b; x.posT = 0; r.push_back(x);
    x = b; x.vel0 = 0; r.push_back(x);
    x = b; x.velT = 1; r.push_back(x);
    x = b; x.acc0 = -2; r.push_back(x);
    x = b; x.accT = 0; r.push_back(x);
    x = b; x.pos0 += 5; x.posT += 5; r.push_back(x);
    r.push_back({2, 0, 0, 0, 0, 0, 0});
    r.push_back({2, -1, 2, -0.5, 1, -2, -3});
    r.push_back({2, -2, 1, -1, 0.5, 3, 2});
    return r;
  }();
  int order = 1 + c.choose(5, "order");
  auto s = makeSpl(order);
  for (int i = 0; i < len; i++) {
    const Opt& x = c.pick(o, "description");
    int how = c.choose(4, "how");
    bool ask = i + 1 < len && c.flip("evaluated");
    c.step("order %d way %d: %s", order, how, str(x).c_str());
    c.check(s->compute(x, how), "computing a spline of order %d for %s failed", order, str(x).c_str());
    if (ask) c.observe(s->pos(x.tf / 2) + s->vel(0) + s->acc(x.tf));
    if (i + 1 < len) continue;
    c.check(s->duration() == x.tf, "order %d way %d: duration is %g, not %g", order, how, s->duration(), x.tf);
    boundary(c, order, x, [&](int d, double t) { return ev(*s, d, t); }, "used spline");
    auto f = makeSpl(order);
    f->compute(x, how);
    c.check(f->coeffs() == s->coeffs(), "order %d way %d: the coefficients for %s depend on what was computed before", order, how, str(x).c_str());
  }
}
SCENARIO("C04", "C04.again", mc::BOTH, "orders 1..5 x one spline computed for all pairs of 14 similar descriptions x 4 ways each") { again(c, 2); }
SCENARIO("C04", "C04.again.deep", mc::THOROUGH, "the same with all triples") { again(c, 3); }

static const std::vector<Opt>& opts() {
  static const std::vector<Opt> o = {
      {1, 0, 0, 0, 0, 0, 0},     {2, 1, -2, 0.5, -1, 2, 3},   {0.5, -2, 1, -1, 0, 0, 1}, {4, 0, 10, 0, 0, 0, 0},
      {0.25, 5, 5, 1, 1, -1, 2}, {1, -3, 0, 0, 2, -3, 0.5},
  };
  return o;
}
//! Lists of options make a curve whose k-th piece meets the k-th options.
static void chain(Ctx& c, int maxLen) {
  int order = 1 + c.choose(5, "order");
  int way = c.choose(2, "curve or container");
  int n = c.choose(maxLen + 1, "length");
  static const std::vector<double> units = {1, std::ldexp(1.0, -33), 32768};  // powers of two: sums of durations are exact
  double u = n ? c.pick(units, "unit of time") : 1;
  bool before = c.flip("fitted before");
  std::vector<Opt> l;
  double sc = 1e-9, lo = 1e300;
  for (int i = 0; i < n; i++) {
    Opt o = c.pick(opts(), "options");
    o.tf *= u;
    o.vel0 /= u;
    o.velT /= u;
    o.acc0 /= u * u;
    o.accT /= u * u;
    l.push_back(o);
    sc = std::max(sc, optScale(l.back()));
    lo = std::min(lo, l.back().tf);
  }
  std::unique_ptr<Crv> k;
  std::unique_ptr<Cont> s;
  c.step("order %d, %s of %d options", order, way ? "container" : "curve", n);
  if (way == 0) {
    k = makeCrv(order, 0);
    if (before) k->fit(std::vector<double>{-3, 4, 5}, {{1}, {2}, {3}});  // replaced by what follows
    k->fit(l);
  } else {
    s = makeCont(order);
    if (before) {
      s->setData({-3, 4, 5}, {1, 2, 3});
      s->reset();
    }
    for (auto& o : l) c.check(s->addSpline(o), "addSpline failed");
  }
  auto at = [&](int d, double t) { return k ? ev(*k, d, t) : ev(*s, d, t); };
  double off = 0;
  for (int i = 0; i < n; i++) {
    double h = l[i].tf * std::ldexp(1.0, -32);
    boundary(c, order, l[i], [&](int d, double t) { return at(d, off + t - (t > 0 && i + 1 < n ? h : 0)); },
             way ? "container piece" : "curve piece", true, true, 1e-7);
    auto ref = makeSpl(order);
    ref->compute(l[i], 0);
    for (double f : {0.125, 0.5, 0.875})
      for (int d = 0; d < 3; d++)
        c.near(at(d, off + f * l[i].tf), ev(*ref, d, f * l[i].tf), 1e-7 * sc / std::pow(lo, d),
               "piece %d of order %d (%s) is not the spline of its options, derivative %d", i, order, str(l[i]).c_str(), d);
    off += l[i].tf;
    c.observe(at(0, off));
  }
  double dur = k ? k->maxTime() - k->minTime() : s->duration();
  c.near(dur, off, 1e-9 * off, "total duration of %d pieces", n);
  if (k) c.check(k->minTime() == 0, "a curve made of options starts at %g", k->minTime());
}
SCENARIO("C04", "C04.chain", mc::BOTH, "orders 1..5 x scalar curve from options / container.addSpline x all lists of up to 4 out of 6 options, in 3 units of time, on fresh and used objects") {
  chain(c, 4);
}

// ---------------------------------------------------------------- C05
static long double poly(const std::vector<double>& a, int d, double t) {  // a = [an .. a0]
  long double r = 0;
  int n = (int)a.size() - 1;
  for (int i = d; i <= n; i++) {
    long double f = a[n - i];
    for (int k = 0; k < d; k++) f *= (i - k);
    r += f * powl((long double)t, i - d);
  }
  return r;
}
static double polyMag(const std::vector<double>& a, int d, double t) {
  std::vector<double> b = a;
  for (double& x : b) x = std::fabs(x);
  return std::max(1e-12, (double)poly(b, d, std::fabs(t)));
}
SCENARIO("C05", "C05.spline", mc::BOTH,
         "orders 1..5 x all coefficient vectors over {0,1,-2} x 4 ways of setting them x 9 ways of copying (also onto used splines) x durations (also 0) x times inside and outside, fresh and used splines") {
  static const std::vector<double> v = {0, 1, -2}, D = {1, 0.5, 3, 0.125, 0, 1e7};
  int order = 1 + c.choose(5, "order");
  int how = c.choose(4, "how set");
  int cp = c.choose(10, "copied");
  double T = c.pick(D, "duration");
  std::vector<double> a;
  for (int i = 0; i <= order; i++) a.push_back(c.pick(v, "coefficient"));
  auto s = makeSpl(order);
  int before = cp ? 0 : c.choose(3, "used before");
  c.step("order %d, setting way %d, copy way %d", order, how, cp);
  if (before) s->setCoeffs(before == 1 ? std::vector<double>(order + 1, 7.25) : a, before == 1 ? T : 2 * T + 1, 0);
  s->setCoeffs(a, T, how);
  std::unique_ptr<Spl> owner;
  Spl* p = s.get();
  if (cp) {
    owner = s->copy(cp - 1);
    p = owner.get();
  }
  c.check(p->coeffs() == a, "coefficients changed on the way in (order %d, way %d, copy %d)", order, how, cp);
  c.check(p->duration() == T, "duration changed on the way in");
  for (double t : {0.0, 0.25 * T, 0.3 * T, 0.75 * T, T, -0.5 * T, -1e9, 1.5 * T, 1e9}) {
    double u = std::max(0.0, std::min(t, T));
    for (int d = 0; d < 3; d++)
      c.near(ev(*p, d, t), (double)poly(a, d, u), 1e-9 * polyMag(a, d, u), "order %d: derivative %d at %g (duration %g)", order, d, t, T);
  }
  c.observe(p->vel(0.3 * T));
}
SCENARIO("C05", "C05.mixed", mc::BOTH, "orders 1..5 x coefficient patterns of mixed magnitude x durations 1e-9..1e7 x 25 times") {
  static const std::vector<double> D = {1e-9, 1e-3, 0.1, 1, 7, 50, 1000, 1e7};
  int order = 1 + c.choose(5, "order");
  double T = c.pick(D, "duration");
  int pat = c.choose(order + 1 + 6, "pattern");
  std::vector<double> a(order + 1, 0.0);
  if (pat <= order) a[pat] = -1.7;
  else
    for (int i = 0; i <= order; i++) {
      int q = pat - order - 1;
      static const double w[6][6] = {{1, 2, 3, 4, 5, 6},       {-1, 0.5, -0.25, 8, -16, 32}, {1e-6, 1e3, -1e-3, 1e6, 1, -1e-9},
                                     {0, 0, 7, 0, -7, 1},      {3, -3, 3, -3, 3, -3},        {1e5, -1e-5, 0.1, 0.2, 0.3, 100}};
      a[i] = w[q][i];
    }
  auto s = makeSpl(order);
  c.step("order %d pattern %d duration %g", order, pat, T);
  s->setCoeffs(a, T, 0);
  for (int i = -4; i <= 20; i++) {
    double t = T * i / 16.0, u = std::max(0.0, std::min(t, T));
    for (int d = 0; d < 3; d++)
      c.near(ev(*s, d, t), (double)poly(a, d, u), 1e-9 * polyMag(a, d, u), "order %d: derivative %d at %g of %g", order, d, t, T);
  }
  c.observe(s->acc(0.3 * T));
}
SCENARIO("C05", "C05.timevectors", mc::BOTH,
         "orders 1..5 x every time-vector function (0th..2nd derivative, at t and at zero, get and add, every kind of argument) x times x previous contents") {
  static const std::vector<double> T = {0, 1, 0.5, -2, 3, 0.1, 100, -1e-3, 1e7, -1e7, 1e-9}, I = {0, -7, 1e3};
  int order = 1 + c.choose(5, "order");
  int d = c.choose(3, "derivative");
  bool z = c.flip("at zero");
  auto s = makeSpl(order);
  int v = c.choose(s->variants(d, z), "variant");
  double t = z ? 0 : c.pick(T, "t"), init = c.pick(I, "previous contents");
  std::vector<double> out;
  bool add = false;
  const char* name = "";
  c.step("order %d derivative %d at %g", order, d, t);
  s->timeVector(d, z, v, t, init, out, &add, &name);
  c.check((int)out.size() == order + 1, "order %d derivative %d %s %s: wrote outside of the row", order, d, z ? "at zero" : "", name);
  for (int i = 0; i <= order; i++) {
    std::vector<double> e(order + 1, 0.0);
    e[i] = 1;
    double want = (double)poly(e, d, t) + (add ? init : 0);
    c.near(out[i], want, 1e-9 * (std::fabs(want) + (add ? std::fabs(init) : 0)) + 1e-300, "order %d, derivative %d of the time vector%s at %g, %s: entry %d",
           order, d, z ? " at zero" : "", t, name, i);
  }
  c.observe(out[0]);
}

//! Derivatives of what a fitted object shows as its position, by exact interpolation of a polynomial of degree <= 5.
static void derivs(Ctx& c, const Fitted& f) {
  c.check(f.ok, "%s: fit refused valid data %s", f.what.c_str(), f.k.str().c_str());
  for (int j = 0; j < f.dims; j++) {
    Case q = f.comp(j);
    for (int i = 0; i < q.n(); i++) {
      double D = q.t[i + 1] - q.t[i];
      long double X[7], P[7], N[7];
      double mag = 0;
      for (int k = 0; k < 7; k++) {
        double u = q.t[i] + D * (0.03125 + 0.15625 * k);
        double p = f.ev(0, j, u);
        P[k] = N[k] = p;
        X[k] = ((long double)u - q.t[i]) / D;
        mag = std::max(mag, std::fabs(p));
      }
      // Rounding of t - t0 moves the argument by up to ulp(t)/D of the interval.
      double jit = std::ldexp(std::max(std::fabs(q.t[i + 1]), std::fabs(q.t[0])), -52) / D;
      double tol = q.scale(0) * 1e-9 + mag * (1e-10 + 1e4 * jit);
      for (int a = 1; a < 7; a++)
        for (int b = 6; b >= a; b--) N[b] = (N[b] - N[b - 1]) / (X[b] - X[b - a]);
      (void)P;
      for (double w : {0.03125, 0.3, 0.5, 0.65625, 0.96875}) {
        double u = q.t[i] + D * w;
        long double x = ((long double)u - q.t[i]) / D, p0 = N[6], p1 = 0, p2 = 0;
        for (int a = 5; a >= 0; a--) {
          p2 = p2 * (x - X[a]) + 2 * p1;
          p1 = p1 * (x - X[a]) + p0;
          p0 = p0 * (x - X[a]) + N[a];
        }
        c.near(f.ev(0, j, u), (double)p0, tol, "%s: position at %g of %s is not a polynomial on its segment", f.what.c_str(), u, q.str().c_str());
        c.near(f.ev(1, j, u), (double)p1 / D, 100 * tol / D, "%s: velocity at %g is not the derivative of the position, %s", f.what.c_str(), u, q.str().c_str());
        c.near(f.ev(2, j, u), (double)p2 / D / D, 1000 * tol / D / D, "%s: acceleration at %g is not the second derivative of the position, %s",
               f.what.c_str(), u, q.str().c_str());
      }
      c.observe(f.ev(1, j, q.t[i] + 0.5 * D));
    }
  }
  if (f.crv)
    for (unsigned d : {0u, 3u, 4u, 5u, 6u, 100u, 255u, 256u, 257u, 258u, 65537u, 65538u, 0x80000001u, 0x80000002u, 0xfffffffeu, 0xffffffffu}) {
      std::vector<double> v;
      c.check(!f.crv->evalD(v, 0.5 * (f.k.t[0] + f.k.t[1]), d), "%s: derivative of order %u is not available but reported as evaluated", f.what.c_str(), d);
    }
}
static void fam(Ctx& c, int which, bool rich) {
  static const std::vector<Way> ws = ways(true, true);
  const Way& w = c.pick(ws, "way of fitting");
  Case k = which == 0 ? genSmall(c, rich ? 4 : 2, rich) : which == 1 ? genScaled(c, rich ? 3 : 2) : which == 3 ? genNear(c, rich ? 3 : 2) : genLong(c, rich, 16);
  Fitted f = makeFit(w);
  c.step("%s on %s", f.what.c_str(), k.str().c_str());
  doFit(f, k);
  derivs(c, f);
}
SCENARIO("C05", "C05.fit.small", mc::QUICK, "every way of fitting x all data with up to 2 segments over small alphabets x 5 times per segment") { fam(c, 0, false); }
SCENARIO("C05", "C05.fit.scaled", mc::QUICK, "every way of fitting x scales of time and value, up to 2 segments") { fam(c, 1, false); }
SCENARIO("C05", "C05.fit.long", mc::QUICK, "every way of fitting x 4..101 segments in patterns") { fam(c, 2, false); }
SCENARIO("C05", "C05.fit.near", mc::QUICK, "every way of fitting x up to 2 segments with nearly equal durations and values") { fam(c, 3, false); }
SCENARIO("C05", "C05.fit.near.deep", mc::THOROUGH, "every way of fitting x up to 3 segments with nearly equal durations and values") { fam(c, 3, true); }
SCENARIO("C05", "C05.fit.small.deep", mc::THOROUGH, "as small with up to 4 segments") { fam(c, 0, true); }
SCENARIO("C05", "C05.fit.scaled.deep", mc::THOROUGH, "as scaled with up to 3 segments") { fam(c, 1, true); }
SCENARIO("C05", "C05.fit.long.deep", mc::THOROUGH, "as long with up to 128 segments") { fam(c, 2, true); }
