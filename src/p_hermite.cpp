// C19, C20, C21: cubic Hermite curves for positions and poses, sampling policies.
#include "mc.hpp"
#include <curves/CubicHermiteE3Curve.hpp>
#include <curves/CubicHermiteSE3Curve.hpp>
#include <curves/SlerpSE3Curve.hpp>
#include <fstream>
#include <set>
#include <sstream>
#include <unistd.h>
using mc::Ctx;
typedef long double L;
typedef std::array<L, 3> V3;
typedef Eigen::Vector3d E3;
static V3 v3(const E3& v) { return {v[0], v[1], v[2]}; }
static V3 operator+(const V3& a, const V3& b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
static V3 operator-(const V3& a, const V3& b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static V3 operator*(L f, const V3& a) { return {f * a[0], f * a[1], f * a[2]}; }
static L nrm(const V3& a) { return sqrtl(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); }

// ---------------------------------------------------------------- reference: positions
struct Knot3 {
  double t;
  V3 p, v;
};
//! Hermite interpolation in the form of Newton's divided differences (not the basis functions of the code).
static void hermite(const V3& pa, const V3& va, const V3& pb, const V3& vb, L h, L s, V3& p, V3& v, V3& a) {
  V3 m = (1 / h) * (pb - pa);
  V3 c2 = (1 / h) * (3 * m - 2 * va - vb);
  V3 c3 = (1 / (h * h)) * (va + vb - 2 * m);
  p = pa + s * (va + s * (c2 + s * c3));
  v = va + s * (2 * c2 + (3 * s) * c3);
  a = 2 * c2 + (6 * s) * c3;
}
static int segment(const std::vector<double>& t, double x) {
  int i = 0;
  while (i + 2 < (int)t.size() && x >= t[i + 1]) i++;
  return i;
}

// ---------------------------------------------------------------- C19
struct Fit3 {
  std::vector<double> t;
  std::vector<E3> x;
  E3 v0 = E3::Zero(), v1 = E3::Zero();
  int kind = 0;  // 0 fitCurve, 1 with derivatives, 2 periodic
};
static std::vector<V3> slopes(const Fit3& f) {
  int n = (int)f.t.size();
  std::vector<V3> v(n, V3{0, 0, 0});
  for (int i = 1; i + 1 < n; i++) v[i] = (1 / ((L)f.t[i + 1] - f.t[i - 1])) * (v3(f.x[i + 1]) - v3(f.x[i - 1]));
  if (n && f.kind == 1) {
    v[0] = v3(f.v0);
    if (n > 1) v[n - 1] = v3(f.v1);
  }
  if (f.kind == 2) v[0] = v[n - 1] = (1 / ((L)f.t[1] - f.t[0] + ((L)f.t[n - 1] - f.t[n - 2]))) * (v3(f.x[1]) - v3(f.x[n - 2]));
  return v;
}
static void apply(curves::CubicHermiteE3Curve& c, const Fit3& f, std::vector<curves::Key>* k) {
  if (f.kind == 0) c.fitCurve(f.t, f.x, k);
  else if (f.kind == 1) c.fitCurveWithDerivatives(f.t, f.x, f.v0, f.v1, k);
  else c.fitPeriodicCurve(f.t, f.x, k);
}
static void near3(Ctx& c, const E3& got, const V3& want, double tol, const char* what, double t) {
  for (int d = 0; d < 3; d++) c.near(got[d], (double)want[d], tol, "%s at %.17g, component %d", what, t, d);
}
static void check3(Ctx& c, const curves::CubicHermiteE3Curve& cv, const Fit3& f, const std::vector<double>& fr) {
  int n = (int)f.t.size();
  c.check(cv.size() == n, "size is %d for %d knots", cv.size(), n);
  c.check(cv.isEmpty() == (n == 0), "isEmpty is wrong for %d knots", n);
  E3 x(9, 9, 9);
  if (n == 0) {
    for (double t : {-1.0, 0.0, 1.0, 2.5}) {
      c.check(!cv.evaluate(x, t), "an empty curve evaluates at %g", t);
      for (unsigned d : {1u, 2u}) c.check(!cv.evaluateDerivative(x, t, d), "an empty curve has a derivative at %g", t);
    }
    return;
  }
  c.check(cv.getMinTime() == f.t[0] && cv.getMaxTime() == f.t[n - 1], "time range [%.17g, %.17g], expected [%.17g, %.17g]", cv.getMinTime(), cv.getMaxTime(), f.t[0], f.t[n - 1]);
  for (double d : {0.0, 1e-10, 1e-7, 1e-3, 1.0, 1e3, std::numeric_limits<double>::infinity()}) {
    for (double t : {std::min(f.t[0] - d, std::nextafter(f.t[0], -1e300)), std::max(f.t[n - 1] + d, std::nextafter(f.t[n - 1], 1e300))}) {
      c.check(!cv.evaluate(x, t), "evaluates at %.17g, outside of its time range", t);
      for (unsigned o : {1u, 2u}) c.check(!cv.evaluateDerivative(x, t, o), "has a derivative at %.17g, outside of its time range", t);
    }
  }
  std::vector<V3> v = slopes(f);
  if (n == 1) {
    c.check(cv.evaluate(x, f.t[0]), "a single knot does not evaluate");
    near3(c, x, v3(f.x[0]), 1e-12 * (1 + nrm(v3(f.x[0]))), "position of a single knot", f.t[0]);
    c.check(cv.evaluateDerivative(x, f.t[0], 1), "a single knot has no velocity");
    near3(c, x, v[0], 1e-12 * (1 + nrm(v[0])), "velocity of a single knot", f.t[0]);
    return;
  }
  std::vector<double> q = f.t;
  for (int i = 0; i + 1 < n; i++)
    for (double a : fr) {
      double t = f.t[i] + a * (f.t[i + 1] - f.t[i]);
      if (t > f.t[i] && t < f.t[i + 1]) q.push_back(t);
    }
  for (int i = 0; i < n; i++) {
    if (i) q.push_back(std::nextafter(f.t[i], -1e300));
    if (i + 1 < n) q.push_back(std::nextafter(f.t[i], 1e300));
  }
  double tm = std::max(std::fabs(f.t[0]), std::fabs(f.t[n - 1]));
  for (double t : q) {
    int i = segment(f.t, t);
    L h = (L)f.t[i + 1] - f.t[i];
    V3 p, vel, acc;
    hermite(v3(f.x[i]), v[i], v3(f.x[i + 1]), v[i + 1], h, (L)t - f.t[i], p, vel, acc);
    // rounding of the times and of the values, through the steepest polynomial of the segment
    L big = nrm(v3(f.x[i])) + nrm(v3(f.x[i + 1])) + h * (nrm(v[i]) + nrm(v[i + 1]));
    double u = 4e-15 + 4e-16 * tm / (double)h;
    E3 g;
    c.check(cv.evaluate(g, t), "does not evaluate at %.17g, inside of its time range", t);
    near3(c, g, p, 50 * u * (double)big, "position", t);
    c.check(cv.evaluateDerivative(g, t, 1), "no velocity at %.17g", t);
    near3(c, g, vel, 200 * u * (double)(big / h), "velocity", t);
    c.check(cv.evaluateDerivative(g, t, 2), "no acceleration at %.17g", t);
    bool atKnot = i > 0 && t == f.t[i];  // the acceleration jumps; either side will do
    V3 acc0 = acc;
    if (atKnot) {
      V3 a, b;
      L h0 = (L)f.t[i] - f.t[i - 1];
      hermite(v3(f.x[i - 1]), v[i - 1], v3(f.x[i]), v[i], h0, h0, a, b, acc0);
    }
    double ta = 400 * u * (double)(big / h / h);
    if (atKnot && std::fabs(g[0] - (double)acc[0]) + std::fabs(g[1] - (double)acc[1]) + std::fabs(g[2] - (double)acc[2]) > 3 * ta) near3(c, g, acc0, ta * 100, "acceleration", t);
    else near3(c, g, acc, ta, "acceleration", t);
    E3 g2;
    c.check(cv.evaluateLinearAcceleration(g2, t), "no linear acceleration at %.17g", t);
    near3(c, g2, v3(g), ta, "evaluateLinearAcceleration, compared to the second derivative,", t);
  }
  c.observe(mc::mix(mc::bits(q.size()), mc::bits((double)v[n - 1][0])));
}
static const std::vector<E3>& places() {
  static const std::vector<E3> v = {E3(0, 0, 0), E3(1, -2, 0.5), E3(-3, 0.25, 7), E3(2, 2, 2)};
  return v;
}
static const std::vector<E3>& speeds() {
  static const std::vector<E3> v = {E3(0, 0, 0), E3(1, 0, -2), E3(-0.5, 3, 0.25)};
  return v;
}
static const std::vector<double> FR = {1e-9, 0.125, 0.25, 0.5, 0.7, 0.875, 1 - 1e-9};
static Fit3 choose3(Ctx& c, int maxN, const std::vector<double>& dur, const std::vector<double>& start, int nPlaces) {
  Fit3 f;
  int n = c.choose(maxN + 1, "knots");
  f.kind = c.choose(n >= 2 ? 3 : 2, "kind of fit");
  double t = n ? c.pick(start, "start") : 0;
  for (int i = 0; i < n; i++) {
    if (i) t += c.pick(dur, "duration");
    f.t.push_back(t);
    if (i == n - 1 && f.kind == 2) f.x.push_back(f.x[0]);
    else f.x.push_back(places()[c.choose(nPlaces, "place")]);
  }
  if (f.kind == 1) {
    f.v0 = c.pick(speeds(), "initial velocity");
    f.v1 = c.pick(speeds(), "final velocity");
  }
  return f;
}
static void fitAndCheck3(Ctx& c, const Fit3& f) {
  curves::CubicHermiteE3Curve cv;
  std::vector<curves::Key> k;
  c.step("fit (kind %d) to %zu knots from %g", f.kind, f.t.size(), f.t.empty() ? 0 : f.t[0]);
  apply(cv, f, &k);
  std::set<curves::Key> ks(k.begin(), k.end());
  c.check(ks.size() == k.size() && k.size() >= f.t.size(), "%zu keys, %zu different ones, for %zu knots", k.size(), ks.size(), f.t.size());
  check3(c, cv, f, FR);
}
SCENARIO("C19", "C19.fit", mc::BOTH, "0-4 knots x durations {0.25, 3} x start {-1.5, 0, 2} x 3 places x 3 kinds of fit x 9 pairs of end velocities; position, velocity, acceleration at knots, next to knots and at 7 places in between, and outside") {
  fitAndCheck3(c, choose3(c, 4, {0.25, 3}, {-1.5, 0, 2}, 3));
}
SCENARIO("C19", "C19.scale", mc::BOTH, "2-3 knots x durations 1e-3..1e3 x starts up to 1e6 x values scaled by 1e-6, 1, 1e6") {
  Fit3 f = choose3(c, 3, {1e-3, 0.1, 1, 1e3}, {0, 1e3, -1e6}, 2);
  double s = c.pick<double>({1e-6, 1, 1e6}, "scale");
  for (auto& x : f.x) x *= s;
  f.v0 *= s;
  f.v1 *= s;
  fitAndCheck3(c, f);
}
SCENARIO("C19", "C19.many", mc::BOTH, "2..64, 100, 257 and 1000 knots x 3 patterns of durations x 3 kinds of fit") {
  Fit3 f;
  int n = c.choose(66, "number of knots") + 2;
  n = n == 65 ? 100 : n == 66 ? 257 : n == 67 ? 1000 : n;
  int pat = c.choose(3, "durations");
  f.kind = c.choose(3, "kind of fit");
  double t = 0.5;
  for (int i = 0; i < n; i++) {
    if (i) t += pat == 0 ? 1 : pat == 1 ? 0.25 + (i % 7) * 0.5 : 1.0 / (1 + i % 3);
    f.t.push_back(t);
    f.x.push_back(E3((i * 7) % 11, i % 2 ? -3 : 4, (i * i) % 13 * 0.5));
  }
  if (f.kind == 2) f.x[n - 1] = f.x[0];
  f.v0 = speeds()[1];
  f.v1 = speeds()[2];
  fitAndCheck3(c, f);
}
SCENARIO("C19", "C19.deep", mc::THOROUGH, "0-5 knots x durations {0.25, 1, 3} x 3 places x 3 kinds of fit x 9 pairs of end velocities") {
  fitAndCheck3(c, choose3(c, 5, {0.25, 1, 3}, {-1.5}, 3));
}
static const std::vector<Fit3>& fits3() {
  static const std::vector<Fit3> v = [] {
    std::vector<Fit3> r;
    Fit3 f;
    f.t = {0, 1, 1.5, 3};
    f.x = {places()[1], places()[2], places()[0], places()[3]};
    r.push_back(f);
    f.t = {-1, 0.5};
    f.x = {places()[2], places()[1]};
    f.kind = 1;
    f.v0 = speeds()[1];
    f.v1 = speeds()[2];
    r.push_back(f);
    f.t = {0.5, 1, 1.25, 5, 6};
    f.x = {places()[3], places()[1], places()[1], places()[2], places()[3]};
    f.kind = 2;
    r.push_back(f);
    f.t = {1};
    f.x = {places()[2]};
    f.kind = 1;
    r.push_back(f);
    f.t.clear();
    f.x.clear();
    f.kind = 0;
    r.push_back(f);
    return r;
  }();
  return v;
}
static void history3(Ctx& c, int depth) {
  int n = c.choose(depth, "length") + 1;
  auto cv = std::make_shared<curves::CubicHermiteE3Curve>();
  std::shared_ptr<curves::CubicHermiteE3Curve> other;
  Fit3 cur, was;
  for (int i = 0; i < n; i++) {
    int op = c.choose((int)fits3().size() + 4, "operation");
    if (op < (int)fits3().size()) {
      cur = fits3()[op];
      c.step("fit data %d", op);
      apply(*cv, cur, nullptr);
    } else if (op == (int)fits3().size()) {
      c.step("clear");
      cv->clear();
      cur = Fit3();
    } else if (op == (int)fits3().size() + 1) {
      c.step("continue with a copy");
      other = cv;
      was = cur;
      cv = std::make_shared<curves::CubicHermiteE3Curve>(*other);
    } else if (op == (int)fits3().size() + 2) {
      c.step("continue with an assigned copy");
      other = cv;
      was = cur;
      cv = std::make_shared<curves::CubicHermiteE3Curve>();
      apply(*cv, fits3()[i % 2], nullptr);
      *cv = *other;
    } else {
      E3 x;
      c.step("queries");
      cv->evaluate(x, 0.75);
      cv->evaluateDerivative(x, 1.25, 1);
      cv->evaluateDerivative(x, 1.25, 2);
      cv->evaluate(x, 100);
    }
  }
  check3(c, *cv, cur, FR);
  if (other) check3(c, *other, was, FR);
}
SCENARIO("C19", "C19.history", mc::QUICK, "all sequences of up to 4 of 9 operations: 5 fits, clear, copy, assign, queries; the curve (and the original of a copy) is that of the last fit") { history3(c, 4); }
SCENARIO("C19", "C19.history.deep", mc::THOROUGH, "all sequences of up to 5 operations") { history3(c, 5); }

//! Fits of a family: number of knots, where they lie, values, kind; ends often coincide.
static std::vector<std::array<int, 4>> family() {
  std::vector<std::array<int, 4>> r;
  for (int n = 0; n <= 5; n++)
    for (int tp = 0; tp < (n > 2 ? 3 : n ? 2 : 1); tp++)
      for (int xp = 0; xp < (n ? 2 : 1); xp++)
        for (int kind = 0; kind < (n > 1 ? 3 : 2); kind++) r.push_back({n, tp, xp, kind});
  return r;
}
static std::vector<double> familyTimes(int n, int tp) {
  std::vector<double> t;
  for (int i = 0; i < n; i++) t.push_back(n == 1 ? tp * 3 : tp == 1 ? 3.0 * i * i / ((n - 1) * (n - 1)) : tp == 2 ? 3 - 3.0 * (n - 1 - i) * (n - 1 - i) / ((n - 1) * (n - 1)) : 3.0 * i / (n - 1));
  return t;
}
SCENARIO("C19", "C19.refit", mc::BOTH, "all pairs of 76 fits (0-5 knots x 3 spacings of the same range x 2 sets of values x kind of fit): the second one replaces the first") {
  static const auto fam = family();
  curves::CubicHermiteE3Curve cv;
  Fit3 f;
  for (int k = 0; k < 2; k++) {
    auto q = c.pick(fam, "fit");
    f = Fit3();
    f.kind = q[3];
    f.t = familyTimes(q[0], q[1]);
    for (int i = 0; i < q[0]; i++) f.x.push_back(places()[(q[2] ? 3 - i : i) & 3]);
    if (f.kind == 2) f.x.back() = f.x[0];
    f.v0 = speeds()[1 + q[2]];
    f.v1 = speeds()[2 - q[2]];
    c.step("fit of kind %d to %d knots, spacing %d, values %d", q[3], q[0], q[1], q[2]);
    apply(cv, f, nullptr);
  }
  check3(c, cv, f, {0.25, 0.5, 0.8});
}

// ---------------------------------------------------------------- reference: rotations
struct Q {
  L w, x, y, z;
};
static Q operator*(const Q& a, const Q& b) {
  return {a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z, a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y, a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x,
          a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w};
}
static Q inv(const Q& a) { return {a.w, -a.x, -a.y, -a.z}; }
static Q expq(const V3& v) {
  L a = nrm(v), s = a < 1e-10L ? 0.5L - a * a / 48 : sinl(a / 2) / a;
  return {cosl(a / 2), s * v[0], s * v[1], s * v[2]};
}
//! Shorter way; margin: how far from the choice between two shortest ways.
static V3 logq(const Q& q, L* margin = nullptr) {
  L w = q.w;
  V3 v = {q.x, q.y, q.z};
  if (margin) *margin = fabsl(w);
  if (w < 0) {
    w = -w;
    v = -1 * v;
  }
  L n = nrm(v);
  if (n < 1e-15L) return 2 * v;
  return (2 * atan2l(n, w) / n) * v;
}
static V3 rot(const Q& q, const V3& v) {
  Q r = q * Q{0, v[0], v[1], v[2]} * inv(q);
  return {r.x, r.y, r.z};
}
struct Pose {
  V3 p;
  Q q;
};
typedef curves::CubicHermiteSE3Curve H6;
typedef H6::ValueType T6;
typedef H6::DerivativeType D6;
static Pose pose(const T6& t) {
  Pose r;
  r.p = v3(t.getPosition().vector());
  r.q = {t.getRotation().w(), t.getRotation().x(), t.getRotation().y(), t.getRotation().z()};
  L n = sqrtl(r.q.w * r.q.w + r.q.x * r.q.x + r.q.y * r.q.y + r.q.z * r.q.z);
  r.q = {r.q.w / n, r.q.x / n, r.q.y / n, r.q.z / n};
  return r;
}
struct K6 {
  double t;
  Pose x;
  V3 v, w;  // linear and angular velocity, both in the world frame
};
struct Ref6 {
  std::vector<K6> k;
};
static T6 tf(const E3& p, const E3& rv, bool negative = false) {
  Q q = expq(v3(rv));
  double s = negative ? -1 : 1;
  return T6(T6::Position(p), T6::Rotation(s * (double)q.w, s * (double)q.x, s * (double)q.y, s * (double)q.z));
}
static double qdist(const Q& a, const Q& b) {
  L d = fabsl(a.w * b.w + a.x * b.x + a.y * b.y + a.z * b.z);
  (void)d;
  return (double)(2 * nrm(V3{(inv(a) * b).x, (inv(a) * b).y, (inv(a) * b).z}));
}
static void slope6(double ta, double tb, const Pose& a, const Pose& b, V3& v, V3& w, L& margin) {
  L d = (L)tb - ta, m;
  v = (1 / d) * (b.p - a.p);
  w = (1 / d) * logq(b.q * inv(a.q), &m);
  margin = std::min(margin, m);
}
struct Fit6 {
  std::vector<double> t;
  std::vector<T6> x;
  D6 v0, v1;
  int kind = 0;
};
static Ref6 ref6(const Fit6& f, L& margin) {
  Ref6 r;
  margin = 1;
  int n = (int)f.t.size();
  for (int i = 0; i < n; i++) r.k.push_back({f.t[i], pose(f.x[i]), V3{0, 0, 0}, V3{0, 0, 0}});
  for (int i = 1; i + 1 < n; i++) slope6(f.t[i - 1], f.t[i + 1], r.k[i - 1].x, r.k[i + 1].x, r.k[i].v, r.k[i].w, margin);
  if (n && f.kind == 1) {
    r.k[0].v = v3(f.v0.getTranslationalVelocity().vector());
    r.k[0].w = v3(f.v0.getRotationalVelocity().vector());
    if (n > 1) {
      r.k[n - 1].v = v3(f.v1.getTranslationalVelocity().vector());
      r.k[n - 1].w = v3(f.v1.getRotationalVelocity().vector());
    }
  }
  if (f.kind == 2) {
    slope6(f.t[n - 2] - (f.t[n - 1] - f.t[0]), f.t[1], r.k[n - 2].x, r.k[1].x, r.k[0].v, r.k[0].w, margin);
    r.k[n - 1].v = r.k[0].v;
    r.k[n - 1].w = r.k[0].w;
  }
  return r;
}
//! Pose, velocities and acceleration of the reference; false if a rotation by 180 degrees makes the way ambiguous.
static bool eval6(const Ref6& r, double t, Pose& x, V3& v, V3& w, V3& acc, L& big, L& h) {
  int n = (int)r.k.size(), i = 0;
  while (i + 2 < n && t >= r.k[i + 1].t) i++;
  const K6 &a = r.k[i], &b = r.k[i + 1];
  h = (L)b.t - a.t;
  L s = (L)t - a.t, al = s / h;
  hermite(a.x.p, a.v, b.x.p, b.v, h, s, x.p, v, acc);
  big = nrm(a.x.p) + nrm(b.x.p) + h * (nrm(a.v) + nrm(b.v));
  V3 w1 = (h / 3) * rot(inv(a.x.q), a.w), w3 = (h / 3) * rot(inv(b.x.q), b.w);
  L margin;
  V3 w2 = logq(expq(-1 * w1) * inv(a.x.q) * b.x.q * expq(-1 * w3), &margin);
  L b1 = 1 - (1 - al) * (1 - al) * (1 - al), b2 = al * al * (3 - 2 * al), b3 = al * al * al;
  L d1 = 3 * (1 - al) * (1 - al) / h, d2 = 6 * al * (1 - al) / h, d3 = 3 * al * al / h;
  Q q1 = a.x.q * expq(b1 * w1), q2 = q1 * expq(b2 * w2);
  x.q = q2 * expq(b3 * w3);
  w = d1 * rot(a.x.q, w1) + d2 * rot(q1, w2) + d3 * rot(x.q, w3);
  return margin > 1e-6L;
}
static void apply(H6& c, const Fit6& f, std::vector<curves::Key>* k) {
  if (f.kind == 0) c.fitCurve(f.t, f.x, k);
  else if (f.kind == 1) c.fitCurveWithDerivatives(f.t, f.x, f.v0, f.v1, k);
  else c.fitPeriodicCurve(f.t, f.x, k);
}
static void unit(Ctx& c, const T6& x, double t) { c.near(x.getRotation().norm(), 1, 1e-12, "length of the rotation quaternion at %.17g", t); }
static void samePose(Ctx& c, const T6& g, const Pose& want, double tp, double tq, const char* what, double t) {
  near3(c, g.getPosition().vector(), want.p, tp, what, t);
  unit(c, g, t);
  c.near(qdist(pose(g).q, want.q), 0, tq, "%s: rotation at %.17g is off by this angle", what, t);
}
//! The curve against knots with known velocities (n >= 1).
static void check6(Ctx& c, const H6& cv0, const Ref6& r, L margin, const std::vector<double>& fr) {
  H6& cv = const_cast<H6&>(cv0);
  int n = (int)r.k.size();
  c.check(cv.size() == n, "size is %d for %d knots", cv.size(), n);
  c.check(cv.isEmpty() == (n == 0), "isEmpty is wrong for %d knots", n);
  std::vector<curves::Time> times = {9, 9};
  cv.getCurveTimes(&times);
  c.check((int)times.size() == n, "%zu times for %d knots", times.size(), n);
  for (int i = 0; i < n; i++) c.check(times[i] == r.k[i].t, "time %d is %.17g, expected %.17g", i, times[i], r.k[i].t);
  T6 x;
  D6 d;
  kindr::Acceleration3D a;
  if (n == 0) {
    for (double t : {-1.0, 0.0, 1.0, 2.5}) {
      c.check(!cv.evaluate(x, t), "an empty curve evaluates at %g", t);
      c.check(!cv.evaluateDerivative(d, t, 1), "an empty curve has a velocity at %g", t);
    }
    return;
  }
  double lo = r.k[0].t, hi = r.k[n - 1].t;
  c.check(cv.getMinTime() == lo && cv.getMaxTime() == hi, "time range [%.17g, %.17g], expected [%.17g, %.17g]", cv.getMinTime(), cv.getMaxTime(), lo, hi);
  for (double e : {0.0, 1e-10, 1e-7, 1e-3, 1.0, 1e3, std::numeric_limits<double>::infinity()})
    for (double t : {std::min(lo - e, std::nextafter(lo, -1e300)), std::max(hi + e, std::nextafter(hi, 1e300))}) {
      c.check(!cv.evaluate(x, t), "evaluates at %.17g, outside of its time range", t);
      c.check(!cv.evaluateDerivative(d, t, 1), "has a velocity at %.17g, outside of its time range", t);
      c.check(!cv.evaluateLinearAcceleration(a, t), "has an acceleration at %.17g, outside of its time range", t);
    }
  if (n == 1) {
    c.check(cv.evaluate(x, lo), "a single knot does not evaluate");
    samePose(c, x, r.k[0].x, 1e-12, 1e-12, "pose of a single knot", lo);
    c.check(cv.evaluateDerivative(d, lo, 1), "a single knot has no velocity");
    near3(c, d.getTranslationalVelocity().vector(), r.k[0].v, 1e-12, "velocity of a single knot", lo);
    near3(c, d.getRotationalVelocity().vector(), r.k[0].w, 1e-12, "angular velocity of a single knot", lo);
    return;
  }
  std::vector<double> q;
  for (int i = 0; i < n; i++) q.push_back(r.k[i].t);
  for (int i = 0; i + 1 < n; i++)
    for (double f : fr) {
      double t = r.k[i].t + f * (r.k[i + 1].t - r.k[i].t);
      if (t > r.k[i].t && t < r.k[i + 1].t) q.push_back(t);
    }
  for (int i = 0; i < n; i++) {
    if (i) q.push_back(std::nextafter(r.k[i].t, -1e300));
    if (i + 1 < n) q.push_back(std::nextafter(r.k[i].t, 1e300));
  }
  double tm = std::max(std::fabs(lo), std::fabs(hi));
  for (size_t j = 0; j < q.size(); j++) {
    double t = q[j];
    Pose want;
    V3 v, w, acc;
    L big, h;
    bool sure = eval6(r, t, want, v, w, acc, big, h) && margin > 1e-6L;
    double u = 4e-15 + 4e-16 * tm / (double)h, tr = 1e-10 + 2000 * u;
    c.check(cv.evaluate(x, t), "does not evaluate at %.17g, inside of its time range", t);
    unit(c, x, t);
    near3(c, x.getPosition().vector(), want.p, 50 * u * (double)big, "position", t);
    c.check(cv.evaluateDerivative(d, t, 1), "no velocity at %.17g", t);
    near3(c, d.getTranslationalVelocity().vector(), v, 200 * u * (double)(big / h), "velocity", t);
    if ((int)j < n) samePose(c, x, r.k[j].x, 50 * u * (double)big, 1e-9, "pose of a knot", t);
    if (sure) {
      c.near(qdist(pose(x).q, want.q), 0, tr, "rotation at %.17g is off by this angle", t);
      near3(c, d.getRotationalVelocity().vector(), w, (tr * 10) * (1 + 6.3 / (double)h), "angular velocity", t);
    }
    c.check(cv.evaluateLinearAcceleration(a, t), "no acceleration at %.17g", t);
    bool atKnot = false;
    for (int i = 1; i + 1 < n; i++) atKnot = atKnot || t == r.k[i].t;
    if (!atKnot) near3(c, a.vector(), acc, 400 * u * (double)(big / h / h), "acceleration", t);
  }
}
static const std::vector<E3>& turns() {
  static const std::vector<E3> v = {E3(0, 0, 0), E3(0, 0, M_PI / 2), 2 * M_PI / 3 * E3(1, 1, 1).normalized(), E3(0, 3.1, 0), E3(1e-7, 0, -2e-7), E3(-0.4, 0.1, 0), E3(0, -M_PI, 0)};
  return v;
}
static const std::vector<D6>& twists() {
  static const std::vector<D6> v = {D6(), D6(E3(1, 0, -2), E3(0.5, -1, 0.25)), D6(E3(-0.5, 3, 0.25), E3(0, 0, -2))};
  return v;
}
static Fit6 choose6(Ctx& c, int minN, int maxN, const std::vector<double>& dur, const std::vector<double>& start, int nTurns, bool signs) {
  Fit6 f;
  int n = minN + c.choose(maxN - minN + 1, "knots");
  f.kind = c.choose(n >= 2 ? 3 : 2, "kind of fit");
  double t = n ? c.pick(start, "start") : 0;
  for (int i = 0; i < n; i++) {
    if (i) t += c.pick(dur, "duration");
    f.t.push_back(t);
    if (i == n - 1 && f.kind == 2) f.x.push_back(f.x[0]);
    else {
      int k = c.choose(nTurns, "rotation");
      f.x.push_back(tf(places()[(i * 2 + k) % 4], turns()[k], signs && c.flip("sign of the quaternion")));
    }
  }
  if (f.kind == 1) {
    f.v0 = c.pick(twists(), "initial velocity");
    f.v1 = c.pick(twists(), "final velocity");
  }
  return f;
}
static void fitAndCheck6(Ctx& c, const Fit6& f) {
  H6 cv;
  std::vector<curves::Key> k;
  c.step("fit (kind %d) to %zu poses from %g", f.kind, f.t.size(), f.t.empty() ? 0 : f.t[0]);
  apply(cv, f, &k);
  std::set<curves::Key> ks(k.begin(), k.end());
  c.check(ks.size() == k.size() && k.size() >= f.t.size(), "%zu keys, %zu different ones, for %zu knots", k.size(), ks.size(), f.t.size());
  L m;
  Ref6 r = ref6(f, m);
  check6(c, cv, r, m, FR);
  c.observe((double)f.t.size() + 0.01 * f.kind);
}
SCENARIO("C20", "C20.fit", mc::BOTH, "0-3 poses of 7 rotations (none, 90, 120, 177.6, 180 degrees, tiny, oblique) x durations {0.5, 2} x 3 kinds of fit x 9 pairs of end velocities; pose, velocities, acceleration at knots, next to knots and at 7 places in between, and outside") {
  fitAndCheck6(c, choose6(c, 0, 3, {0.5, 2}, {-1}, 7, false));
}
SCENARIO("C20", "C20.signs", mc::BOTH, "2-3 poses of 4 rotations, each with both signs of its quaternion") { fitAndCheck6(c, choose6(c, 2, 3, {1}, {0}, 4, true)); }
SCENARIO("C20", "C20.four", mc::BOTH, "4 poses of 4 rotations x durations {0.5, 2}") { fitAndCheck6(c, choose6(c, 4, 4, {0.5, 2}, {-1}, 3, false)); }
SCENARIO("C20", "C20.five", mc::THOROUGH, "5 poses of 5 rotations x durations {0.5, 2}") { fitAndCheck6(c, choose6(c, 5, 5, {0.5, 2}, {3}, 4, false)); }
SCENARIO("C20", "C20.many", mc::BOTH, "2..40, 100, 257 and 600 poses x 3 kinds of fit") {
  Fit6 f;
  int n = c.choose(42, "number of knots") + 2;
  n = n == 41 ? 100 : n == 42 ? 257 : n == 43 ? 600 : n;
  f.kind = c.choose(3, "kind of fit");
  double t = 0.5;
  for (int i = 0; i < n; i++) {
    if (i) t += 0.25 + (i % 5) * 0.5;
    f.t.push_back(t);
    f.x.push_back(tf(E3((i * 7) % 11, i % 2 ? -3 : 4, (i * i) % 13 * 0.5), turns()[i % 6]));
  }
  if (f.kind == 2) f.x[n - 1] = f.x[0];
  f.v0 = twists()[1];
  f.v1 = twists()[2];
  fitAndCheck6(c, f);
}
SCENARIO("C20", "C20.moved", mc::BOTH, "2-3 poses of 6 rotations x 4 rigid motions of the world frame: the moved knots give the moved curve") {
  Fit6 f = choose6(c, 2, 3, {0.75}, {0}, 6, false), g = f;
  int k = c.choose(4, "motion");
  T6 T = tf(places()[1 + k % 3], k == 0 ? E3(0, 0, 0) : k == 1 ? E3(0.3, -0.2, 1) : k == 2 ? E3(0, 0, 3) : E3(-2, 1, 0));
  for (auto& x : g.x) x = T * x;
  auto mv = [&](const D6& d) { return D6(T.getRotation().rotate(d.getTranslationalVelocity().vector()), T.getRotation().rotate(d.getRotationalVelocity().vector())); };
  g.v0 = mv(f.v0);
  g.v1 = mv(f.v1);
  L m, m2;
  Ref6 r = ref6(f, m);
  ref6(g, m2);
  H6 a, b;
  c.step("fit both");
  apply(a, f, nullptr);
  apply(b, g, nullptr);
  for (size_t i = 0; i + 1 < f.t.size(); i++)
    for (double fr : {0.0, 0.125, 0.5, 0.8, 1.0}) {
      double t = f.t[i] + fr * (f.t[i + 1] - f.t[i]);
      Pose dummy;
      V3 v, w, ac;
      L big, h;
      if (!(eval6(r, t, dummy, v, w, ac, big, h) && m > 1e-6L && m2 > 1e-6L)) continue;
      T6 x, y;
      D6 dx, dy;
      c.check(a.evaluate(x, t) && b.evaluate(y, t) && a.evaluateDerivative(dx, t, 1) && b.evaluateDerivative(dy, t, 1), "does not evaluate at %.17g", t);
      T6 z = T * x;
      samePose(c, y, pose(z), 1e-11, 1e-9, "pose of the moved curve", t);
      D6 e = mv(dx);
      near3(c, dy.getTranslationalVelocity().vector(), v3(e.getTranslationalVelocity().vector()), 1e-10, "velocity of the moved curve", t);
      near3(c, dy.getRotationalVelocity().vector(), v3(e.getRotationalVelocity().vector()), 1e-8, "angular velocity of the moved curve", t);
    }
}
static std::string scratch() {
  const char* e = getenv("MC_SCRATCH");
  return e ? e : "/tmp";
}
static const std::vector<Fit6>& fits6() {
  static const std::vector<Fit6> v = [] {
    std::vector<Fit6> r;
    Fit6 f;
    f.t = {0, 1, 1.5, 3};
    for (int i = 0; i < 4; i++) f.x.push_back(tf(places()[i], turns()[i]));
    r.push_back(f);
    f.t = {-1, 1.0 / 3};
    f.x = {tf(places()[2], turns()[5]), tf(places()[1], turns()[2])};
    f.kind = 1;
    f.v0 = twists()[1];
    f.v1 = twists()[2];
    r.push_back(f);
    f.t = {0.5, 1, 1.25, 5, 6};
    f.x = {tf(places()[3], turns()[1]), tf(places()[1], turns()[0]), tf(places()[1], turns()[5]), tf(places()[2], turns()[2]), tf(places()[3], turns()[1])};
    f.kind = 2;
    r.push_back(f);
    f.t = {1};
    f.x = {tf(places()[2], turns()[2])};
    f.kind = 1;
    r.push_back(f);
    r.push_back(Fit6());
    return r;
  }();
  return v;
}
static void history6(Ctx& c, int depth) {
  int n = c.choose(depth, "length") + 1, F = (int)fits6().size();
  auto cv = std::make_shared<H6>();
  std::shared_ptr<H6> other;
  Fit6 cur, was;
  for (int i = 0; i < n; i++) {
    int op = c.choose(F + 4, "operation");
    if (op < F) {
      cur = fits6()[op];
      c.step("fit data %d", op);
      apply(*cv, cur, nullptr);
    } else if (op == F) {
      c.step("clear");
      cv->clear();
      cur = Fit6();
    } else if (op == F + 1) {
      c.step("continue with a copy");
      other = cv;
      was = cur;
      cv = std::make_shared<H6>(*other);
    } else if (op == F + 2) {
      c.step("continue with an assigned copy");
      other = cv;
      was = cur;
      cv = std::make_shared<H6>();
      apply(*cv, fits6()[i % 2], nullptr);
      *cv = *other;
    } else {
      T6 x;
      D6 d;
      c.step("queries");
      cv->evaluate(x, 0.75);
      cv->evaluateDerivative(d, 1.25, 1);
      cv->evaluate(x, 100);
    }
  }
  L m;
  Ref6 r = ref6(cur, m);
  check6(c, *cv, r, m, FR);
  if (other) {
    Ref6 s = ref6(was, m);
    check6(c, *other, s, m, FR);
  }
}
SCENARIO("C20", "C20.history", mc::QUICK, "all sequences of up to 4 of 9 operations: 5 fits, clear, copy, assign, queries; the curve (and the original of a copy) is that of the last fit") { history6(c, 4); }
SCENARIO("C20", "C20.history.deep", mc::THOROUGH, "all sequences of up to 5 operations") { history6(c, 5); }
SCENARIO("C20", "C20.refit", mc::BOTH, "all pairs of 76 fits (0-5 poses x 3 spacings of the same range x 2 sets of poses x kind of fit): the second one replaces the first") {
  static const auto fam = family();
  H6 cv;
  Fit6 f;
  for (int k = 0; k < 2; k++) {
    auto q = c.pick(fam, "fit");
    f = Fit6();
    f.kind = q[3];
    f.t = familyTimes(q[0], q[1]);
    for (int i = 0; i < q[0]; i++) f.x.push_back(tf(places()[(q[2] ? 3 - i : i) & 3], turns()[(q[2] ? i + 1 : 5 - i) % 6]));
    if (f.kind == 2) f.x.back() = f.x[0];
    f.v0 = twists()[1 + q[2]];
    f.v1 = twists()[2 - q[2]];
    c.step("fit of kind %d to %d poses, spacing %d, values %d", q[3], q[0], q[1], q[2]);
    apply(cv, f, nullptr);
  }
  L m;
  Ref6 r = ref6(f, m);
  check6(c, cv, r, m, {0.25, 0.5, 0.8});
}
SCENARIO("C20", "C20.scale", mc::BOTH, "2-3 poses x durations 1e-3..1e3 x starts up to 1e6 x positions scaled by 1e-6, 1, 1e6 x rotations scaled by 0, 1e-6, 1e-3, 1 x 3 kinds of fit") {
  Fit6 f;
  int n = 2 + c.choose(2, "knots-2");
  f.kind = c.choose(3, "kind of fit");
  double t = c.pick<double>({0, 1e3, -1e6}, "start"), s = c.pick<double>({1e-6, 1, 1e6}, "scale of positions"), a = c.pick<double>({0, 1e-6, 1e-3, 1}, "scale of rotations");
  for (int i = 0; i < n; i++) {
    if (i) t += c.pick<double>({1e-3, 0.1, 7, 61, 1e3}, "duration");
    f.t.push_back(t);
    f.x.push_back(tf(s * places()[i + 1], a * turns()[(2 * i + 1) % 6]));
  }
  if (f.kind == 2) f.x.back() = f.x[0];
  f.v0 = D6(E3(s * E3(1, 0, -2)), E3(a * E3(0.5, -1, 0.25)));
  f.v1 = D6(E3(s * E3(-0.5, 3, 0.25)), E3(a * E3(0, 0, -2)));
  fitAndCheck6(c, f);
}
static std::vector<std::vector<double>> readBack(Ctx& c, const std::string& f) {
  std::vector<std::vector<double>> r;
  std::ifstream is(f);
  c.check(is.good(), "the file was not written");
  std::string line;
  while (std::getline(is, line)) {
    if (line.empty()) continue;
    std::vector<double> row;
    std::istringstream ls(line);
    std::string x;
    while (std::getline(ls, x, ',')) row.push_back(strtod(x.c_str(), nullptr));
    r.push_back(row);
  }
  return r;
}
SCENARIO("C20", "C20.saved", mc::BOTH, "5 curves, and 8 with up to 1000 knots and quaternions of either sign, x saving at the knots, at lists of up to 3 of 6 times, inside and outside of the range") {
  int k = c.choose((int)fits6().size() + 8, "curve");
  Fit6 f;
  if (k < (int)fits6().size()) f = fits6()[k];
  else {
    static const int N[8] = {2, 3, 17, 99, 101, 128, 257, 1000};
    int n = N[k - fits6().size()];
    for (int i = 0; i < n; i++) {
      f.t.push_back(0.25 + i * 0.75);
      f.x.push_back(tf(places()[i % 4], turns()[(i * 5 + 2) % 6], i % 3 == 1));
    }
  }
  H6 cv;
  apply(cv, f, nullptr);
  std::string file = mc::fmt("%s/hermite-%d.csv", scratch().c_str(), (int)getpid());
  std::vector<double> t;
  bool knots = c.flip("at given times") == false;
  bool inside = true;
  if (knots) {
    t = f.t;
    if (t.empty()) return;  // no rows: the CSV writer refuses them
  } else {
    int n = 1 + c.choose(3, "number of times");
    for (int i = 0; i < n; i++) {
      t.push_back(c.pick<double>({0.3, 1, 1.0 / 3, 2.75, -0.5, 7}, "time"));
      bool in = !f.t.empty() && t.back() >= f.t.front() && t.back() <= f.t.back();
      inside = inside && in;
    }
  }
  c.step("save %zu rows", t.size());
  if (!inside) {
    mc::Fate e = mc::inChild([&] { cv.saveCurveAtTimes(file, t); });
    unlink(file.c_str());
    c.check(e.kind == mc::Fate::Checked || e.kind == mc::Fate::Threw, "saving the curve at a time outside of its range %s instead of failing", e.text.c_str());
    return;
  }
  if (knots) cv.saveCurveTimesAndValues(file);
  else cv.saveCurveAtTimes(file, t);
  auto rows = readBack(c, file);
  unlink(file.c_str());
  c.check(rows.size() == t.size(), "%zu rows for %zu times", rows.size(), t.size());
  for (size_t i = 0; i < t.size(); i++) {
    c.check(rows[i].size() == 8, "row %zu has %zu columns", i, rows[i].size());
    c.check(rows[i][0] == t[i], "row %zu is for time %.17g, expected %.17g", i, rows[i][0], t[i]);
    T6 x;
    c.check(cv.evaluate(x, t[i]), "does not evaluate");
    double want[7] = {x.getPosition().x(), x.getPosition().y(), x.getPosition().z(), x.getRotation().w(), x.getRotation().x(), x.getRotation().y(), x.getRotation().z()};
    for (int j = 0; j < 7; j++) c.near(rows[i][j + 1], want[j], 1e-12 * (1 + std::fabs(want[j])), "row %zu, value %d", i, j);
  }
  c.observe((uint64_t)(k * 8 + (int)t.size()));
}

// ---------------------------------------------------------------- C21
struct Slerp : curves::SlerpSE3Curve {  // the class itself is abstract
  using curves::SlerpSE3Curve::evaluate;
  using curves::SlerpSE3Curve::evaluateDerivative;
  bool evaluate(ValueType&, curves::Time) const override { return false; }
  bool evaluateDerivative(DerivativeType&, curves::Time, unsigned int) const override { return false; }
};
static void times(Ctx& c, const curves::SE3Curve& cv, const std::vector<double>& want) {
  std::vector<curves::Time> t = {5};
  cv.getCurveTimes(&t);
  std::string a, b;
  for (double x : t) a += mc::fmt(" %g", x);
  for (double x : want) b += mc::fmt(" %g", x);
  c.check(t == want, "knots at%s, expected%s", a.c_str(), b.c_str());
  c.check(cv.size() == (int)want.size(), "size is %d, expected %zu", cv.size(), want.size());
  c.check(cv.isEmpty() == want.empty(), "isEmpty is wrong");
  if (!want.empty()) c.check(cv.getMinTime() == want.front() && cv.getMaxTime() == want.back(), "time range [%g, %g]", cv.getMinTime(), cv.getMaxTime());
}
static void slerp(Ctx& c, int depth, const std::vector<int>& ratios, bool setLater) {
  Slerp cv;
  int ratio = c.pick(ratios, "sampling ratio");
  bool dflt = ratio == 0;
  if (dflt) ratio = 1;
  else cv.setSamplingRatio(ratio);
  std::vector<double> want;
  std::set<curves::Key> keys;
  int cnt = 0, n = depth;
  double now = 0.5;
  auto val = [](double t) { return tf(E3(t, 0, 1), E3(0, 0, t)); };
  int ops = setLater ? 8 : 7;
  for (int i = 0; i < n; i++) {
    int op = c.choose(ops, "operation");
    std::vector<curves::Key> k;
    if (op <= 1) {  // one measurement, by regular and irregular steps
      now += op ? 0.125 : 1;
      c.step("measurement at %g", now);
      size_t before = want.size();
      if (want.size() < 2) want.push_back(now);
      else if (ratio == 1) want.push_back(now);
      else {
        cnt++;
        if (cnt == 1) want.push_back(now);
        else want.back() = now;
        if (cnt == ratio) cnt = 0;
      }
      cv.extend({now}, {val(now)}, op ? nullptr : &k);
      if (!op && want.size() > before) {
        c.check(k.size() == 1, "%zu keys for a new knot", k.size());
        c.check(keys.insert(k[0]).second, "key %zu was given before", k[0]);
      }
    } else if (op == 2 || op == 3) {  // several at once
      int m = op == 2 ? 2 : 3;
      std::vector<double> t;
      std::vector<T6> x;
      for (int j = 0; j < m; j++) {
        now += 0.5;
        t.push_back(now);
        x.push_back(val(now));
        want.push_back(now);
      }
      c.step("%d measurements up to %g", m, now);
      cv.extend(t, x, &k);
      c.check((int)k.size() == m, "%zu keys for %d knots", k.size(), m);
      for (auto q : k) c.check(keys.insert(q).second, "key %zu was given before", q);
    } else if (op == 4) {
      c.step("clear");
      cv.clear();
      want.clear();
      cnt = 0;
    } else if (op == 5) {
      int m = 1 + c.choose(3, "knots - 1");
      c.step("fit to %d knots", m);
      want.clear();
      for (int j = 0; j < m; j++) want.push_back(++now);
      std::vector<T6> x;
      for (double t : want) x.push_back(val(t));
      cv.fitCurve(want, x, &k);
      c.check((int)k.size() == m, "%zu keys for %d knots", k.size(), m);
      for (auto q : k) c.check(keys.insert(q).second, "key %zu was given before", q);
      cnt = 0;
    } else if (op == 6) {
      c.step("no measurements");
      cv.extend({}, {}, nullptr);
    } else {
      // a new ratio applies when a knot was just completed
      if (cnt == 0) {
        ratio = ratio == 3 ? 2 : 3;
        c.step("ratio %d", ratio);
        cv.setSamplingRatio(ratio);
      }
    }
    times(c, cv, want);
  }
  c.observe(mc::mix(want.size(), mc::bits(want.empty() ? 0 : want.back() - want.front())));
}
SCENARIO("C21", "C21.slerp", mc::QUICK, "slerp curve, ratio default, 1, 2, 3, 5 x all sequences of 5 of 7 operations: single measurements (regular, irregular), two or three at once, none, clear, fit to 1, 2, 3 knots") { slerp(c, 5, {0, 1, 2, 3, 5}, false); }
SCENARIO("C21", "C21.slerp.long", mc::BOTH, "slerp curve, ratio 1..12 x 3..60 measurements, with a clear after each possible number of them") {
  Slerp cv;
  int ratio = 1 + c.choose(12, "ratio"), total = 60, at = c.choose(total, "clear after");
  cv.setSamplingRatio(ratio);
  std::vector<double> want;
  int cnt = 0;
  for (int i = 0; i < total; i++) {
    double t = 0.25 + 0.5 * i;
    cv.extend({t}, {tf(E3(t, 0, 0), E3(0, 0, 0))});
    c.step();
    if (want.size() < 2 || ratio == 1) want.push_back(t);
    else {
      if (cnt == 0) want.push_back(t);
      else want.back() = t;
      cnt = (cnt + 1) % ratio;
    }
    times(c, cv, want);
    if (i == at) {
      cv.clear();
      want.clear();
      cnt = 0;
      times(c, cv, want);
    }
  }
}
SCENARIO("C21", "C21.slerp.ratios", mc::BOTH, "the same with changes of the ratio between completed knots, sequences of 5") { slerp(c, 5, {2, 3}, true); }
SCENARIO("C21", "C21.slerp.deep", mc::THOROUGH, "sequences of 7 operations, ratio 2, 3, 4") { slerp(c, 7, {2, 3, 4}, false); }

//! lots: that many measurements, with a clearing at any place, instead of all sequences of operations.
static void hermitePolicy(Ctx& c, int depth, const std::vector<int>& ratios, const std::vector<double>& periods, int lots = 0) {
  H6 cv;
  int ratio = c.pick(ratios, "minimum number of measurements");
  double period = c.pick(periods, "minimum period");
  bool ctor = c.flip("set by setters") == false;
  curves::SamplingPolicy p = ctor ? curves::SamplingPolicy(ratio, period) : curves::SamplingPolicy();
  if (!ctor) {
    p.setMinimumMeasurements(ratio);
    p.setMinSamplingPeriod(period);
  }
  Ref6 r;
  int cnt = 0;
  double last = 0, now = -1, tie = 0;
  (void)tie;
  L margin = 1;
  auto one = [&](double t, const T6& v) {
    Pose x = pose(v);
    if (r.k.empty()) {
      r.k.push_back({t, x, V3{0, 0, 0}, V3{0, 0, 0}});
      cnt = 0;
      last = t;
      return;
    }
    if (cnt >= ratio && last + period < t) {
      r.k.pop_back();  // the provisional knot
      V3 d, w;
      K6& b = r.k.back();
      if (r.k.size() == 1) {
        slope6(b.t, t, b.x, x, d, w, margin);
        b.v = d;
        b.w = w;
      } else {
        K6& a = r.k[r.k.size() - 2];
        slope6(a.t, t, a.x, x, b.v, b.w, margin);
        slope6(b.t, t, b.x, x, d, w, margin);
      }
      r.k.push_back({t, x, d, w});
      cnt = 0;
      last = t;
    } else if (cnt == 0) {
      r.k.push_back({t, x, r.k.back().v, r.k.back().w});
      cnt = 1;
    } else {
      r.k.pop_back();
      V3 d, w;
      K6& b = r.k.back();
      slope6(b.t, t, b.x, x, d, w, margin);
      r.k.push_back({t, x, d, w});
      cnt++;
    }
  };
  auto val = [](double t) { return tf(E3(t, std::sin(3 * t), 1), E3(0.5 * std::cos(t), 0.3, 0.7 * t)); };
  int pat = lots ? c.choose(3, "pattern of steps") : 0, clearAt = lots ? c.choose(lots, "clear at") : -1;
  for (int i = 0; i < (lots ? lots : depth); i++) {
    int op = !lots ? c.choose(4, "operation") : i == clearAt && i ? 3 : pat == 2 ? i % 2 : pat;
    if (op <= 1) {
      now += op ? 0.125 : 1;
      c.step("measurement at %g", now);
      p.extend<H6, T6>({now}, {val(now)}, &cv, nullptr);
      one(now, val(now));
    } else if (op == 2) {
      std::vector<double> t = {now + 0.5, now + 0.75};
      std::vector<T6> x = {val(t[0]), val(t[1])};
      now += 0.75;
      c.step("2 measurements up to %g", now);
      p.extend<H6, T6>(t, x, &cv, nullptr);
      one(t[0], x[0]);
      one(t[1], x[1]);
    } else {
      c.step("clear");
      cv.clear();
      r.k.clear();
    }
    std::vector<double> want;
    for (auto& k : r.k) want.push_back(k.t);
    times(c, cv, want);
    c.check(p.getMeasurementsSinceLastExtend() == cnt || r.k.empty(), "%d measurements since the last knot, expected %d", p.getMeasurementsSinceLastExtend(), cnt);
    if (!r.k.empty()) c.check(p.getLastExtendTime() == last, "last knot at %g, expected %g", p.getLastExtendTime(), last);
  }
  check6(c, cv, r, margin, {0.25, 0.5, 0.8});
  c.observe(mc::mix(r.k.size(), mc::bits(now)));
}
SCENARIO("C21", "C21.hermite", mc::QUICK, "Hermite policy, ratio 1, 2, 4 x minimum period 0, 1, 2.5 x all sequences of 6 of 4 operations: single measurements by steps of 1 and 0.125, two at once, clear; knots, velocities and poses against a model of the policy") {
  hermitePolicy(c, 6, {1, 2, 4}, {0, 1, 2.5});
}
SCENARIO("C21", "C21.hermite.deep", mc::THOROUGH, "sequences of 8 operations, ratio 1, 2, 3, 5") { hermitePolicy(c, 8, {1, 2, 3, 5}, {0, 1.5}); }
SCENARIO("C21", "C21.hermite.long", mc::BOTH, "Hermite policy, 40 measurements x ratio 1..12 and 20 x minimum period 0, 0.5, 3, 20 x 3 patterns of steps x a clearing after each number of them") {
  hermitePolicy(c, 0, {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 20}, {0, 0.5, 3, 20}, 40);
}
SCENARIO("C21", "C21.past", mc::BOTH, "a measurement at or before the last one is refused by the Hermite policy, after 1-6 measurements") {
  H6 cv;
  curves::SamplingPolicy p(1 + c.choose(3, "ratio"), 0);
  int n = 1 + c.choose(6, "measurements");
  for (int i = 0; i < n; i++) p.extend<H6, T6>({i * 1.0}, {tf(places()[i % 4], turns()[i % 3])}, &cv, nullptr);
  double t = c.pick<double>({0, 1e-9, 0.5, 1, 3}, "how much too early");
  c.step("measurement at %g", n - 1 - t);
  mc::Fate f = mc::inChild([&] { p.extend<H6, T6>({n - 1 - t}, {tf(places()[0], turns()[0])}, &cv, nullptr); });
  c.check(f.kind == mc::Fate::Checked || f.kind == mc::Fate::Threw, "a measurement in the past %s instead of failing", f.text.c_str());
}
