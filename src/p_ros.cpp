// C22: trajectory messages.
#include "mc.hpp"
#include <curves_ros/RosJointTrajectoryInterface.hpp>
#include <curves_ros/RosMultiDOFJointTrajectoryInterface.hpp>
#include <curves_ros/RosMultiDOFJointTrajectoryTranslationInterface.hpp>
using mc::Ctx;
typedef std::vector<double> Vec;
struct Point {
  int sec, nsec;
};
//! What the curve has to be: the knots of the last accepted message.
struct Want {
  bool any = false;
  Vec t;
  std::vector<Vec> x;
};
struct Iface {
  virtual ~Iface() {}
  virtual int width() const = 0;
  //! Value of joint j at point i is val(seed, i, j).
  virtual bool from(const std::vector<std::string>& names, const std::vector<Point>& pts, int seed, const std::string& name, bool more) = 0;
  virtual bool eval(double t, Vec& x) const = 0;
  virtual double lo() const = 0;
  virtual double hi() const = 0;
  virtual bool vel(double t, Vec& x) const = 0;
  virtual std::unique_ptr<Iface> direct(const Want& w) const = 0;
};
static Vec val(int seed, int i, int j, int width) {
  Vec x;
  for (int d = 0; d < width; d++) x.push_back(((seed * 31 + i * 7 + j * 13 + d * 5) % 17) * 0.5 - 3 + 0.01 * j);
  if (width == 7) {  // a rotation
    double a = 0.3 * i - 0.7 * j + 0.2 * seed, s = std::sin(a), n = std::sqrt(3.0);
    x[3] = std::cos(a);
    x[4] = s / n;
    x[5] = -s / n;
    x[6] = s / n;
  }
  return x;
}
static geometry_msgs::Transform transform(const Vec& x) {
  geometry_msgs::Transform t;
  t.translation.x = x[0];
  t.translation.y = x[1];
  t.translation.z = x[2];
  t.rotation.w = x[3];
  t.rotation.x = x[4];
  t.rotation.y = x[5];
  t.rotation.z = x[6];
  return t;
}
static trajectory_msgs::MultiDOFJointTrajectory multi(const std::vector<std::string>& names, const std::vector<Point>& pts, int seed, bool more) {
  trajectory_msgs::MultiDOFJointTrajectory m;
  m.joint_names = names;
  m.header.stamp.sec = 1000;
  for (size_t i = 0; i < pts.size(); i++) {
    trajectory_msgs::MultiDOFJointTrajectoryPoint p;
    p.time_from_start = ros::Duration(pts[i].sec, pts[i].nsec);
    for (size_t j = 0; j < names.size(); j++) {
      p.transforms.push_back(transform(val(seed, (int)i, (int)j, 7)));
      if (more) {
        p.velocities.push_back(geometry_msgs::Twist());
        p.velocities.back().linear.x = 3;
        p.accelerations.push_back(geometry_msgs::Twist());
      }
    }
    m.points.push_back(p);
  }
  return m;
}
struct JointI : Iface {
  curves::RosJointTrajectoryInterface c;
  int width() const override { return 1; }
  bool from(const std::vector<std::string>& names, const std::vector<Point>& pts, int seed, const std::string& name, bool more) override {
    trajectory_msgs::JointTrajectory m;
    m.joint_names = names;
    m.header.stamp.sec = 1000;
    for (size_t i = 0; i < pts.size(); i++) {
      trajectory_msgs::JointTrajectoryPoint p;
      p.time_from_start = ros::Duration(pts[i].sec, pts[i].nsec);
      for (size_t j = 0; j < names.size(); j++) {
        p.positions.push_back(val(seed, (int)i, (int)j, 1)[0]);
        if (more) {
          p.velocities.push_back(5);
          p.accelerations.push_back(-5);
          p.effort.push_back(7);
        }
      }
      m.points.push_back(p);
    }
    return c.fromMessage(m, name);
  }
  bool eval(double t, Vec& x) const override {
    x.assign(1, 0);
    return c.evaluate(x[0], t);
  }
  bool vel(double t, Vec& x) const override {
    x.assign(1, 0);
    return c.evaluateDerivative(x[0], t, 1);
  }
  double lo() const override { return c.getMinTime(); }
  double hi() const override { return c.getMaxTime(); }
  std::unique_ptr<Iface> direct(const Want& w) const override {
    std::unique_ptr<JointI> r(new JointI);
    Vec x;
    for (auto& q : w.x) x.push_back(q[0]);
    r->c.fitCurve(w.t, x);
    return r;
  }
};
struct PoseI : Iface {
  curves::RosMultiDOFJointTrajectoryInterface c;
  int width() const override { return 7; }
  bool from(const std::vector<std::string>& names, const std::vector<Point>& pts, int seed, const std::string& name, bool more) override { return c.fromMessage(multi(names, pts, seed, more), name); }
  bool eval(double t, Vec& x) const override {
    curves::CubicHermiteSE3Curve::ValueType v;
    if (!c.evaluate(v, t)) return false;
    auto p = v.getPosition();
    auto q = v.getRotation();
    x = {p.x(), p.y(), p.z(), q.w(), q.x(), q.y(), q.z()};
    return true;
  }
  bool vel(double t, Vec& x) const override {
    curves::CubicHermiteSE3Curve::DerivativeType v;
    if (!c.evaluateDerivative(v, t, 1)) return false;
    auto p = v.getTranslationalVelocity();
    auto q = v.getRotationalVelocity();
    x = {p.x(), p.y(), p.z(), q.x(), q.y(), q.z()};
    return true;
  }
  double lo() const override { return c.getMinTime(); }
  double hi() const override { return c.getMaxTime(); }
  std::unique_ptr<Iface> direct(const Want& w) const override {
    std::unique_ptr<PoseI> r(new PoseI);
    std::vector<curves::CubicHermiteSE3Curve::ValueType> x;
    for (auto& q : w.x) x.push_back({kindr::Position3D(q[0], q[1], q[2]), kindr::RotationQuaternionD(q[3], q[4], q[5], q[6])});
    r->c.fitCurve(w.t, x);
    return r;
  }
};
struct PlaceI : Iface {
  curves::RosMultiDOFJointTrajectoryTranslationInterface c;
  int width() const override { return 3; }
  bool from(const std::vector<std::string>& names, const std::vector<Point>& pts, int seed, const std::string& name, bool more) override { return c.fromMessage(multi(names, pts, seed, more), name); }
  bool eval(double t, Vec& x) const override {
    Eigen::Vector3d v(0, 0, 0);
    bool ok = c.evaluate(v, t);
    x = {v[0], v[1], v[2]};
    return ok;
  }
  bool vel(double t, Vec& x) const override {
    Eigen::Vector3d v(0, 0, 0);
    bool ok = c.evaluateDerivative(v, t, 1);
    x = {v[0], v[1], v[2]};
    return ok;
  }
  double lo() const override { return c.getMinTime(); }
  double hi() const override { return c.getMaxTime(); }
  std::unique_ptr<Iface> direct(const Want& w) const override {
    std::unique_ptr<PlaceI> r(new PlaceI);
    std::vector<Eigen::Vector3d> x;
    for (auto& q : w.x) x.push_back(Eigen::Vector3d(q[0], q[1], q[2]));
    r->c.fitCurve(w.t, x);
    return r;
  }
};
static std::unique_ptr<Iface> make(int k) {
  if (k == 0) return std::unique_ptr<Iface>(new JointI);
  if (k == 1) return std::unique_ptr<Iface>(new PoseI);
  return std::unique_ptr<Iface>(new PlaceI);
}
static const std::vector<std::vector<Point>>& pointLists() {
  static const std::vector<std::vector<Point>> v = {
      {{0, 0}, {1, 500000000}}, {{0, 0}, {1, 0}, {2, 250000000}}, {{3, 1}, {3, 999999999}, {10, 0}, {11, 125000000}}, {}, {{0, 250000000}, {0, 500000000}, {0, 750000000}, {1, 0}, {100, 0}},
      {{-10, 250000000}, {-6, 999999999}, {-1, 500000000}, {0, 1}},
      {{2147490, 0}, {2147495, 999999999}}, {{1000, 1}, {1000, 200000001}, {1000, 900000000}}};
  return v;
}
static void compare(Ctx& c, const Iface& f, const Want& w, const std::string& what) {
  if (!w.any || w.t.empty()) {  // nothing was accepted yet, or the last message was empty
    std::unique_ptr<Iface> d = f.direct(Want());
    for (double t : {-1.0, 0.0, 0.5, 2.0, 50.0}) {
      Vec x, y;
      bool a = f.eval(t, x), b = d->eval(t, y);
      c.check(a == b && (!a || x == y), "%s: an empty curve has content at %g", what.c_str(), t);
    }
    return;
  }
  c.near(f.lo(), w.t.front(), 1e-9 * (1 + std::fabs(w.t.front())), "%s: minimum time", what.c_str());
  c.near(f.hi(), w.t.back(), 1e-9 * (1 + std::fabs(w.t.back())), "%s: maximum time", what.c_str());
  std::unique_ptr<Iface> d = f.direct(w);
  Vec q = w.t;
  for (size_t i = 0; i + 1 < w.t.size(); i++)
    for (double a : {0.2, 0.5, 0.9}) q.push_back(w.t[i] + a * (w.t[i + 1] - w.t[i]));
  for (size_t i = 0; i < q.size(); i++) {
    Vec x, y;
    c.check(f.eval(q[i], x), "%s: does not evaluate at %.17g", what.c_str(), q[i]);
    if (i < w.t.size()) {
      double s = 1;
      if (f.width() == 7 && x[3] * w.x[i][3] + x[4] * w.x[i][4] + x[5] * w.x[i][5] + x[6] * w.x[i][6] < 0) s = -1;
      for (int k = 0; k < f.width(); k++) c.near(x[k] * (k >= 3 ? s : 1), w.x[i][k], 1e-7, "%s: value %d at point %zu, time %g", what.c_str(), k, i, q[i]);
    }
    c.check(d->eval(q[i], y), "does not evaluate");
    for (int k = 0; k < f.width(); k++) c.near(x[k], y[k], 1e-9 * (1 + std::fabs(y[k])), "%s: value %d between points, time %g", what.c_str(), k, q[i]);
    Vec vx, vy;
    bool a = f.vel(q[i], vx), b = d->vel(q[i], vy);
    c.check(a == b, "%s: velocity at %g", what.c_str(), q[i]);
    if (a)
      for (size_t k = 0; k < vx.size(); k++) c.near(vx[k], vy[k], 1e-8 * (1 + std::fabs(vy[k])), "%s: velocity %zu at %g", what.c_str(), k, q[i]);
  }
}
static void message(Ctx& c, Iface& f, Want& w, int seed, const std::vector<std::vector<std::string>>& lists, const std::vector<std::string>& ask, int nPts, bool mores) {
  const auto& names = c.pick(lists, "joint names");
  const auto& pts = pointLists()[c.choose(nPts, "points")];
  const std::string& name = c.pick(ask, "requested joint");
  bool more = mores && c.flip("velocities and accelerations too");
  std::string all;
  for (auto& n : names) all += "'" + n + "' ";
  std::string what = mc::fmt("message %d with joints %sand %zu points, joint '%s'", seed, all.c_str(), pts.size(), name.c_str());
  c.step("%s", what.c_str());
  size_t j = 0;
  while (j < names.size() && names[j] != name) j++;
  bool ok = f.from(names, pts, seed, name, more);
  c.check(ok == (j < names.size()), "%s: conversion returned %d", what.c_str(), ok);
  if (j < names.size()) {
    w = Want();
    w.any = true;
    for (size_t i = 0; i < pts.size(); i++) {
      w.t.push_back(pts[i].sec + 1e-9 * pts[i].nsec);
      w.x.push_back(val(seed, (int)i, (int)j, f.width()));
    }
  }
  compare(c, f, w, what);
  c.observe(mc::mix(names.size() * 16 + j, pts.size() + (ok ? 100 : 0)));
}
static const std::vector<std::vector<std::string>>& nameLists() {
  static const std::vector<std::vector<std::string>> v = [] {
    std::vector<std::vector<std::string>> r = {{}};
    std::vector<std::string> al = {"a", "b", "ab", ""};
    size_t lo = 0;
    for (int len = 1; len <= 3; len++) {
      size_t hi = r.size();
      for (size_t i = lo; i < hi; i++)
        for (auto& n : al) {
          auto q = r[i];
          q.push_back(n);
          r.push_back(q);
        }
      lo = hi;
    }
    return r;
  }();
  return v;
}
SCENARIO("C22", "C22.one", mc::BOTH, "3 converters x all lists of up to 3 joint names of {a, b, ab, empty} x 6 requested names x 8 lists of points (0-5 points, fractions of seconds, late and early starts) with and without derivatives") {
  auto f = make(c.choose(3, "converter"));
  Want w;
  message(c, *f, w, 1, nameLists(), {"a", "b", "ab", "", "A", "abc"}, 8, true);
}
SCENARIO("C22", "C22.two", mc::BOTH, "3 converters x all sequences of two messages of 8 lists of names x 3 requested names x 5 lists of points") {
  auto f = make(c.choose(3, "converter"));
  static const std::vector<std::vector<std::string>> l = {{}, {"a"}, {"b"}, {"a", "b"}, {"b", "a"}, {"x", "y", "a"}, {"ab", "a", "b"}, {"b", "b", "a"}};
  Want w;
  for (int i = 0; i < 2; i++) message(c, *f, w, i, l, {"a", "b", "z"}, 5, false);
}
SCENARIO("C22", "C22.three", mc::BOTH, "3 converters x all sequences of three messages of 3 lists of names x 2 requested names x 5 lists of points") {
  auto f = make(c.choose(3, "converter"));
  Want w;
  for (int i = 0; i < 3; i++) message(c, *f, w, i, {{}, {"b", "a"}, {"a", "c", "b"}}, {"a", "z"}, 5, false);
}
SCENARIO("C22", "C22.wide", mc::BOTH, "messages with 1..40 joints, each one requested") {
  auto f = make(c.choose(3, "converter"));
  int n = 1 + c.choose(40, "joints");
  std::vector<std::string> names, ask;
  for (int i = 0; i < n; i++) names.push_back("joint_" + std::to_string(i));
  ask.push_back("joint_" + std::to_string(c.choose(n, "joint")));
  Want w;
  message(c, *f, w, 2, {names}, ask, 3, false);
}
SCENARIO("C22", "C22.four", mc::THOROUGH, "sequences of four messages") {
  auto f = make(c.choose(3, "converter"));
  Want w;
  for (int i = 0; i < 4; i++) message(c, *f, w, i, {{}, {"b", "a"}, {"a", "c", "b"}}, {"a", "z"}, 4, false);
}
