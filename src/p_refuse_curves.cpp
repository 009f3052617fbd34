// C25: requests that cannot be met, for curves; C26: files of samples.
#include "mc.hpp"
#include "faultfs.hpp"
#include <curves/CubicHermiteE3Curve.hpp>
#include <curves/CubicHermiteSE3Curve.hpp>
#include <curves/PolynomialSplineContainer.hpp>
#include <curves/PolynomialSplineScalarCurve.hpp>
#include <curves/PolynomialSplineVectorSpaceCurve.hpp>
#include <curves/polynomial_splines_containers.hpp>
#include <curves/SlerpSE3Curve.hpp>
#include <fcntl.h>
#include <memory>
#include <sstream>
#include <sys/resource.h>
#include <sys/stat.h>
using mc::Ctx;
using curves::Time;
typedef curves::CubicHermiteE3Curve H3;
typedef curves::CubicHermiteSE3Curve H6;
typedef H6::ValueType T6;
typedef Eigen::Vector3d E3;
struct Slerp : curves::SlerpSE3Curve {  // the class itself is abstract
  using curves::SlerpSE3Curve::evaluate;
  using curves::SlerpSE3Curve::evaluateDerivative;
  bool evaluate(ValueType&, curves::Time) const override { return false; }
  bool evaluateDerivative(DerivativeType&, curves::Time, unsigned int) const override { return false; }
};
static std::string scratch() {
  const char* e = getenv("MC_SCRATCH");
  return e ? e : "/tmp";
}
static T6 tf(const E3& p, const E3& r) {
  double a = r.norm();
  E3 u = a > 0 ? E3(r / a * std::sin(a / 2)) : E3::Zero();
  return T6(T6::Position(p), T6::Rotation(std::cos(a / 2), u[0], u[1], u[2]));
}
static void refused(Ctx& c, const std::function<void()>& f, const std::string& what) {
  c.step("%s", what.c_str());
  mc::Fate r = mc::inChild(f);
  c.check(r.kind == mc::Fate::Checked || r.kind == mc::Fate::Threw, "%s is not refused: %s", what.c_str(), r.text.c_str());
}
static std::vector<Time> someTimes(int n) {
  std::vector<Time> t;
  for (int i = 0; i < n; i++) t.push_back(0.5 + i);
  return t;
}
static std::vector<E3> some3(int n) {
  std::vector<E3> v;
  for (int i = 0; i < n; i++) v.push_back(E3(i, -i, 0.5));
  return v;
}
static std::vector<T6> some6(int n) {
  std::vector<T6> v;
  for (int i = 0; i < n; i++) v.push_back(tf(E3(i, -i, 0.5), E3(0.1 * i, 0, 0.3)));
  return v;
}
SCENARIO("C25", "C25.fits", mc::BOTH, "9 fits and extensions of Hermite and slerp curves x 0..4 times x 0..4 values, not equally many, and periodic fits of fewer than two knots, x fresh or fitted before") {
  int kind = c.choose(9, "operation"), n = c.choose(5, "times"), m = c.choose(5, "values"), before = c.choose(2, "fitted before");
  static const char* nm[] = {"position curve, fit", "position curve, fit with derivatives", "position curve, periodic fit", "pose curve, fit", "pose curve, fit with derivatives", "pose curve, periodic fit", "slerp curve, fit", "slerp curve, extension", "slerp curve, setting its knots"};
  bool periodic = kind == 2 || kind == 5;
  if (n == m && !(periodic && n < 2)) return;
  auto t = someTimes(n);
  refused(c, [&] {
    if (kind < 3) {
      H3 h;
      auto v = some3(m);
      if (before) h.fitCurve(someTimes(3), some3(3));
      if (kind == 0) h.fitCurve(t, v);
      if (kind == 1) h.fitCurveWithDerivatives(t, v, E3(1, 0, 0), E3(0, 1, 0));
      if (kind == 2) h.fitPeriodicCurve(t, v);
    } else if (kind < 6) {
      H6 h;
      auto v = some6(m);
      if (before) h.fitCurve(someTimes(3), some6(3));
      if (kind == 3) h.fitCurve(t, v);
      if (kind == 4) h.fitCurveWithDerivatives(t, v, H6::DerivativeType(), H6::DerivativeType());
      if (kind == 5) h.fitPeriodicCurve(t, v);
    } else {
      Slerp h;
      auto v = some6(m);
      if (before) h.fitCurve({-3.0, -2.0, -1.0}, some6(3));
      if (kind == 6) h.fitCurve(t, v);
      if (kind == 7) h.extend(t, v);
      if (kind == 8) h.setCurve(t, v);
    }
  }, mc::fmt("%s, %d times and %d values", nm[kind], n, m));
  c.observe((uint64_t)(kind * 64 + n * 8 + m));
}
template <class K>
static void scalarExtend(bool before) {
  curves::PolynomialSplineScalarCurve<K> s;
  if (before) s.fitCurve({0, 1, 2}, {0, 3, 1});
  s.extend({5}, {1}, nullptr);
}
template <int N>
static void vectorExtend(bool before) {
  typedef curves::PolynomialSplineVectorSpaceCurve<curves::PolynomialSplineQuintic, N> V;
  V s;
  typename V::ValueType x = V::ValueType::Constant(1);
  if (before) s.fitCurve({0, 1}, {x, x});
  s.extend({5}, {x}, nullptr);
}
SCENARIO("C25", "C25.missing", mc::BOTH, "extending scalar curves of order 1-5, vector curves of dimension 1, 3, 6, Hermite curves; transforming scalar, vector and Hermite pose curves: not implemented, on fresh and fitted curves") {
  using namespace curves;
  int kind = c.choose(13, "operation");
  bool b = c.flip("fitted before");
  refused(c, [&] {
    if (kind == 0) scalarExtend<PolynomialSplineContainerLinear>(b);
    if (kind == 1) scalarExtend<PolynomialSplineContainerQuadratic>(b);
    if (kind == 2) scalarExtend<PolynomialSplineContainerCubic>(b);
    if (kind == 3) scalarExtend<PolynomialSplineContainerQuartic>(b);
    if (kind == 4) scalarExtend<PolynomialSplineContainerQuintic>(b);
    if (kind == 5) vectorExtend<1>(b);
    if (kind == 6) vectorExtend<3>(b);
    if (kind == 7) vectorExtend<6>(b);
    if (kind == 8) {
      H3 h;
      if (b) h.fitCurve(someTimes(3), some3(3));
      h.extend({9}, some3(1));
    }
    if (kind == 9) {
      H6 h;
      if (b) h.fitCurve(someTimes(3), some6(3));
      h.extend({9}, some6(1));
    }
    if (kind == 10) {
      H6 h;
      if (b) h.fitCurve(someTimes(3), some6(3));
      h.transformCurve(tf(E3(1, 2, 3), E3(0, 0, 0.5)));
    }
    if (kind == 11) {
      PolynomialSplineQuinticScalarCurve s;
      if (b) s.fitCurve({0, 1, 2}, {0, 3, 1});
      s.transformCurve(1);
    }
    if (kind == 12) {
      PolynomialSplineQuinticVector3Curve s;
      if (b) s.fitCurve({0, 1}, some3(2));
      s.transformCurve(E3(1, 2, 3));
    }
  }, mc::fmt("operation %d that is not implemented", kind));
}

// ---------------------------------------------------------------- C26
namespace {
struct File {
  std::string dir = mc::fmt("%s/samples-%d", scratch().c_str(), (int)getpid()), name = dir + "/t.txt";
  File() { mkdir(dir.c_str(), 0700); }
  ~File() {
    unlink(name.c_str());
    rmdir(dir.c_str());
  }
  std::string get() const {
    std::string s;
    int fd = open(name.c_str(), O_RDONLY);
    char b[65536];
    ssize_t n;
    while (fd >= 0 && (n = read(fd, b, sizeof b)) > 0) s.append(b, n);
    if (fd >= 0) close(fd);
    return s;
  }
};
//! A curve of either kind.
struct Any {
  bool poses = false;
  H3 h3;
  H6 h6;
  bool write(const std::string& f, int n) const { return poses ? h6.writeEvalToFile(f, n) : h3.writeEvalToFile(f, n); }
  double min() const { return poses ? h6.getMinTime() : h3.getMinTime(); }
  double max() const { return poses ? h6.getMaxTime() : h3.getMaxTime(); }
  //! time, pose, velocity
  bool row(double t, std::vector<double>& r) const {
    if (poses) {
      T6 x;
      H6::DerivativeType d;
      if (!h6.evaluate(x, t) || !h6.evaluateDerivative(d, t, 1)) return false;
      r = {t, x.getPosition().x(), x.getPosition().y(), x.getPosition().z(), x.getRotation().w(), x.getRotation().x(), x.getRotation().y(), x.getRotation().z(),
           d.getTranslationalVelocity().x(), d.getTranslationalVelocity().y(), d.getTranslationalVelocity().z(),
           d.getRotationalVelocity().x(), d.getRotationalVelocity().y(), d.getRotationalVelocity().z()};
      return true;
    }
    E3 x, d;
    if (!h3.evaluate(x, t) || !h3.evaluateDerivative(d, t, 1)) return false;
    r = {t, x[0], x[1], x[2], d[0], d[1], d[2]};
    return true;
  }
};
std::vector<std::string> words(const std::string& l) {
  std::istringstream s(l);
  std::vector<std::string> r;
  std::string w;
  while (s >> w) r.push_back(w);
  return r;
}
void build(Any& a, bool poses, const std::vector<double>& t, int style = 0) {
  a.poses = poses;
  std::vector<E3> p;
  std::vector<T6> q;
  for (size_t i = 0; i < t.size(); i++) {
    p.push_back(E3(std::sin(3.0 * i), 0.5 * i, i % 2 ? -2 : 1));
    if (style == 2) p[i] *= 12345.6789;
    q.push_back(tf(p[i], E3(0.4 * std::sin(1.0 * i), 0.2 * i, style == 1 ? -3.5 : -0.3)));
  }
  if (poses) a.h6.fitCurve(t, q);
  else a.h3.fitCurve(t, p);
}
//! Names of the columns and what they stand for, from the header.
void checkFile(Ctx& c, const std::string& text, const Any& a, int n) {
  std::istringstream is(text);
  std::string l;
  c.check((bool)std::getline(is, l), "the file is empty");
  auto h = words(l);
  static const std::vector<std::string> N6 = {"t", "px", "py", "pz", "rw", "rx", "ry", "rz", "vx", "vy", "vz", "wx", "wy", "wz"}, N3 = {"t", "px", "py", "pz", "vx", "vy", "vz"};
  const auto& names = a.poses ? N6 : N3;
  std::vector<int> where;
  for (auto& x : names) {
    auto i = std::find(h.begin(), h.end(), x);
    c.check(i != h.end(), "no column %s in the header '%s'", x.c_str(), l.c_str());
    where.push_back(i - h.begin());
  }
  double t0 = a.min(), t1 = a.max();
  int k = 0;
  while (std::getline(is, l)) {
    auto w = words(l);
    if (w.empty()) continue;
    c.check(k < n, "more than %d rows", n);
    c.check(w.size() == h.size(), "row %d has %zu columns, the header %zu", k, w.size(), h.size());
    double t = k == 0 ? t0 : k == n - 1 ? t1 : t0 + (t1 - t0) * k / (n - 1);
    std::vector<double> want;
    c.check(a.row(t, want), "the curve does not evaluate at %.17g", t);
    for (size_t i = 0; i < want.size(); i++) {
      double got = strtod(w[where[i]].c_str(), nullptr);
      c.near(got, want[i], 2e-6 + 1e-9 * std::fabs(want[i]), "row %d, column %s", k, names[i].c_str());
    }
    k++;
  }
  c.check(k == n, "%d rows for %d samples", k, n);
}
}  // namespace
SCENARIO("C26", "C26.samples", mc::BOTH, "position and pose curves x 8 lists of knots x 3 sets of values (half turns and beyond, large ones) x 1..70, 100, 101, 1000, 1001, 5000 samples: header, number of rows, times, poses and velocities of each row") {
  static const std::vector<std::vector<double>> K = {{0, 1}, {0.1, 0.4, 1.3}, {-2, 0, 5}, {1.0 / 3, 7.1}, {0, 0.1, 0.2, 0.30000000000000004}, {100, 101.7}, {1, 2, 3, 4, 5, 6, 7, 8}, {2.5}};
  File f;
  bool poses = c.flip("poses");
  const auto& t = c.pick(K, "knots");
  int k = c.choose(75, "samples");
  int n = k < 70 ? k + 1 : (const int[]){100, 101, 1000, 1001, 5000}[k - 70];
  Any a;
  build(a, poses, t, c.choose(3, "values"));
  c.step("%d samples of a %s curve of %zu knots", n, poses ? "pose" : "position", t.size());
  bool ok = a.write(f.name, n);
  c.check(ok, "%d samples of a curve of %zu knots are not written", n, t.size());
  checkFile(c, f.get(), a, n);
  c.observe((uint64_t)std::hash<std::string>()(f.get()));
}
SCENARIO("C26", "C26.empty", mc::BOTH, "fresh and cleared curves and 1, 2, 3, 10 samples: reported as a failure") {
  File f;
  Any a;
  bool poses = c.flip("poses");
  a.poses = poses;
  if (c.flip("cleared")) {
    build(a, poses, {1, 2, 3});
    if (poses) a.h6.clear();
    else a.h3.clear();
  }
  int n = c.pick<int>({1, 2, 3, 10}, "samples");
  c.step("%d samples of an empty curve", n);
  c.check(!a.write(f.name, n), "%d samples of an empty curve are reported as written", n);
}
namespace {
//! Whether everything was written although a call failed.
struct Outcome {
  mc::Fate fate;
  bool said;
};
Outcome attempt(const Any& a, int n, const std::string& name, const std::string& dir, const faultfs::Fault& f0) {
  faultfs::arm(dir.c_str(), f0, {});
  mc::Fate r = mc::inChild([&] {
    signal(SIGPIPE, SIG_IGN);
    int null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    if (!faultfs::install()) _exit(82);
    faultfs::st().active = true;
    bool ok = a.write(name, n);
    faultfs::st().active = false;
    _exit(ok ? 83 : 84);
  });
  if (r.code == 82) {
    fprintf(stderr, "mc: no seccomp filters here\n");
    _exit(94);
  }
  return {r, r.code == 83};
}
}  // namespace
SCENARIO("C26", "C26.faults", mc::BOTH, "files of 2, 30 and 200 samples of both kinds of curve x every system call on the file x every failure of it, also partial and interrupted transfers") {
  using namespace faultfs;
  File f;
  Any a;
  bool poses = c.flip("poses");
  build(a, poses, {0, 1, 2.5});
  int n = c.pick<int>({2, 30, 200}, "samples");
  unlink(f.name.c_str());
  Outcome dry = attempt(a, n, f.name, f.dir, {});
  c.check(dry.said, "%d samples are not written although nothing fails: %s", n, dry.fate.text.c_str());
  std::string whole = f.get();
  int calls = st().calls;
  c.check(calls >= 3, "%d system calls on the file", calls);
  std::vector<int> op(st().op, st().op + calls);
  int k = c.choose(calls, "call that fails");
  struct Sort {
    Kind k;
    int err;
    bool persistent;
    const char* nm;
  };
  std::vector<Sort> s;
  if (op[k] == Open) s = {{Fail, ENOENT, true, "ENOENT"}, {Fail, EACCES, true, "EACCES"}, {Fail, EMFILE, true, "EMFILE"}, {Fail, ENOSPC, true, "ENOSPC"}};
  else if (op[k] == Write) s = {{Fail, ENOSPC, true, "ENOSPC from then on"}, {Fail, ENOSPC, false, "ENOSPC once"}, {Fail, EIO, true, "EIO from then on"}, {Fail, EIO, false, "EIO once"}, {Short, 0, false, "half of the data"}, {Short, 1, false, "one byte"}};
  else if (op[k] == Close) s = {{Fail, EIO, false, "EIO"}, {Fail, ENOSPC, false, "ENOSPC"}};
  else return;  // queries about the file, whose failure need not matter
  const Sort& w = c.pick(s, "failure");
  unlink(f.name.c_str());
  c.step("%d samples, %s at call %d", n, w.nm, k);
  Outcome o = attempt(a, n, f.name, f.dir, {k, w.k, w.err, w.persistent});
  bool closes = op[k] == Close;
  if (o.said) {
    c.check(f.get() == whole && !closes, "%d samples with %s at call %d are reported as written, but are not", n, w.nm, k);
  } else {
    c.check(o.fate.code == 84 || o.fate.kind == mc::Fate::Checked || o.fate.kind == mc::Fate::Threw, "%d samples with %s at call %d: %s", n, w.nm, k, o.fate.text.c_str());
    c.check(w.k != Short, "%d samples with %s at call %d are reported as failed", n, w.nm, k);
  }
  c.observe((uint64_t)(n * 1000 + k * 16 + o.said));
}
SCENARIO("C26", "C26.full", mc::BOTH, "a size limit of the file at every byte up to 64, every 97th and the last ones; a full device; a directory; a missing directory") {
  File f;
  Any a;
  build(a, c.flip("poses"), {0, 1, 2.5});
  int n = 40;
  c.check(a.write(f.name, n), "not written");
  int size = (int)f.get().size();
  std::vector<int> L = {-1, -2, -3};
  for (int i = 0; i <= size; i++)
    if (i <= 64 || i % 97 == 0 || i >= size - 2) L.push_back(i);
  int l = c.pick(L, "limit");
  unlink(f.name.c_str());
  std::string name = l == -1 ? "/dev/full" : l == -2 ? f.dir : l == -3 ? f.dir + "/missing/x" : f.name;
  c.step("limit %d", l);
  mc::Fate r = mc::inChild([&] {
    signal(SIGXFSZ, SIG_IGN);
    int null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    if (l >= 0) {
      rlimit rl = {(rlim_t)l, (rlim_t)l};
      setrlimit(RLIMIT_FSIZE, &rl);
    }
    _exit(a.write(name, n) ? 83 : 84);
  });
  bool refusal = r.code == 84 || r.kind == mc::Fate::Checked || r.kind == mc::Fate::Threw;
  if (l >= size) c.check(r.code == 83, "%d samples are not written with room for %d of %d bytes", n, l, size);
  else c.check(refusal, "%d samples are not reported as failed at limit %d of %d: %s", n, l, size, r.text.c_str());
}
