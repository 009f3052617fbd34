// -DORDER=k: spline, container and scalar curve of that order.
#include "iface.hpp"
#include <curves/PolynomialSplineContainer.hpp>
#include <curves/PolynomialSplineScalarCurve.hpp>
#include <curves/polynomial_splines.hpp>
#include <curves/polynomial_splines_containers.hpp>

using namespace curves;
namespace {

typedef PolynomialSpline<ORDER> S;
typedef PolynomialSplineContainer<ORDER> C;
typedef PolynomialSplineScalarCurve<C> K;
enum { NC = ORDER + 1 };

SplineOptions opt(const Opt& o) { return SplineOptions(o.tf, o.pos0, o.posT, o.vel0, o.velT, o.acc0, o.accT); }

typename S::SplineCoefficients arr(const std::vector<double>& a) {
  typename S::SplineCoefficients r;
  for (int i = 0; i < NC; i++) r[i] = a.at(i);
  return r;
}

// Every way of asking for a time vector.
typedef Eigen::Matrix<double, 1, NC> Row;
template <typename F>
void viaRow(F f, double init, std::vector<double>& out) {
  Row r = Row::Constant(init);
  f(r);
  out.assign(r.data(), r.data() + NC);
}
template <typename F>
void viaBlock(F f, double init, std::vector<double>& out) {  // a row inside a larger matrix, as used for fitting
  Eigen::MatrixXd m = Eigen::MatrixXd::Constant(3, 2 * NC, init);
  f(m);
  out.clear();
  for (int i = 0; i < NC; i++) out.push_back(m(1, NC + i));
  for (int r = 0; r < 3; r++)
    for (int k = 0; k < 2 * NC; k++)
      if (!(r == 1 && k >= NC) && m(r, k) != init) out.push_back(1e300);  // wrote outside of the row
}
template <typename F>
void viaDyn(F f, double init, std::vector<double>& out) {
  Eigen::MatrixXd m = Eigen::MatrixXd::Constant(1, NC, init);
  f(m);
  out.assign(m.data(), m.data() + m.size());
}

struct SplImpl : Spl {
  S s;
  int order() const override { return ORDER; }
  bool compute(const Opt& o, int how) override {
    SplineOptions op = opt(o);
    switch (how) {
      case 0: return s.computeCoefficients(op);
      case 1: return s.computeCoefficients(opt(o));
      case 2: s = S(op); return true;
      default: s = S(opt(o)); return true;
    }
  }
  void setCoeffs(const std::vector<double>& a, double d, int how) override {
    auto c = arr(a);
    switch (how) {
      case 0: s.setCoefficientsAndDuration(c, d); break;
      case 1: s = S(c, d); break;
      case 2: s = S(arr(a), d); break;
      default:
        s.setCoefficientsAndDuration(typename S::SplineCoefficients(), d);
        *s.getCoefficientsPtr() = c;
    }
  }
  std::vector<double> coeffs() const override {
    auto& c = s.getCoefficients();
    return std::vector<double>(c.begin(), c.end());
  }
  double duration() const override { return s.getSplineDuration(); }
  double pos(double t) const override { return s.getPositionAtTime(t); }
  double vel(double t) const override { return s.getVelocityAtTime(t); }
  double acc(double t) const override { return s.getAccelerationAtTime(t); }
  std::unique_ptr<Spl> copy(int how) override {
    std::unique_ptr<SplImpl> r(new SplImpl);
    switch (how) {
      case 0: { S x(s); r->s = std::move(x); break; }
      case 1: r->s = s; break;
      case 2: { S x(s); S y(std::move(x)); r->s = y; break; }
      case 3: { S x(s); r->s = std::move(x); break; }
      case 4: { S* p = &s; s = *p; r->s = s; break; }
      default: {  // onto a spline that describes something else, of longer or shorter duration
        r->setCoeffs(std::vector<double>(NC, 9.75), how < 7 ? 1e9 : 1e-9, 0);
        if (how % 2) r->s = s;
        else { S x(s); r->s = std::move(x); }
      }
    }
    return std::move(r);
  }
  int variants(int d, bool z) const override {
    if (z) return 5;
    return 5;
  }
  void timeVector(int d, bool z, int v, double tk, double init, std::vector<double>& out, bool* add,
                  const char** name) const override {
    *add = v >= 3;
    static const char* nm[5] = {"get (row reference)", "get (row of a matrix)", "get (dynamic matrix)", "add (row of a matrix)",
                                "add (row vector)"};
    *name = nm[v];
#define TV(GETREF, GET, ADD, ...)                                                                  \
  switch (v) {                                                                                     \
    case 0: viaRow([&](Row& r) { S::GETREF(r __VA_ARGS__); }, init, out); break;                   \
    case 1: viaBlock([&](Eigen::MatrixXd& m) { S::GET(m.block<1, NC>(1, NC) __VA_ARGS__); }, init, out); break; \
    case 2: viaDyn([&](Eigen::MatrixXd& m) { S::GET(m __VA_ARGS__); }, init, out); break;          \
    case 3: viaBlock([&](Eigen::MatrixXd& m) { S::ADD(m.block<1, NC>(1, NC) __VA_ARGS__); }, init, out); break; \
    default: viaRow([&](Row& r) { S::ADD(r __VA_ARGS__); }, init, out); break;                     \
  }
#define COMMA ,
    if (!z) {
      if (d == 0) TV(getTimeVector, getTimeVector, addTimeVector, COMMA tk)
      else if (d == 1) TV(getDTimeVector, getDiffTimeVector, addDiffTimeVector, COMMA tk)
      else TV(getDDTimeVector, getDDiffTimeVector, addDDiffTimeVector, COMMA tk)
    } else {
      if (d == 0) TV(getTimeVectorAtZero, getTimeVectorAtZero, addTimeVectorAtZero, )
      else if (d == 1) TV(getDTimeVectorAtZero, getDiffTimeVectorAtZero, addDiffTimeVectorAtZero, )
      else TV(getDDTimeVectorAtZero, getDDiffTimeVectorAtZero, addDDiffTimeVectorAtZero, )
    }
  }
};

struct ContImpl : Cont {
  std::unique_ptr<C> p{new C};
  int order() const override { return ORDER; }
  bool setData(const std::vector<double>& t, const std::vector<double>& x) override { return p->setData(t, x); }
  bool setData(const std::vector<double>& t, const std::vector<double>& x, double v0, double vT) override {
    return p->setData(t, x, v0, vT);
  }
  bool setData(const std::vector<double>& t, const std::vector<double>& x, double v0, double a0, double vT,
               double aT) override {
    return p->setData(t, x, v0, a0, vT, aT);
  }
  bool addSpline(const std::vector<double>& a, double d, bool rvalue) override {
    if (rvalue) return p->addSpline(S(arr(a), d));
    S s(arr(a), d);
    return p->addSpline(s);
  }
  bool addSpline(const Opt& o) override { return p->addSpline(S(opt(o))); }
  bool advance(double dt) override { return p->advance(dt); }
  void setContainerTime(double t) override { p->setContainerTime(t); }
  bool reset() override { return p->reset(); }
  bool resetTime() override { return p->resetTime(); }
  bool reserve(unsigned n) override { return p->reserveSplines(n); }
  double duration() const override { return p->getContainerDuration(); }
  double time() const override { return p->getContainerTime(); }
  bool isEmpty() const override { return p->isEmpty(); }
  double pos() const override { return p->getPosition(); }
  double vel() const override { return p->getVelocity(); }
  double acc() const override { return p->getAcceleration(); }
  int index() const override { return p->getActiveSplineIndex(); }
  int indexAt(double t, double& off) const override { return p->getActiveSplineIndexAtTime(t, off); }
  double pos(double t) const override { return p->getPositionAtTime(t); }
  double vel(double t) const override { return p->getVelocityAtTime(t); }
  double acc(double t) const override { return p->getAccelerationAtTime(t); }
  double endPos() const override { return p->getEndPosition(); }
  double endVel() const override { return p->getEndVelocity(); }
  double endAcc() const override { return p->getEndAcceleration(); }
  bool checkContainer() const override { return p->checkContainer(); }
  size_t nSplines() const override { return p->getSplines().size(); }
  double splDuration(size_t i) const override { return p->getSplines().at(i).getSplineDuration(); }
  std::vector<double> splCoeffs(size_t i) const override {
    auto& c = p->getSpline((int)i)->getCoefficients();
    return std::vector<double>(c.begin(), c.end());
  }
  double splPos(size_t i, double t) const override { return p->getSplines().at(i).getPositionAtTime(t); }
  double splVel(size_t i, double t) const override { return p->getSplines().at(i).getVelocityAtTime(t); }
  double splAcc(size_t i, double t) const override { return p->getSplines().at(i).getAccelerationAtTime(t); }
  std::unique_ptr<Cont> clone() const override {
    std::unique_ptr<ContImpl> r(new ContImpl);
    r->p.reset(new C(*p));
    return std::move(r);
  }
  void assign(const Cont& o) override { *p = *static_cast<const ContImpl&>(o).p; }
};

struct CrvImpl : Crv {
  std::unique_ptr<K> p{new K};
  int order() const override { return ORDER; }
  int dim() const override { return 1; }
  static std::vector<double> flat(const V& x) {
    std::vector<double> r;
    for (auto& v : x) r.push_back(v.at(0));
    return r;
  }
  void fit(const std::vector<double>& t, const V& x) override { p->fitCurve(t, flat(x)); }
  int fitVariants() const override { return 1; }
  void fit(const std::vector<double>& t, const V& x, const std::vector<double>& v0, const std::vector<double>& a0,
           const std::vector<double>& vT, const std::vector<double>& aT, int) override {
    p->fitCurve(t, flat(x), v0.at(0), a0.at(0), vT.at(0), aT.at(0));
  }
  bool hasOptions() const override { return true; }
  void fit(const std::vector<Opt>& o) override {
    std::vector<SplineOptions> v;
    for (auto& x : o) v.push_back(opt(x));
    p->fitCurve(v);
  }
  void clear() override { p->clear(); }
  double minTime() const override { return p->getMinTime(); }
  double maxTime() const override { return p->getMaxTime(); }
  bool eval(std::vector<double>& x, double t) const override {
    x.assign(1, 0);
    return p->evaluate(x[0], t);
  }
  bool evalD(std::vector<double>& x, double t, unsigned d) const override {
    x.assign(1, 0);
    return p->evaluateDerivative(x[0], t, d);
  }
  std::unique_ptr<Crv> clone() const override {
    std::unique_ptr<CrvImpl> r(new CrvImpl);
    r->p.reset(new K(*p));
    return std::move(r);
  }
  void assign(const Crv& o) override { *p = *static_cast<const CrvImpl&>(o).p; }
};

struct Init {
  Init() {
    factories().spl.push_back([]() -> std::unique_ptr<Spl> { return std::unique_ptr<Spl>(new SplImpl); });
    factories().cont.push_back([]() -> std::unique_ptr<Cont> { return std::unique_ptr<Cont>(new ContImpl); });
    factories().crv.push_back([]() -> std::unique_ptr<Crv> { return std::unique_ptr<Crv>(new CrvImpl); });
  }
} init_;
}  // namespace
