// -DDIM=n: vector space curve of that dimension.
#include "iface.hpp"
#include <curves/PolynomialSplineVectorSpaceCurve.hpp>

using namespace curves;
namespace {
typedef PolynomialSplineVectorSpaceCurve<PolynomialSplineQuintic, DIM> K;
typedef K::ValueType Val;
typedef K::DerivativeType Der;

struct CrvImpl : Crv {
  std::unique_ptr<K> p{new K};
  int order() const override { return 5; }
  int dim() const override { return DIM; }
  static Val val(const std::vector<double>& v) {
    Val r;
    for (int i = 0; i < DIM; i++) r(i) = v.at(i);
    return r;
  }
  static std::vector<Val> vals(const V& x) {
    std::vector<Val> r;
    for (auto& v : x) r.push_back(val(v));
    return r;
  }
  void fit(const std::vector<double>& t, const V& x) override { p->fitCurve(t, vals(x)); }
  int fitVariants() const override { return 2; }
  void fit(const std::vector<double>& t, const V& x, const std::vector<double>& v0, const std::vector<double>& a0,
           const std::vector<double>& vT, const std::vector<double>& aT, int how) override {
    if (how == 0) {
      p->fitCurve(t, vals(x), val(v0), val(a0), val(vT), val(aT));
    } else {
      // Only the derivatives at the ends are used; the others are given values that would show.
      std::vector<Der> d1(t.size(), Der::Constant(17.0)), d2(t.size(), Der::Constant(-23.0));
      if (!t.empty()) {
        d1.front() = val(v0);
        d1.back() = val(vT);
        d2.front() = val(a0);
        d2.back() = val(aT);
      }
      p->fitCurve(t, vals(x), d1, d2);
    }
  }
  bool hasOptions() const override { return false; }
  void fit(const std::vector<Opt>&) override {}
  void clear() override { p->clear(); }
  double minTime() const override { return p->getMinTime(); }
  double maxTime() const override { return p->getMaxTime(); }
  bool eval(std::vector<double>& x, double t) const override {
    Val v = Val::Constant(-12345.0);
    bool ok = p->evaluate(v, t);
    x.assign(v.data(), v.data() + DIM);
    return ok;
  }
  bool evalD(std::vector<double>& x, double t, unsigned d) const override {
    Der v = Der::Constant(-12345.0);
    bool ok = p->evaluateDerivative(v, t, d);
    x.assign(v.data(), v.data() + DIM);
    return ok;
  }
  std::unique_ptr<Crv> clone() const override {
    std::unique_ptr<CrvImpl> r(new CrvImpl);
    r->p.reset(new K(*p));
    return std::move(r);
  }
  void assign(const Crv& o) override { *p = *static_cast<const CrvImpl&>(o).p; }
};
struct Init {
  Init() {
    factories().crv.push_back([]() -> std::unique_ptr<Crv> { return std::unique_ptr<Crv>(new CrvImpl); });
  }
} init_;
}  // namespace
