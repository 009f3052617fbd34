#include "conc_man.hpp"
#include <curves/KeyGenerator.hpp>
#include <curves/LocalSupport2CoefficientManager.hpp>
#include <curves/helpers.hpp>
namespace {
typedef curves::LocalSupport2CoefficientManager<Eigen::Vector2d> Man;
struct Impl : ManApi {
  Man m;
  static Eigen::Vector2d v(double x) { return Eigen::Vector2d(x, -x); }
  void work(int who, std::vector<double>& out, std::vector<size_t>* keys) override {
    std::vector<size_t> k;
    k.push_back(m.insertCoefficient(1.0 + who, v(who)));
    m.insertCoefficients({5.0, 3.0 + 10 * who}, {v(1), v(2)}, &k);
    m.addCoefficientAtEnd(100 + who, v(3), &k);
    m.updateCoefficientByKey(k[1], v(7 + who));
    m.modifyCoefficient(--m.coefficientEnd(), 200 + who, v(8));
    m.removeCoefficientWithKey(k[0]);
    m.modifyCoefficientsValuesInBatch({5.0}, {v(9)});
    if (keys) *keys = k;
    queries(who, out);
  }
  void copyAndWork(int who, std::vector<double>& out) const override {
    Man c(m);
    c.insertCoefficient(1000 + who, v(who));
    c.removeCoefficientAtTime(c.getMinTime());
    std::vector<curves::Time> t;
    c.getTimes(&t);
    for (double x : t) out.push_back(x);
    Man d;
    d = c;
    out.push_back(d.size());
    out.push_back(d.equals(c));
  }
  void queries(int who, std::vector<double>& out) const override {
    std::vector<curves::Time> t;
    m.getTimes(&t);
    for (double x : t) {
      out.push_back(x);
      out.push_back(m.hasCoefficientAtTime(x));
    }
    std::vector<curves::Key> k;
    m.getKeys(&k);
    m.appendKeys(&k);
    for (auto q : k) {
      out.push_back(m.getCoefficientByKey(q)[0]);
      out.push_back(m.getCoefficientTimeByKey(q));
      out.push_back(m.hasCoefficientWithKey(q));
    }
    Man::CoefficientIter a, b;
    for (double x : {4.0, 6.0 + who, 150.0, -1.0, 1e4}) {
      bool ok = m.getCoefficientsAt(x, &a, &b);
      out.push_back(ok);
      if (ok) out.push_back(a->first + b->first + a->second.coefficient[1]);
    }
    Man::CoefficientMap r;
    m.getCoefficientsInRange(4, 50 + who, &r);
    out.push_back(r.size());
    m.getCoefficients(&r);
    out.push_back(r.size());
    m.getTimesInWindow(&t, m.getMinTime(), m.getMaxTime());
    out.push_back(t.size());
    out.push_back(m.getMinTime());
    out.push_back(m.getMaxTime());
    out.push_back(m.empty());
    out.push_back(m.equals(m));
    m.checkInternalConsistency();
  }
};
}  // namespace
ManApi* ManApi::make() { return new Impl; }
size_t nextKey() { return curves::KeyGenerator::getNextKey(); }
void csvWork(const std::string& f, int who, std::vector<double>& out) {
  std::vector<curves::Time> t = {0.5, 1.0 / 3 + who}, r;
  std::vector<Eigen::VectorXd> v(2, Eigen::VectorXd::Constant(3 + who, 0.1 * (who + 1))), w;
  curves::writeTimeVectorCSV(f, t, v);
  curves::loadTimeVectorCSV(f, &r, &w);
  for (double x : r) out.push_back(x);
  for (auto& x : w)
    for (int i = 0; i < x.size(); i++) out.push_back(x[i]);
  std::vector<std::vector<std::string>> s = curves::loadCSV(f);
  s[0][0] = std::string(1 + who, 'x');
  curves::writeCSV(f, s);
  s = curves::loadCSV(f);
  out.push_back(s.size());
  out.push_back(s[0][0].size());
}
