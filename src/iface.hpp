// Type-erased access to the spline classes under test, one instance per order
// or dimension, so that scenarios need not be templates.  Every virtual function
// is exactly one call (or the one documented idiom) of the public API.
#pragma once
#include <memory>
#include <vector>

struct Opt {  // curves::SplineOptions
  double tf, pos0, posT, vel0, velT, acc0, accT;
};

struct Spl {  // curves::PolynomialSpline<order>
  virtual ~Spl() {}
  virtual int order() const = 0;
  //! how: 0 computeCoefficients(const&), 1 computeCoefficients(&&), 2 constructor(const&), 3 constructor(&&)
  virtual bool compute(const Opt& o, int how) = 0;
  //! how: 0 setCoefficientsAndDuration, 1 constructor from lvalue, 2 constructor from rvalue, 3 through getCoefficientsPtr
  virtual void setCoeffs(const std::vector<double>& a, double duration, int how) = 0;
  virtual std::vector<double> coeffs() const = 0;
  virtual double duration() const = 0;
  virtual double pos(double t) const = 0;
  virtual double vel(double t) const = 0;
  virtual double acc(double t) const = 0;
  //! how: 0 copy, 1 copy-assign, 2 move, 3 move-assign, 4 self-assign
  virtual std::unique_ptr<Spl> copy(int how) = 0;
  // Time vectors: derivative d in 0..2 at time tk, through every overload and kind of argument.
  virtual int variants(int d, bool atZero) const = 0;
  //! Fills out with what the call left in a vector that held `init` before; *add tells whether the call accumulates.
  virtual void timeVector(int d, bool atZero, int variant, double tk, double init, std::vector<double>& out, bool* add,
                          const char** name) const = 0;
};

struct Cont {  // curves::PolynomialSplineContainer<order>
  virtual ~Cont() {}
  virtual int order() const = 0;
  virtual bool setData(const std::vector<double>& t, const std::vector<double>& x) = 0;
  virtual bool setData(const std::vector<double>& t, const std::vector<double>& x, double v0, double vT) = 0;
  virtual bool setData(const std::vector<double>& t, const std::vector<double>& x, double v0, double a0, double vT, double aT) = 0;
  virtual bool addSpline(const std::vector<double>& a, double duration, bool rvalue) = 0;
  virtual bool addSpline(const Opt& o) = 0;
  virtual bool advance(double dt) = 0;
  virtual void setContainerTime(double t) = 0;
  virtual bool reset() = 0;
  virtual bool resetTime() = 0;
  virtual bool reserve(unsigned n) = 0;
  virtual double duration() const = 0;
  virtual double time() const = 0;
  virtual bool isEmpty() const = 0;
  virtual double pos() const = 0;
  virtual double vel() const = 0;
  virtual double acc() const = 0;
  virtual int index() const = 0;
  virtual int indexAt(double t, double& off) const = 0;
  virtual double pos(double t) const = 0;
  virtual double vel(double t) const = 0;
  virtual double acc(double t) const = 0;
  virtual double endPos() const = 0;
  virtual double endVel() const = 0;
  virtual double endAcc() const = 0;
  virtual bool checkContainer() const = 0;
  virtual size_t nSplines() const = 0;
  virtual double splDuration(size_t i) const = 0;
  virtual std::vector<double> splCoeffs(size_t i) const = 0;
  virtual double splPos(size_t i, double t) const = 0;
  virtual double splVel(size_t i, double t) const = 0;
  virtual double splAcc(size_t i, double t) const = 0;
  virtual std::unique_ptr<Cont> clone() const = 0;
  virtual void assign(const Cont& o) = 0;
};

struct Crv {  // PolynomialSplineScalarCurve<container> or PolynomialSplineVectorSpaceCurve<.., N>
  virtual ~Crv() {}
  virtual int order() const = 0;
  virtual int dim() const = 0;
  typedef std::vector<std::vector<double>> V;  // one vector of dim() entries per knot
  //! default fit: zero end velocities and accelerations
  virtual void fit(const std::vector<double>& t, const V& x) = 0;
  //! how: 0 end conditions as arguments, 1 lists of derivatives per knot (vector curve only)
  virtual int fitVariants() const = 0;
  virtual void fit(const std::vector<double>& t, const V& x, const std::vector<double>& v0, const std::vector<double>& a0,
                   const std::vector<double>& vT, const std::vector<double>& aT, int how) = 0;
  virtual bool hasOptions() const = 0;
  virtual void fit(const std::vector<Opt>& o) = 0;
  virtual void clear() = 0;
  virtual double minTime() const = 0;
  virtual double maxTime() const = 0;
  virtual bool eval(std::vector<double>& x, double t) const = 0;
  virtual bool evalD(std::vector<double>& x, double t, unsigned d) const = 0;
  virtual std::unique_ptr<Crv> clone() const = 0;
  virtual void assign(const Crv& o) = 0;
};

struct Factories {
  std::vector<std::unique_ptr<Spl> (*)()> spl;
  std::vector<std::unique_ptr<Cont> (*)()> cont;  // sorted by order on use
  std::vector<std::unique_ptr<Crv> (*)()> crv;
};
Factories& factories();

std::unique_ptr<Cont> makeCont(int order);
std::unique_ptr<Spl> makeSpl(int order);
//! Names of the curve kinds: "scalar<order>" and "vector<dim>".
std::vector<std::pair<int, int>> crvKinds();  // (order, dim); dim 0 means scalar
std::unique_ptr<Crv> makeCrv(int order, int dim);
