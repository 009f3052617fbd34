// Families of knot data for the spline checks.
#pragma once
#include "iface.hpp"
#include "mc.hpp"

struct Case {
  std::vector<double> t, x;
  double v0 = 0, a0 = 0, vT = 0, aT = 0;
  int only = -1;                 // if set: all other components (modulo 3) are zero
  bool wild = false;             // the curve may leave the range of the data by far: see measure()
  double mag[4] = {0, 0, 0, 0};  // magnitudes seen on the fitted curve
  int n() const { return (int)t.size() - 1; }
  double T() const { return t.back() - t.front(); }
  // Natural scales of position, velocity and acceleration, for tolerances.
  double scale(int d) const {
    double m = 0, lo = 1e300, hi = 0;
    for (double v : x) m = std::max(m, std::fabs(v));
    for (int i = 0; i < n(); i++) {
      lo = std::min(lo, t[i + 1] - t[i]);
      hi = std::max(hi, t[i + 1] - t[i]);
    }
    // An end condition acts over its own segment.
    double first = n() > 0 ? t[1] - t[0] : 0, last = n() > 0 ? t[n()] - t[n() - 1] : 0;
    double s = std::max(m, std::max(std::max(std::fabs(v0) * first, std::fabs(vT) * last),
                                    std::max(std::fabs(a0) * first * first, std::fabs(aT) * last * last)));
    (void)hi;
    s = std::max(s, 1e-9);
    return d == 0 ? s : d == 1 ? s / lo : d == 2 ? s / (lo * lo) : s / (lo * lo * lo);
  }
  double rel = 1e-9;
  //! A small part of what is usual for this derivative, and what the rounding of the times themselves may cause.
  double tol(int d) const {
    double tm = 0;
    for (double v : t) tm = std::max(tm, std::fabs(v));
    return rel * std::max(scale(d), mag[d]) + 16 * 2.3e-16 * tm * std::max(scale(d + 1), mag[d + 1]);
  }
  std::string str() const {
    std::string s = "t=[";
    for (double v : t) s += mc::fmt("%g ", v);
    s += "] x=[";
    for (double v : x) s += mc::fmt("%g ", v);
    return s + mc::fmt("] v0=%g a0=%g vT=%g aT=%g", v0, a0, vT, aT);
  }
};

//! Data of component j of a vector curve: distinct for every j, and derived from the scalar data.
inline Case component(const Case& k, int j) {
  Case r = k;
  if (k.only >= 0 && j % 3 != k.only) {
    for (double& x : r.x) x = 0;
    r.v0 = r.a0 = r.vT = r.aT = 0;
    return r;
  }
  if (j == 0) return k;
  double f = (j % 2 ? -1.0 : 1.0) * (1.0 + 0.5 * j);
  for (size_t i = 0; i < r.x.size(); i++) r.x[i] = k.x[i] * f + 0.25 * j * (double)(i % 3);
  r.v0 = k.v0 * f + 0.5 * j;
  r.a0 = k.a0 * f - 0.25 * j;
  r.vT = k.vT * f - 0.75 * j;
  r.aT = k.aT * f + 1.0 * j;
  return r;
}

struct Bc {
  double v0, a0, vT, aT;
};
inline const std::vector<Bc>& bcs() {
  static const std::vector<Bc> b = {{0, 0, 0, 0}, {1, 0, 0, 0},  {0, 1, 0, 0},      {0, 0, 1, 0},
                                    {0, 0, 0, 1}, {-1, 2, 0.5, 3}, {1, -3, -2, 0.25}, {-2, -1, -0.5, -3}};
  return b;
}
inline void setBc(Case& k, const Bc& b) {
  k.v0 = b.v0;
  k.a0 = b.a0;
  k.vT = b.vT;
  k.aT = b.aT;
}

//! Everything small: up to nMax segments, durations and positions from tiny sets, all start times.
inline Case genSmall(mc::Ctx& c, int nMax, bool rich) {
  Case k;
  int n = 1 + c.choose(nMax, "segments-1");
  static const std::vector<double> d5 = {1, 0.5, 2, 0.0625, 8}, d3 = {1, 0.5, 2}, d2 = {1, 0.25};
  static const std::vector<double> x3 = {0, 1, -2}, x2 = {0, 1};
  static const std::vector<double> s3 = {0, -3.5, 1024.25}, s2 = {0, -0.75}, s4 = {0, -3.5, 1024.25, 1.5e9};
  k.t.push_back(c.pick(n <= 2 ? (rich ? s4 : s3) : s2, "start"));
  const std::vector<double>& d = n <= 2 ? d5 : n == 3 || (rich && n <= 4) ? d3 : d2;
  for (int i = 0; i < n; i++) k.t.push_back(k.t.back() + c.pick(d, "duration"));
  const std::vector<double>& x = n <= 3 || rich ? x3 : x2;
  for (int i = 0; i <= n; i++) k.x.push_back(c.pick(x, "position"));
  if (n == 1) {
    static const std::vector<double> e = {0, 1, -2};
    k.v0 = c.pick(e, "v0");
    k.vT = c.pick(e, "vT");
    k.a0 = c.pick(e, "a0");
    k.aT = c.pick(e, "aT");
  } else if (n == 2) {
    setBc(k, c.pick(bcs(), "end conditions"));
  } else {
    static const std::vector<Bc> b = {bcs()[5], bcs()[0]};
    setBc(k, n == 3 || rich ? c.pick(b, "end conditions") : b[0]);
  }
  return k;
}

//! The same shapes at other magnitudes of time and value.
inline Case genScaled(mc::Ctx& c, int nMax) {
  Case k;
  k.rel = 1e-9;
  static const std::vector<double> ts = {1.0 / 60, 0.123456789123, 1, 64, 1000.1, 0.00123456, 1.1e-7, 1e6 / 3}, xs = {1.1e-6, 1e-3 / 3, 1, 1e3 / 7, 1e6},
                                   starts = {0, -4e7 - 0.3, 100000.1, 1.5e9 + 0.3};
  double f = c.pick(ts, "time scale"), g = c.pick(xs, "value scale");
  int n = 1 + c.choose(nMax, "segments-1");
  static const std::vector<double> d = {1, 0.5, 3};
  static const std::vector<std::vector<double>> shapes = {
      {1, 1, 1, 1, 1, 1}, {0, 1, 0, -1, 0, 1}, {-3, 2, 2, 5, -1, 0}, {100, 101, 102, 103, 104, 105}};
  // Short segments far from time zero could not be told apart.
  double start = c.pick(starts, "start");
  k.t.push_back(f < 1e-3 ? start * f : start);
  for (int i = 0; i < n; i++) k.t.push_back(k.t.back() + f * c.pick(d, "duration"));
  const std::vector<double>& sh = c.pick(shapes, "shape");
  for (int i = 0; i <= n; i++) k.x.push_back(g * sh[i]);
  static const std::vector<Bc> b = {bcs()[0], bcs()[5], bcs()[6]};
  Bc q = c.pick(b, "end conditions");
  k.v0 = q.v0 * g / f;
  k.vT = q.vT * g / f;
  k.a0 = q.a0 * g / f / f;
  k.aT = q.aT * g / f / f;
  return k;
}

//! Segments whose durations differ by orders of magnitude.
inline Case genMixed(mc::Ctx& c, int nMax) {
  Case k;
  k.wild = true;
  k.rel = 1e-9;
  static const std::vector<double> d = {1e-3, 0.02, 1, 30, 1000, 1e-6, 1e5};
  static const std::vector<std::vector<double>> shapes = {{0, 1, 0, -1, 0}, {-3, 2, 2, 5, -1}, {100, 101, 102, 103, 104}};
  int n = 1 + c.choose(nMax, "segments-1");
  k.t.push_back(0);
  for (int i = 0; i < n; i++) k.t.push_back(k.t.back() + c.pick(d, "duration"));
  const std::vector<double>& sh = c.pick(shapes, "shape");
  for (int i = 0; i <= n; i++) k.x.push_back(sh[i]);
  double lo = 1e9;
  for (int i = 0; i < n; i++) lo = std::min(lo, k.t[i + 1] - k.t[i]);
  static const std::vector<Bc> b = {bcs()[0], bcs()[5]};
  Bc q = c.pick(b, "end conditions");
  double f = k.t[1] - k.t[0], g = k.t[n] - k.t[n - 1];
  k.v0 = q.v0 / f;
  k.vT = q.vT / g;
  k.a0 = q.a0 / f / f;
  k.aT = q.aT / g / g;
  return k;
}

//! Durations, positions and end conditions that are nearly but not quite equal or zero.
inline Case genNear(mc::Ctx& c, int nMax, bool all = true) {
  Case k;
  static const std::vector<double> d = {1, 1 + 1e-7, 1 - 1e-5, 1 + 4e-4, 1.02}, x = {0, 1, 1 + 1e-6, 1 - 3e-4, 1e-5, -2e-3}, y = {0, 1 - 3e-4, 1e-5}, s = {0, -2e-4};
  static const std::vector<Bc> b = {{1e-4, -2e-6, 3e-5, 4e-3}, {1, 1 + 1e-5, 1 - 1e-6, 1 + 2e-3}, {0, 1e-5, 0, -1e-4}};
  int n = 1 + c.choose(nMax, "segments-1");
  if (n > 2 && !all) {  // of longer data, only the durations vary
    k.t.push_back(0);
    for (int i = 0; i < n; i++) k.t.push_back(k.t.back() + c.pick(d, "duration"));
    k.x = c.flip("nearly equal positions") ? std::vector<double>{1, 1 + 1e-6, 1 - 3e-4, 1 + 2e-3, 1, 1.1} : std::vector<double>{0, 1, -2, 3, -1, 4};
    k.x.resize(n + 1);
    setBc(k, b[1]);
    return k;
  }
  k.t.push_back(c.pick(s, "start"));
  for (int i = 0; i < n; i++) k.t.push_back(k.t.back() + c.pick(d, "duration"));
  for (int i = 0; i <= n; i++) k.x.push_back(c.pick(n > 1 ? y : x, "position"));
  setBc(k, c.pick(b, "end conditions"));
  return k;
}

//! Many segments.
inline Case genLong(mc::Ctx& c, bool rich, int fewAbove = 48) {
  Case k;
  static const std::vector<int> ns = {4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 32, 33, 48, 64, 101};
  static const std::vector<int> nr = {4,  5,  6,  7,  8,  9,  10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21,
                                      22, 23, 24, 25, 28, 31, 32, 33, 36, 40, 48, 50, 63, 64, 65, 80, 100, 128};
  int n = c.pick(rich ? nr : ns, "segments");
  bool few = n > fewAbove && !rich;
  int tp = few ? 3 : c.choose(4, "time pattern");
  static const std::vector<double> starts = {0, -20.5, 1000000};
  k.t.push_back(few ? -20.5 : c.pick(starts, "start"));
  double t0 = k.t[0];
  for (int i = 0; i < n; i++) {
    double d = tp == 0 ? 1.0 : tp == 1 ? (i % 2 ? 0.5 : 2.0) : tp == 2 ? 0.1 : 0.25 * (1 + (i * 5) % 7);
    k.t.push_back(tp == 2 ? t0 + 0.0987654321987 * (i + 1) : k.t.back() + d);
  }
  int xp = c.choose(few ? 1 : n <= 12 || rich ? 6 : 4, "value pattern");
  int m = xp == 4 || xp == 5 ? (n <= 24 ? n / 2 : 2) : 0;
  for (int i = 0; i <= n; i++)
    k.x.push_back(xp == 0   ? (i * 7) % 5 - 2.0
                  : xp == 1 ? 3.25
                  : xp == 2 ? i * 0.75 - 4
                  : xp == 3 ? (i == 0 ? 5.0 : i == n ? -7.0 : 0.0)
                  : xp == 4 ? (i == m ? 1.0 : 0.0)
                            : (i == n - 1 ? -3.0 : (i % 4) * 1.0));
  static const std::vector<Bc> b = {bcs()[5], bcs()[0], bcs()[6]};
  setBc(k, c.pick(b, "end conditions"));
  return k;
}

//! Very many segments, one pattern.
inline Case genHuge(mc::Ctx& c, bool rich) {
  Case k;
  static const std::vector<int> ns = {127, 128, 129, 150, 199, 200, 201, 255, 256, 257, 300}, nr = {110, 127, 128, 129, 150, 175, 199, 200, 201, 230, 255, 256, 257, 300, 350, 400, 450, 511, 512, 513};
  int n = c.pick(rich ? nr : ns, "segments");
  k.t.push_back(-3.25);
  for (int i = 0; i < n; i++) k.t.push_back(k.t.back() + 0.25 * (2 + (i * 5) % 7));
  for (int i = 0; i <= n; i++) k.x.push_back((i * 7) % 11 - 3.0);
  setBc(k, bcs()[5]);
  return k;
}

//! Which end conditions a fit of this order can honour (requested: 1 positions, 2 +velocities, 3 +accelerations).
inline int effectiveKind(int order, int n, int kind) {
  if (kind == 3 && 4 * (n - 1) + 6 > n * (order + 1)) kind = 2;
  if (kind == 2 && 4 * n > n * (order + 1)) kind = 1;
  return kind;
}

//! One fitted object, whatever its class, evaluated in absolute time.
struct Fitted {
  std::unique_ptr<Cont> cont;
  std::unique_ptr<Crv> crv;
  Case k;
  int order = 0, dims = 1, kind = 0, variant = 0;
  bool dflt = false;  // the overload without end conditions
  bool ok = true;
  std::string what;
  double t0() const { return k.t.empty() ? 0 : k.t.front(); }
  double ev(int d, int j, double t) const {
    if (cont) {
      double u = t - t0();
      return d == 0 ? cont->pos(u) : d == 1 ? cont->vel(u) : cont->acc(u);
    }
    std::vector<double> v;
    bool r = d == 0 ? crv->eval(v, t) : crv->evalD(v, t, d);
    if (!r) throw mc::Violation{mc::fmt("%s: evaluation of derivative %d at %g failed", what.c_str(), d, t)};
    return v.at(j);
  }
  Case comp(int j) const {
    Case r = component(k, j);
    if (dflt) r.v0 = r.a0 = r.vT = r.aT = 0;
    if (k.wild) {
      double lo = 1e300;
      for (int i = 0; i < r.n(); i++) {
        lo = std::min(lo, r.t[i + 1] - r.t[i]);
        for (int q = 0; q < 16; q++)
          for (int d = 0; d < 3; d++) r.mag[d] = std::max(r.mag[d], std::fabs(ev(d, j, r.t[i] + (r.t[i + 1] - r.t[i]) * q / 16.0)));
      }
      r.mag[3] = 10 * r.mag[2] / lo;
    }
    return r;
  }
};

inline void fitCrv(Crv& crv, const Case& k, int how /* -1: default overload */) {
  int D = crv.dim();
  Crv::V x(k.x.size(), std::vector<double>(D));
  std::vector<double> v0(D), a0(D), vT(D), aT(D);
  for (int j = 0; j < D; j++) {
    Case q = component(k, j);
    for (size_t i = 0; i < q.x.size(); i++) x[i][j] = q.x[i];
    v0[j] = q.v0;
    a0[j] = q.a0;
    vT[j] = q.vT;
    aT[j] = q.aT;
  }
  if (how < 0) crv.fit(k.t, x);
  else crv.fit(k.t, x, v0, a0, vT, aT, how);
}
inline bool fitCont(Cont& s, const Case& k, int kind) {
  return kind == 1 ? s.setData(k.t, k.x) : kind == 2 ? s.setData(k.t, k.x, k.v0, k.vT) : s.setData(k.t, k.x, k.v0, k.a0, k.vT, k.aT);
}

//! The ways of fitting: containers of every order with every overload, scalar and vector curves with theirs.
struct Way {
  int cls;  // 0 container, 1 curve
  int order, dim, kind, how;
};
inline std::vector<Way> ways(bool containers, bool curves) {
  std::vector<Way> r;
  if (containers)
    for (int o : {5, 3, 4, 1, 2})
      for (int kind : {3, 2, 1}) r.push_back({0, o, 0, kind, 0});
  if (curves)
    for (auto q : crvKinds()) {
      int vars = q.second ? 2 : 1;
      for (int h = 0; h < vars; h++) r.push_back({1, q.first, q.second, 3, h});
      r.push_back({1, q.first, q.second, 3, -1});
    }
  return r;
}
inline std::string wayName(const Way& w) {
  if (w.cls == 0)
    return mc::fmt("container of order %d, %s", w.order,
                   w.kind == 1 ? "positions" : w.kind == 2 ? "positions and end velocities" : "positions, end velocities and accelerations");
  return mc::fmt("%s curve of %s %d, %s", w.dim ? "vector" : "scalar", w.dim ? "dimension" : "order", w.dim ? w.dim : w.order,
                 w.how < 0 ? "default fit" : w.how == 0 ? "fit with end conditions" : "fit with lists of derivatives");
}
inline Fitted makeFit(const Way& w) {
  Fitted f;
  f.order = w.order;
  f.kind = w.kind;
  f.variant = w.how;
  f.what = wayName(w);
  if (w.cls == 0) f.cont = makeCont(w.order);
  else {
    f.crv = makeCrv(w.order, w.dim);
    f.dims = f.crv->dim();
    f.dflt = w.how < 0;
  }
  return f;
}
inline void doFit(Fitted& f, const Case& k) {
  f.k = k;
  if (f.cont) f.ok = fitCont(*f.cont, k, f.kind);
  else fitCrv(*f.crv, k, f.variant);
}
