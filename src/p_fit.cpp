// C01, C02, C03: what a fit guarantees at the knots, the ends and the junctions.
#include "gen.hpp"
using mc::Ctx;

static void knots(Ctx& c, const Fitted& f) {  // C01
  c.check(f.ok, "%s: fit refused valid data %s", f.what.c_str(), f.k.str().c_str());
  for (int j = 0; j < f.dims; j++) {
    Case q = f.comp(j);
    for (size_t i = 0; i < q.t.size(); i++) {
      double got = f.ev(0, j, q.t[i]);
      c.near(got, q.x[i], q.tol(0), "%s: component %d at knot %zu (t=%g) of %s", f.what.c_str(), j, i, q.t[i], q.str().c_str());
    }
    c.observe(f.ev(0, j, 0.5 * (q.t[0] + q.t[1])));
  }
}
static void ends(Ctx& c, const Fitted& f) {  // C02
  c.check(f.ok, "%s: fit refused valid data %s", f.what.c_str(), f.k.str().c_str());
  int e = effectiveKind(f.order, f.k.n(), f.kind);
  for (int j = 0; j < f.dims; j++) {
    Case q = f.comp(j);
    double a = q.t.front(), b = q.t.back();
    if (e >= 2) {
      c.near(f.ev(1, j, a), q.v0, q.tol(1), "%s: initial velocity of component %d of %s", f.what.c_str(), j, q.str().c_str());
      c.near(f.ev(1, j, b), q.vT, q.tol(1), "%s: final velocity of component %d of %s", f.what.c_str(), j, q.str().c_str());
    }
    if (e >= 3) {
      c.near(f.ev(2, j, a), q.a0, q.tol(2), "%s: initial acceleration of component %d of %s", f.what.c_str(), j, q.str().c_str());
      c.near(f.ev(2, j, b), q.aT, q.tol(2), "%s: final acceleration of component %d of %s", f.what.c_str(), j, q.str().c_str());
    }
    c.observe(f.ev(1, j, 0.5 * (q.t[0] + q.t[1])));
  }
}
static void joints(Ctx& c, const Fitted& f) {  // C03
  c.check(f.ok, "%s: fit refused valid data %s", f.what.c_str(), f.k.str().c_str());
  int e = effectiveKind(f.order, f.k.n(), f.kind);
  int maxD = e >= 2 ? 2 : 0;
  const char* nm[3] = {"position", "velocity", "acceleration"};
  for (int j = 0; j < f.dims; j++) {
    Case q = f.comp(j);
    for (int i = 1; i < q.n(); i++) {
      double tm = std::max(std::fabs(q.t.front()), std::fabs(q.t.back()));
      double h = std::max(std::min(q.t[i] - q.t[i - 1], q.t[i + 1] - q.t[i]) * std::ldexp(1.0, -38), std::ldexp(tm, -49));
      for (int d = 0; d <= maxD; d++) {
        double l = f.ev(d, j, q.t[i] - h), r = f.ev(d, j, q.t[i] + h);
        // Over 2h a smooth curve moves by a multiple of h times the scale of its derivative.
        c.near(l, r, q.tol(d) + 4 * h * std::max(q.mag[d + 1], 256 * q.scale(d + 1)), "%s: %s jumps at the junction t=%g, component %d of %s", f.what.c_str(), nm[d], q.t[i], j,
               q.str().c_str());
      }
      c.observe(f.ev(1, j, q.t[i]));
    }
  }
  if (f.cont) {
    Case q0 = f.comp(0);
    // The same on the pieces themselves: the end of each one against the beginning of the next.
    c.check((int)f.cont->nSplines() == f.k.n(), "%s: %zu pieces for %d intervals", f.what.c_str(), f.cont->nSplines(), f.k.n());
    for (int i = 0; i + 1 < f.k.n(); i++)
      for (int d = 0; d <= maxD; d++) {
        double D = f.cont->splDuration(i);
        double l = d == 0 ? f.cont->splPos(i, D) : d == 1 ? f.cont->splVel(i, D) : f.cont->splAcc(i, D);
        double r = d == 0 ? f.cont->splPos(i + 1, 0) : d == 1 ? f.cont->splVel(i + 1, 0) : f.cont->splAcc(i + 1, 0);
        c.near(l, r, q0.tol(d), "%s: %s of piece %d at its end and of the next one at its start, %s", f.what.c_str(), nm[d], i,
               f.k.str().c_str());
      }
  }
}

typedef void (*Oracle)(Ctx&, const Fitted&);
static void family(Ctx& c, Oracle o, const std::vector<Way>& ws, Case (*gen)(Ctx&, int, bool), int n, bool rich) {
  const Way& w = c.pick(ws, "way of fitting");
  Case k = gen(c, n, rich);
  Fitted f = makeFit(w);
  c.step("%s on %s", f.what.c_str(), k.str().c_str());
  doFit(f, k);
  o(c, f);
}
static Case gScaled(Ctx& c, int n, bool) { return genScaled(c, n); }
static Case gMixed(Ctx& c, int n, bool) { return genMixed(c, n); }
static Case gNear(Ctx& c, int n, bool all) { return genNear(c, n, all); }
static Case gLong(Ctx& c, int, bool rich) { return genLong(c, rich); }
static Case gHuge(Ctx& c, int, bool rich) { return genHuge(c, rich); }
static const std::vector<Way>& hugeWays() {  // one component after the other: what a vector curve adds is covered by fewer segments
  static const std::vector<Way> v = [] {
    std::vector<Way> r = ways(true, false);
    for (const Way& w : ways(false, true))
      if ((w.dim == 0 && w.order == 5) || (w.dim == 3 && w.how == 0)) r.push_back(w);
    return r;
  }();
  return v;
}

static struct RegAll {
  void add(const char* p, Oracle o) {
    std::string id(p);
    auto W = [](bool a, bool b) { return [a, b] { static std::map<int, std::vector<Way>> m; auto& v = m[a * 2 + b]; if (v.empty()) v = ways(a, b); return &v; }; };
    auto all = W(true, true);
    mc::Reg(id, id + ".small", mc::QUICK,
            "every way of fitting x all data with up to 3 segments: durations {1/2,1,2} (also 1/16, 8 up to 2 segments), positions "
            "{0,1,-2}, start times {0,-3.5,1024.25}, end conditions from small sets",
            [=](Ctx& c) { family(c, o, *all(), genSmall, 3, false); });
    mc::Reg(id, id + ".scaled", mc::BOTH,
            "every way of fitting x time scales 1e-3..1e3 x value scales 1e-6..1e6 x up to 3 segments x shapes x end conditions x start times up to 1.5e9",
            [=](Ctx& c) { family(c, o, *all(), gScaled, 3, false); });
    mc::Reg(id, id + ".mixed", mc::QUICK, "every way of fitting x up to 3 segments with durations from {1e-6,1e-3,.02,1,30,1000,1e5} x shapes x end conditions",
            [=](Ctx& c) { family(c, o, *all(), gMixed, 3, false); });
    mc::Reg(id, id + ".near", mc::QUICK, "every way of fitting x up to 2 segments whose durations, positions and end conditions are nearly equal or nearly zero, 3 and 4 with nearly equal durations",
            [=](Ctx& c) { family(c, o, *all(), gNear, 4, false); });
    mc::Reg(id, id + ".near.deep", mc::THOROUGH, "as near with up to 3 segments", [=](Ctx& c) { family(c, o, *all(), gNear, 3, true); });
    mc::Reg(id, id + ".mixed.deep", mc::THOROUGH, "as mixed with up to 4 segments", [=](Ctx& c) { family(c, o, *all(), gMixed, 4, false); });
    mc::Reg(id, id + ".long", mc::QUICK,
            "every way of fitting x 4..101 segments x 4 time patterns x up to 6 value patterns x start times x end conditions",
            [=](Ctx& c) { family(c, o, *all(), gLong, 0, false); });
    mc::Reg(id, id + ".huge", mc::QUICK, "containers of every order and overload, and curves, x 11 numbers of segments from 127 to 300", [=](Ctx& c) { family(c, o, hugeWays(), gHuge, 0, false); });
    mc::Reg(id, id + ".huge.deep", mc::THOROUGH, "containers of every order and overload, and curves, x 20 numbers of segments from 110 to 513", [=](Ctx& c) { family(c, o, hugeWays(), gHuge, 0, true); });
    mc::Reg(id, id + ".small.deep", mc::THOROUGH,
            "as small, with up to 5 segments, three positions throughout and start time 1.5e9",
            [=](Ctx& c) { family(c, o, *all(), genSmall, 5, true); });
    mc::Reg(id, id + ".long.deep", mc::THOROUGH, "as long, with up to 128 segments and all value patterns",
            [=](Ctx& c) { family(c, o, *all(), gLong, 0, true); });
  }
  RegAll() {
    add("C01", knots);
    add("C02", ends);
    add("C03", joints);
  }
} regAll;
