// C07: the playback cursor of a container.
#include "gen.hpp"
#include <deque>
using mc::Ctx;
static std::vector<double> coeffs(int order, int seed) {
  std::vector<double> a;
  for (int i = 0; i <= order; i++) a.push_back(((seed * 7 + i * 5) % 11) - 5 + (i == order ? 16.0 * (seed % 13) : 0));
  return a;
}
namespace {
struct Model {  // what a user may assume: a time and a list of pieces
  double time = 0;
  std::vector<double> d;
  std::vector<int> seed;
  double T() const {
    double s = 0;
    for (double x : d) s += x;
    return s;
  }
};
struct Op {
  enum K { Advance, SetTime, ResetTime, Reset, Add, Fit, Bad, Reserve, Query } k;
  double v;
  int n;
};
std::string name(const Op& o) {
  static const char* n[] = {"advance", "setContainerTime", "resetTime", "reset", "addSpline", "setData", "setData(invalid)", "reserveSplines", "query at"};
  return mc::fmt("%s(%g)", n[o.k], o.v);
}
struct Sys {
  std::unique_ptr<Cont> s;
  Model m;
  int order, added = 0;
  explicit Sys(int o) : s(makeCont(o)), order(o) {}
  bool apply(Ctx& c, const Op& o) {
    c.step("%s", name(o).c_str());
    switch (o.k) {
      case Op::Advance: {
        bool can = !m.d.empty() && m.time < m.T();
        double before = s->time();
        bool r = s->advance(o.v);
        c.check(r == can, "advance(%g) at time %g of %g returned %d", o.v, m.time, m.T(), (int)r);
        if (can) m.time += o.v;
        else c.check(s->time() == before, "advance that returned false moved the time from %g to %g", before, s->time());
        break;
      }
      case Op::SetTime:
        s->setContainerTime(o.v);
        m.time = o.v;
        break;
      case Op::ResetTime:
        s->resetTime();
        m.time = 0;
        break;
      case Op::Reset:
        s->reset();
        m = Model();
        break;
      case Op::Add: {
        ++added;
        c.check(s->addSpline(coeffs(order, added), o.v, added % 2), "addSpline refused");
        m.d.push_back(o.v);
        m.seed.push_back(added);
        break;
      }
      case Op::Fit: {
        std::vector<double> t(1, 3.0), x(1, 1.0);
        m = Model();
        for (int i = 0; i < o.n; i++) {
          m.d.push_back(i % 2 ? 0.5 : o.v);
          t.push_back(t.back() + m.d.back());
          x.push_back(i % 3 - 2.0);
          m.seed.push_back(-1);
        }
        bool ok = o.n % 2 ? s->setData(t, x, 1, 2, -1, 0.5) : s->setData(t, x);
        c.check(ok, "setData refused valid data");
        break;
      }
      case Op::Bad: {
        std::vector<double> t = {0, 1, 1}, x = {1, 2, 3};
        c.check(!s->setData(t, x, 0, 0), "setData accepted equal times");
        m = Model();
        break;
      }
      case Op::Reserve: s->reserve(16); break;
      case Op::Query: {
        s->pos(o.v);
        s->vel(o.v + 0.5);
        double off;
        s->indexAt(o.v, off);
        s->endPos();
        s->checkContainer();
        break;
      }
    }
    return true;
  }
  //! The cursor reads exactly what a query at the container time reads.
  void verify(Ctx& c, const char* when) {
    double t = s->time();
    c.check(t == m.time, "%s: container time %.17g, expected %.17g", when, t, m.time);
    c.check(s->isEmpty() == m.d.empty(), "%s: isEmpty", when);
    c.check(s->duration() == m.T(), "%s: duration %.17g, expected %.17g", when, s->duration(), m.T());
    double e[3] = {s->pos(t), s->vel(t), s->acc(t)}, g[3] = {s->pos(), s->vel(), s->acc()};
    const char* nm[3] = {"getPosition", "getVelocity", "getAcceleration"};
    for (int i = 0; i < 3; i++)
      c.near(g[i], e[i], 1e-9 * (1 + std::fabs(e[i])), "%s: %s() at time %.17g of %.17g", when, nm[i], t, m.T());
    if (!m.d.empty() && t < m.T() && t >= 0) {
      // independent of the lookup in the container
      int i = 0;
      double off = 0;
      while (t - off >= m.d[i]) off += m.d[i++];
      c.check(s->index() == i, "%s: active spline %d at time %.17g, expected %d", when, s->index(), t, i);
      double w[3] = {s->splPos(i, t - off), s->splVel(i, t - off), s->splAcc(i, t - off)};
      for (int k = 0; k < 3; k++) c.near(g[k], w[k], 1e-9 * (1 + std::fabs(w[k])), "%s: %s() is not that of piece %d at %.17g", when, nm[k], i, t - off);
    }
    c.observe(g[0]);
  }
};
const std::vector<Op>& ops() {
  static const std::vector<Op> o = {
      {Op::Advance, 0.25, 0}, {Op::Add, 1, 0},       {Op::Advance, 1, 0},   {Op::SetTime, 0.5, 0}, {Op::Add, 0.5, 0},  {Op::Advance, 1.75, 0}, {Op::Fit, 1, 3},
      {Op::SetTime, 1.5, 0},  {Op::SetTime, -1, 0},  {Op::SetTime, 4, 0},   {Op::ResetTime, 0, 0}, {Op::Reset, 0, 0},  {Op::Advance, 0, 0},    {Op::Fit, 0.5, 2},
      {Op::Bad, 0, 0},        {Op::Advance, 1e7, 0}, {Op::Reserve, 0, 0},   {Op::Query, 0.75, 0},  {Op::SetTime, 1, 0},   {Op::Advance, -0.75, 0},
  };
  return o;
}
void histories(Ctx& c, int depth, bool allOrders, int nOps, int start) {
  int order = allOrders ? 1 + c.choose(5, "order") : 3;
  Sys s(order);
  if (start) {
    for (double d : {0.5, 1.0, 0.25, 2.0}) s.apply(c, {Op::Add, d, 0});
  }
  for (int i = 0; i < depth; i++) {
    s.apply(c, ops()[c.choose(nOps, "operation")]);
    s.verify(c, "after the operation");
  }
}
}  // namespace
SCENARIO("C07", "C07.histories", mc::QUICK, "all histories of 5 of 20 operations on a cubic container, empty at first") { histories(c, 5, false, 20, 0); }
SCENARIO("C07", "C07.orders", mc::QUICK, "orders 1..5 x all histories of 3 of 20 operations, from empty") { histories(c, 3, true, 20, 0); }
SCENARIO("C07", "C07.playback", mc::QUICK, "all histories of 4 of 20 operations on a container of 4 pieces") { histories(c, 4, false, 20, 1); }
SCENARIO("C07", "C07.histories.deep", mc::THOROUGH, "all histories of 6 of 20 operations, from empty") { histories(c, 6, false, 20, 0); }
SCENARIO("C07", "C07.playback.deep", mc::THOROUGH, "all histories of 5 of 20 operations on a container of 4 pieces") { histories(c, 5, false, 20, 1); }
SCENARIO("C07", "C07.histories.deeper", mc::THOROUGH, "all histories of 7 of the first 12 operations, from empty") { histories(c, 7, false, 12, 0); }
SCENARIO("C07", "C07.orders.deep", mc::THOROUGH, "orders 1..5 x all histories of 5 of 20 operations") { histories(c, 5, true, 20, 0); }

// All ways of stepping through a container with advance, whatever the step sizes.
static void stepping(Ctx& c, int nMax, int steps) {
  static const std::vector<double> D = {1, 0.5, 0.25}, S = {0.25, 0, 0.5, 1.25, 3, -0.5};
  int n = 1 + c.choose(nMax, "pieces");
  Sys s(3);
  for (int i = 0; i < n; i++) s.apply(c, {Op::Add, c.pick(D, "duration"), 0});
  for (int i = 0; i < steps; i++) {
    s.apply(c, {Op::Advance, c.pick(S, "dt"), 0});
    s.verify(c, "while stepping");
  }
}
SCENARIO("C07", "C07.stepping", mc::QUICK, "up to 4 pieces x durations {1,1/2,1/4} x all sequences of 5 steps from {-1/2,0,1/4,1/2,5/4,3}") { stepping(c, 4, 5); }
SCENARIO("C07", "C07.stepping.deep", mc::THOROUGH, "up to 5 pieces x all sequences of 7 steps") { stepping(c, 5, 7); }
SCENARIO("C07", "C07.long", mc::BOTH, "orders 1..5 x 1..40 fitted segments x step sizes {1/64,0.1,0.3,1,2.5,7} through the whole trajectory, jumps back and through again") {
  int order = 1 + c.choose(5, "order");
  static const std::vector<int> N = {1, 2, 3, 7, 8, 16, 40};
  static const std::vector<double> S = {1.0 / 64, 0.1, 0.3, 1, 2.5, 7};
  int n = c.pick(N, "segments");
  double dt = c.pick(S, "dt");
  int kind = 1 + c.choose(3, "end conditions");
  auto s = makeCont(order);
  Case k;
  k.t.push_back(0);
  k.x.push_back(0);
  for (int i = 0; i < n; i++) {
    k.t.push_back(k.t.back() + 0.25 * (1 + i % 4));
    k.x.push_back(i % 5 - 2.0);
  }
  c.step("fit %d segments of order %d", n, order);
  c.check(fitCont(*s, k, kind), "setData refused valid data");
  for (int round = 0; round < 3; round++) {
    if (round == 1) s->resetTime();
    if (round == 2) s->setContainerTime(k.T() * 0.4);
    double t = s->time();
    int guard = 0;
    while (t < k.T() && ++guard < 100000) {
      c.step("advance(%g)", dt);
      c.check(s->advance(dt), "advance refused at %g of %g", t, k.T());
      t += dt;
      c.check(s->time() == t, "time is %.17g, not %.17g", s->time(), t);
      double e[3] = {s->pos(t), s->vel(t), s->acc(t)}, g[3] = {s->pos(), s->vel(), s->acc()};
      for (int i = 0; i < (kind > 1 && order > 2 ? 3 : 1); i++)
        c.near(g[i], e[i], 1e-6 * k.scale(i), "order %d: derivative %d of the cursor at %.17g", order, i, t);
      c.observe(g[0]);
    }
    c.check(!s->advance(dt), "advance past the end");
    c.check(s->time() == t, "advance past the end moved the time");
    c.near(s->pos(), k.x.back(), 1e-6 * k.scale(0), "cursor at the end");
  }
}

// Explicit-state search: all states that operations on up to 3 pieces reach, until no new state appears.
// A state is (time, list of pieces, active index as reported); it is rebuilt by replaying its history.
static void closure(Ctx& c, int maxPieces, double maxTime) {
  int order = 1 + c.choose(5, "order");
  int start = c.choose(3, "start");
  static const std::vector<Op> o = {{Op::Advance, 0.25, 0}, {Op::Advance, 0.75, 0}, {Op::Advance, 2, 0}, {Op::Advance, 0, 0}, {Op::Advance, -0.5, 0},  {Op::SetTime, 0, 0}, {Op::SetTime, 0.75, 0},
                                    {Op::SetTime, -0.5, 0}, {Op::SetTime, 1.25, 0}, {Op::SetTime, 3, 0}, {Op::ResetTime, 0, 0}, {Op::Reset, 0, 0},   {Op::Add, 0.5, 0},
                                    {Op::Add, 1, 0}};
  std::set<std::vector<double>> seen;
  std::deque<std::vector<int>> todo;
  todo.push_back({});
  auto canon = [](const Sys& s) {
    std::vector<double> k = {s.s->time(), (double)s.s->index(), s.s->pos(), s.s->vel()};
    for (double d : s.m.d) k.push_back(d);
    return k;
  };
  auto build = [&](const std::vector<int>& h) {
    Sys s(order);
    for (int i = 0; i < start; i++) s.apply(c, {Op::Add, i ? 0.5 : 1.0, 0});
    s.added = 0;
    for (int i : h) {
      if (o[i].k == Op::Reset) s.added = 0;
      s.apply(c, o[i]);
      s.added = (int)s.m.d.size();  // pieces are a function of the state, not of the history
    }
    return s;
  };
  while (!todo.empty()) {
    auto h = todo.front();
    todo.pop_front();
    for (int i = 0; i < (int)o.size(); i++) {
      h.push_back(i);
      Sys s = build(h);
      s.verify(c, "in the search");
      if ((int)s.m.d.size() <= maxPieces && s.m.time <= maxTime && s.m.time >= -2 && seen.insert(canon(s)).second) {
        todo.push_back(h);
        c.observe((uint64_t)seen.size() * 64 + order);
      }
      h.pop_back();
    }
    c.slot_->stats.nodes++;
  }
  c.note("%zu states", seen.size());
}
SCENARIO("C07", "C07.closure", mc::QUICK, "orders 1..5: every state reachable with up to 2 pieces and times from -2 to 4, explicit-state search until no new state appears") {
  closure(c, 2, 4);
}
SCENARIO("C07", "C07.closure.deep", mc::THOROUGH, "as closure, with up to 3 pieces and times up to 8") { closure(c, 3, 8); }
