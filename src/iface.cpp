#include "iface.hpp"
#include <algorithm>
#include <cstdlib>
Factories& factories() {
  static Factories f;
  return f;
}
std::unique_ptr<Cont> makeCont(int order) {
  for (auto f : factories().cont) {
    auto p = f();
    if (p->order() == order) return p;
  }
  abort();
}
std::unique_ptr<Spl> makeSpl(int order) {
  for (auto f : factories().spl) {
    auto p = f();
    if (p->order() == order) return p;
  }
  abort();
}
// Scalar curves are dim 0 in the kind list; a vector curve of dimension 1 is dim 1.
std::vector<std::pair<int, int>> crvKinds() {
  std::vector<std::pair<int, int>> r;
  for (auto f : factories().crv) {
    auto p = f();
    r.push_back({p->order(), p->hasOptions() ? 0 : p->dim()});
  }
  std::sort(r.begin(), r.end(), [](std::pair<int, int> a, std::pair<int, int> b) {
    return a.second != b.second ? a.second < b.second : a.first < b.first;
  });
  return r;
}
std::unique_ptr<Crv> makeCrv(int order, int dim) {
  for (auto f : factories().crv) {
    auto p = f();
    if (p->order() == order && (p->hasOptions() ? 0 : p->dim()) == dim) return p;
  }
  abort();
}
