// Systematic exploration of thread interleavings of instrumented code, with race detection.
#pragma once
#include <functional>
#include "mc.hpp"
namespace conc {
struct Program {
  int threads;
  std::function<void(int)> body;  // runs in each thread, with its number
  int preemptions;                // how often a thread may be stopped although it could go on
  int perPlace = 0;               // how often a thread can be stopped at one address (0: any number of times)
  int total = 0;                  // and altogether
};
//! Run one execution; the schedule is chosen through c.  Must be called inside c.forked().
void run(mc::Ctx& c, const Program& p);
}  // namespace conc
