#include "mc.hpp"
#include <glog/logging.h>

extern "C" const char* __asan_default_options() {
  return "exitcode=99:abort_on_error=0:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=6000:"
         "detect_stack_use_after_return=0:print_legend=0";
}

static void fatal() __attribute__((noreturn));
static void fatal() { _exit(77); }

int main(int argc, char** argv) {
  mc::childInit() = [] {
    FLAGS_logtostderr = true;
    FLAGS_minloglevel = 3;  // FATAL only
    google::InstallFailureFunction(&fatal);
  };
  return mc::runMain(argc, argv);
}
