"""What is compiled for which property."""
NEEDS_KINDR = {"CubicHermiteSE3Curve.cpp", "CubicHermiteE3Curve.cpp", "SlerpSE3Curve.cpp", "SE3Curve.cpp"}
BASE = ["-std=c++14", "-g1", "-w", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"]


class Harness:
    def __init__(self, name, sources, opt, library="plain", cxx="g++", inc=(), link=(), libs=(), lib_opt=None, instrument_only=False):
        self.name, self.sources, self.opt, self.library, self.cxx = name, sources, list(opt), library, cxx
        self.inc, self.link = list(inc), list(link) + [o for o in opt if o.startswith("-fsanitize") and not instrument_only]
        self.libs = list(libs) + ["-lglog", "-lboost_thread", "-lboost_system", "-lpthread"]
        self.lib_opt = self.opt if lib_opt is None else list(lib_opt)

    def incs(self, R, V):
        return ["-I" + i.format(R=R, V=V) for i in self.inc] + ["-I%s/curves/include" % R, "-I/usr/include/eigen3", "-I%s/src" % V]

    def flags(self, R, V):
        return BASE + self.opt + self.incs(R, V)

    def libflags(self, R, V):
        return BASE + self.lib_opt + self.incs(R, V)


ASAN = ["-O1", "-fsanitize=address"]
O2 = ["-O2"]
# A failed assertion is not a refusal that a user can rely on: built without them.
BARE = ASAN + ["-DNDEBUG", "-U_GLIBCXX_ASSERTIONS"]
IFACE = [("{V}/src/iface_order.cpp", ["-DORDER=%d" % o]) for o in (3, 4, 5, 1, 2)] + \
        [("{V}/src/iface_vec.cpp", ["-DDIM=%d" % d]) for d in (1, 3, 6)] + ["{V}/src/iface.cpp", "{V}/src/main.cpp"]


def spl(name, files, opt):
    return Harness(name, IFACE + ["{V}/src/%s.cpp" % f for f in files], opt)


NUM = ["IEEE double arithmetic as compiled by g++ 13 for x86-64", "data values and operation sequences outside the stated alphabets are not explored"]
SEQ = ["sequential use", "data values and operation sequences outside the stated alphabets are not explored"]
HARNESS, INFO = {}, {}


def reg(prop, hs, **info):
    HARNESS[prop] = hs
    INFO[prop] = info


def for_property(p):
    return HARNESS.get(p, [])


for p in ("C01", "C02", "C03"):
    reg(p, [spl("fit", ["p_fit"], O2)], assumptions=NUM)
for p in ("C04", "C05"):
    reg(p, [spl("spline", ["p_spline"], O2)], assumptions=NUM)
for p in ("C06", "C08", "C24"):
    reg(p, [spl("query", ["p_query"], O2)], assumptions=NUM)
reg("C07", [spl("cursor", ["p_cursor"], ASAN)], assumptions=SEQ)
reg("C09", [spl("history", ["p_history"], ASAN)], assumptions=SEQ)
reg("C10", [spl("history", ["p_history"], ASAN)], assumptions=SEQ)
reg("C11", [spl("history", ["p_history"], O2)], assumptions=NUM)
reg("C23", [Harness("misuse", ["{V}/src/p_manager.cpp", "{V}/src/main.cpp"], BARE)], assumptions=SEQ)
for p in ("C12", "C13", "C14"):
    reg(p, [Harness("manager", ["{V}/src/p_manager.cpp", "{V}/src/main.cpp"], ASAN)], assumptions=SEQ)
CSV = [Harness("csv", ["{V}/src/p_csv.cpp", "{V}/src/main.cpp"], O2)]
reg("C17", CSV, assumptions=NUM)
reg("C18", CSV, level="fault_enumeration",
    technique="exhaustive fault enumeration on the compiled code: every system call of every save and load, with every failure, injected with a seccomp filter",
    assumptions=["the operating system reports failures through the results of system calls", "file contents and shapes outside of the stated ones are not explored"])

# Thread checks: the code under test is instrumented by clang, and linked with src/conc_rt.cpp instead of the thread sanitizer.
WRAP = ["pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock",
        "pthread_spin_lock", "pthread_spin_unlock", "pthread_once", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "sched_yield",
        "malloc", "calloc", "realloc", "posix_memalign", "aligned_alloc"]
NOTSAN = ["-fno-sanitize=thread"]
CONC = Harness("conc", [("{V}/src/iface_order.cpp", ["-DORDER=%d" % o]) for o in (3, 4, 5, 1, 2)] + [("{V}/src/iface_vec.cpp", ["-DDIM=%d" % d]) for d in (1, 3, 6)] +
               ["{V}/src/conc_man.cpp"] + [("{V}/src/%s.cpp" % f, NOTSAN) for f in ("iface", "main", "conc_rt", "p_conc")],
               ["-O1", "-fsanitize=thread"], cxx="clang++", link=["-rdynamic"] + ["-Wl,--wrap=" + w for w in WRAP], instrument_only=True, libs=["-ldl"])
KEYS = Harness("keys", ["{V}/src/p_keys.cpp", "{V}/src/main.cpp"], O2,
               link=["-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock"])
SCHED = ["sequentially consistent execution of atomic operations", "code inside of the C and C++ run-time libraries is not instrumented and taken to be thread-safe",
         "schedules with more preemptions or threads, and work outside of the stated pieces, are not explored"]
SCHEDTECH = "stateless model checking of the compiled code: all thread schedules up to a preemption bound under a controlled scheduler, with vector-clock race detection"
reg("C15", [CONC, KEYS], assumptions=SCHED, technique=SCHEDTECH)
reg("C16", [CONC], assumptions=SCHED, technique=SCHEDTECH)

# Curves that need kindr or ROS: built with the stand-ins in shim/.
SHIM = ["the stand-in for kindr (shim/kindr, checked by bin/shimtest) follows kindr's conventions"]
HERM = Harness("hermite", ["{V}/src/p_hermite.cpp", "{V}/src/main.cpp"], O2, library="all", inc=["{V}/shim"])
for p in ("C19", "C20"):
    reg(p, [HERM], assumptions=NUM + SHIM)
reg("C21", [HERM], assumptions=SEQ + SHIM)
ROS = Harness("ros", ["{V}/src/p_ros.cpp", "{V}/src/main.cpp"] + ["{R}/curves_ros/src/%s.cpp" % f for f in (
    "RosJointTrajectoryInterface", "RosMultiDOFJointTrajectoryInterface", "RosMultiDOFJointTrajectoryTranslationInterface")],
    O2, library="all", inc=["{V}/shim", "{R}/curves_ros/include"])
reg("C22", [ROS], assumptions=SEQ + SHIM + ["the stand-ins for ROS messages and durations (shim/) have the fields and arithmetic of ROS"])
REFUSE = [Harness("refuse", ["{V}/src/p_refuse.cpp", "{V}/src/main.cpp"], BARE),
          Harness("refuse-curves", ["{V}/src/p_refuse_curves.cpp", "{V}/src/main.cpp"], BARE, library="all", inc=["{V}/shim"])]
reg("C25", REFUSE, assumptions=SEQ + SHIM)
reg("C26", [Harness("samples", ["{V}/src/p_refuse_curves.cpp", "{V}/src/main.cpp"], O2, library="all", inc=["{V}/shim"])], level="fault_enumeration",
    technique="exhaustive enumeration of inputs and of failures of every system call on the compiled code, injected with a seccomp filter",
    assumptions=NUM + SHIM + ["the operating system reports failures through the results of system calls"])
