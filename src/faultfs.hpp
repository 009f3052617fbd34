// Faults at chosen system calls on files below one directory, whatever code path leads to the call.
//
// In a forked child, a seccomp filter turns every file-related system call into a
// signal; the handler counts the calls on files of interest, lets the chosen one
// fail or transfer only a part, and carries the others out.
#pragma once
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <ucontext.h>
#include <unistd.h>

namespace faultfs {
extern "C" long mcRawSyscall(long n, long a, long b, long c, long d, long e, long f);
extern "C" char mcRawSyscallReturn[];
asm(".text\n.globl mcRawSyscall\n.type mcRawSyscall,@function\nmcRawSyscall:\n"
    "  mov %rdi,%rax\n  mov %rsi,%rdi\n  mov %rdx,%rsi\n  mov %rcx,%rdx\n  mov %r8,%r10\n  mov %r9,%r8\n  mov 8(%rsp),%r9\n"
    "  syscall\n.globl mcRawSyscallReturn\nmcRawSyscallReturn:\n  ret\n");

enum Op { Open, Read, Write, Close, Sync, Other };
enum Kind { None, Fail, Short };
struct Fault {
  int call = -1;  // number of the call on the files of interest, from 0
  Kind kind = None;
  int err = 0;
  bool persistent = false;  // all later calls of the same sort fail, too
};
struct State {
  char dir[512];
  bool active;
  bool isOpen[1024];
  int calls;
  unsigned char op[4096];  // what each call was
  Fault f[2];
  int hit[2];
  int persistentOp, persistentErr;
};
inline State& st() {
  static State* s = (State*)mmap(nullptr, sizeof(State), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  return *s;
}
inline bool ours(const char* p) { return p && strncmp(p, st().dir, strlen(st().dir)) == 0; }

inline void handler(int, siginfo_t* si, void* uc) {
  State& s = st();
  greg_t* r = ((ucontext_t*)uc)->uc_mcontext.gregs;
  int saved = errno;
  long n = si->si_syscall, a = r[REG_RDI], b = r[REG_RSI], c = r[REG_RDX], d = r[REG_R10], e = r[REG_R8], f = r[REG_R9];
  bool mine = false;
  int op = Other;
  switch (n) {
    case SYS_open: op = Open; mine = ours((const char*)a); break;
    case SYS_creat: op = Open; mine = ours((const char*)a); break;
    case SYS_openat: op = Open; mine = ours((const char*)b); break;
    case SYS_rename: mine = ours((const char*)b); break;
    case SYS_renameat:
    case SYS_renameat2: mine = ours((const char*)d); break;
    default:
      mine = a >= 0 && a < 1024 && s.isOpen[a];
      op = n == SYS_read || n == SYS_readv || n == SYS_pread64 ? Read
           : n == SYS_write || n == SYS_writev || n == SYS_pwrite64 ? Write
           : n == SYS_close ? Close : n == SYS_fsync || n == SYS_fdatasync ? Sync : Other;
  }
  long res = 0;
  bool done = false;
  if (s.active && mine) {
    int k = s.calls++;
    if (k < 4096) s.op[k] = op;
    if (s.persistentErr && op == s.persistentOp) {
      res = -s.persistentErr;
      done = true;
    }
    for (int i = 0; i < 2 && !done; i++) {
      if (s.f[i].call != k) continue;
      s.hit[i] = 1;
      if (s.f[i].kind == Fail) {
        res = -s.f[i].err;
        done = true;
        if (s.f[i].persistent) {
          s.persistentOp = op;
          s.persistentErr = s.f[i].err;
        }
      } else if (s.f[i].kind == Short) {
        // a part of the data only
        if (n == SYS_read || n == SYS_write || n == SYS_pread64 || n == SYS_pwrite64) {
          if (c > 1) c = s.f[i].err ? 1 : (c + 1) / 2;
        } else if (n == SYS_readv || n == SYS_writev) {
          static iovec one;
          const iovec* v = (const iovec*)b;
          int j = 0;
          while (j < c && v[j].iov_len == 0) j++;
          if (j < c) {
            one = v[j];
            if (one.iov_len > 1) one.iov_len = s.f[i].err ? 1 : (one.iov_len + 1) / 2;
            b = (long)&one;
            c = 1;
          }
        }
      }
    }
    if (done && op == Close) {  // a failing close still closes
      mcRawSyscall(n, a, b, c, d, e, f);
      s.isOpen[a] = false;
    }
  }
  if (!done) {
    res = mcRawSyscall(n, a, b, c, d, e, f);
    if (mine && op == Open && res >= 0 && res < 1024) s.isOpen[res] = true;
    if (mine && op == Close) s.isOpen[a] = false;
  }
  r[REG_RAX] = res;
  errno = saved;
}

//! In the child: from here on, calls are counted and faults hit.  False if the kernel does not allow it.
inline bool install() {
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = handler;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGSYS, &sa, nullptr);
  static const int nrs[] = {SYS_read, SYS_write, SYS_open, SYS_close, SYS_pread64, SYS_pwrite64, SYS_readv, SYS_writev, SYS_openat, SYS_fsync,
                            SYS_fdatasync, SYS_rename, SYS_renameat, SYS_renameat2, SYS_ftruncate, SYS_creat};
  const int N = sizeof nrs / sizeof *nrs;
  unsigned long ret = (unsigned long)mcRawSyscallReturn;
  sock_filter p[64];
  int k = 0;
  p[k++] = BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, instruction_pointer));
  p[k++] = BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)ret, 0, 3);
  p[k++] = BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, instruction_pointer) + 4);
  p[k++] = BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)(ret >> 32), 0, 1);
  p[k++] = BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  p[k++] = BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, nr));
  for (int i = 0; i < N; i++) p[k++] = BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)nrs[i], (unsigned char)(N - i), 0);
  p[k++] = BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  p[k++] = BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
  sock_fprog prog = {(unsigned short)k, p};
  if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) return false;
  return syscall(SYS_seccomp, SECCOMP_SET_MODE_FILTER, 0, &prog) == 0;
}
inline void arm(const char* dir, const Fault& f0, const Fault& f1) {
  State& s = st();
  memset(&s, 0, sizeof s);
  snprintf(s.dir, sizeof s.dir, "%s", dir);
  s.f[0] = f0;
  s.f[1] = f1;
}
}  // namespace faultfs
