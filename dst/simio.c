/* System-call seam for the storage simulation.
 *
 * Installed in a child process that will make one simulated run.  A seccomp filter
 * turns every file system call of the process - whether it is made by Python, by the
 * extension modules of the code under test, or by libtiff, HDF5, OpenCV, libstdc++ -
 * into a SIGSYS whose handler executes it, makes it fail, cuts it short or ends the
 * process, as the plan in shared memory says, and records it.  Only files below the
 * scratch root take part. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <ucontext.h>
#include <unistd.h>

enum { C_OPENR, C_OPENW, C_READ, C_WRITE, C_CLOSE, C_FSYNC, C_TRUNC, C_RENAME, C_UNLINK, C_MKDIR,
       C_RMDIR, C_MMAP, C_CHDIR, C_STAT, C_LIST, C_ANY, NCLASS };
enum { A_ERR = 1, A_SHORT = 2, A_TORN = 3, A_KILL = 4, A_KILLTORN = 5 };
#define MAXLOG 8192
#define MAXPLAN 16

struct plan { int32_t cls, action, err, frac; int64_t nth, len; int64_t fired; int32_t rw, pad; };
struct rec { int16_t cls, act; int32_t fd; int64_t arg, res; char path[40]; };
struct ctl {
  int32_t armed, nplans;
  int32_t gate_out, gate_in;  /* pipes to the scheduler when several processes run, else 0 */
  int64_t credit;             /* calls this process may still make before it asks again */
  int64_t nops, cap, quota, nlog;
  int64_t count[NCLASS];
  int64_t fired[8];          /* per action */
  int64_t capped, escapes, quota_hits;
  int64_t bytes_written;
  struct plan plans[MAXPLAN];
  char root[256];
  char escape[256];
  struct rec log[MAXLOG];
};
static struct ctl *C;
static unsigned char tracked[4096];   /* 1 = file below the root */
static size_t rootlen;

long raw6(long n, long a, long b, long c, long d, long e, long f);
extern char raw6_ip[];
__asm__(".text\n.globl raw6\nraw6:\n mov %rdi,%rax\n mov %rsi,%rdi\n mov %rdx,%rsi\n mov %rcx,%rdx\n"
        " mov %r8,%r10\n mov %r9,%r8\n mov 8(%rsp),%r9\n syscall\n.globl raw6_ip\nraw6_ip:\n ret\n");

static int below(const char *p) {
  if (!p) return 0;
  if (p[0] != '/') return 2;
  if (strncmp(p, C->root, rootlen) == 0 && (p[rootlen] == '/' || p[rootlen] == 0)) return 1;
  return 0;
}

static void logop(int cls, int act, int fd, long arg, long res, const char *path) {
  long i = C->nlog++;
  if (i >= MAXLOG) return;
  struct rec *r = &C->log[i];
  r->cls = cls; r->act = act; r->fd = fd; r->arg = arg; r->res = res;
  if (path) {
    if (strncmp(path, C->root, rootlen) == 0) path += rootlen;
    size_t n = strlen(path);
    if (n > 39) path += n - 39;
    strncpy(r->path, path, 39); r->path[39] = 0;
  } else r->path[0] = 0;
}

static void die(void) {
  raw6(SYS_kill, raw6(SYS_getpid, 0, 0, 0, 0, 0, 0), SIGKILL, 0, 0, 0, 0);
  for (;;) ;
}

/* Before every call that takes part: waits for its turn when several processes run. */
static void step(void) {
  C->nops++;
  if (C->gate_out <= 0) return;
  while (C->credit <= 0) {
    char c = 'g';
    int64_t n = 0;
    if (raw6(SYS_write, C->gate_out, (long)&c, 1, 0, 0, 0) != 1) die();
    if (raw6(SYS_read, C->gate_in, (long)&n, 8, 0, 0, 0) != 8) die();
    C->credit = n;
  }
  C->credit--;
}

static struct plan *decide(int cls, long *why) {
  long n = ++C->count[cls], m = ++C->count[C_ANY];
  for (int i = 0; i < C->nplans; i++) {
    struct plan *p = &C->plans[i];
    long k = p->cls == cls ? n : p->cls == C_ANY ? m : -1;
    if (k < p->nth || k < 0 || k >= p->nth + p->len) continue;
    if (p->action == A_SHORT && cls != C_READ && cls != C_WRITE) continue;
    if (p->action == A_TORN && cls != C_WRITE) { *why = p->err; p->fired++; C->fired[A_ERR]++; return p; }
    p->fired++;
    C->fired[p->action & 7]++;
    return p;
  }
  return 0;
}

static long iovlen(const struct iovec *v, long n) {
  long s = 0;
  for (long i = 0; i < n; i++) s += v[i].iov_len;
  return s;
}

/* writes at most `limit` bytes of the request */
static long partial(long nr, long *a, long limit) {
  if (nr == SYS_write) return raw6(nr, a[0], a[1], limit, 0, 0, 0);
  if (nr == SYS_pwrite64) return raw6(nr, a[0], a[1], limit, a[3], 0, 0);
  if (nr == SYS_read) return raw6(nr, a[0], a[1], limit, 0, 0, 0);
  if (nr == SYS_pread64) return raw6(nr, a[0], a[1], limit, a[3], 0, 0);
  const struct iovec *v = (const struct iovec *)a[1];
  struct iovec w[64];
  long n = 0, left = limit;
  for (long i = 0; i < a[2] && i < 64 && left > 0; i++) {
    w[n] = v[i];
    if ((long)w[n].iov_len > left) w[n].iov_len = left;
    left -= w[n].iov_len;
    n++;
  }
  if (!n) return 0;
  return raw6(nr, a[0], (long)w, n, a[3], a[4], 0);
}

static long file_io(long nr, long *a, int cls) {
  long fd = a[0];
  if (fd < 0 || fd >= 4096 || !tracked[fd]) return raw6(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
  int vec = nr == SYS_readv || nr == SYS_writev || nr == SYS_preadv || nr == SYS_pwritev;
  long len = vec ? iovlen((const struct iovec *)a[1], a[2]) : a[2];
  long why = 0;
  step();
  struct plan *p = decide(cls, &why);
  long res;
  int act = 0;
  if (p) {
    act = p->action;
    long part = len * p->frac / 256;
    /* a few bytes are never divided between two blocks or pages in practice: all or nothing */
    int small = cls == C_WRITE && len <= 8;
    if (small) part = act == A_SHORT ? len : 0;
    if (act == A_ERR) res = -p->err;
    else if (act == A_SHORT) {
      if (part < 1) part = 1;
      res = len > 1 ? partial(nr, a, part) : raw6(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
    } else if (act == A_TORN) {
      /* a part reaches the disk, but the call fails as a whole: the position stays */
      long at = raw6(SYS_lseek, fd, 0, SEEK_CUR, 0, 0, 0);
      if (part > 0 && at >= 0 && !(raw6(SYS_fcntl, fd, F_GETFL, 0, 0, 0, 0) & O_APPEND)) {
        partial(nr, a, part);
        raw6(SYS_lseek, fd, at, SEEK_SET, 0, 0, 0);
      }
      res = -p->err;
    } else if (act == A_KILLTORN) {
      if (part > 0 && cls == C_WRITE) partial(nr, a, part);
      logop(cls, act, fd, len, -9999, 0);
      die();
      return 0;
    } else {
      logop(cls, act, fd, len, -9999, 0);
      die();
      return 0;
    }
  } else if (cls == C_WRITE && C->quota >= 0) {
    if (len > C->quota) {
      C->quota_hits++;
      if (C->quota == 0 || len <= 8) res = -ENOSPC;
      else res = partial(nr, a, C->quota);
    } else res = raw6(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (res > 0) C->quota -= res;
  } else
    res = raw6(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (cls == C_WRITE && res > 0) C->bytes_written += res;
  logop(cls, act, fd, len, res, 0);
  return res;
}

static long path_op(long nr, long *a, int cls, const char *path, const char *path2, int track_result) {
  int b = below(path);
  int b2 = path2 ? below(path2) : 0;
  if (!b && !b2) {
    if (cls != C_OPENR && cls != C_STAT && cls != C_LIST && cls != C_CHDIR && path &&
        strncmp(path, "/dev/", 5) != 0 && strncmp(path, "/proc/", 6) != 0) {
      /* a change outside the scratch root: refuse it, remember it */
      if (!C->escapes++) { strncpy(C->escape, path, 255); C->escape[255] = 0; }
      return -EROFS;
    }
    return raw6(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
  }
  long why = 0, res;
  step();
  struct plan *p = decide(cls, &why);
  int act = 0;
  if (p) {
    act = p->action;
    if (act == A_KILL || act == A_KILLTORN) {
      logop(cls, act, -1, 0, -9999, path);
      die();
    }
    res = (act == A_ERR || act == A_TORN) ? -p->err : raw6(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
  } else
    res = raw6(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (track_result && res >= 0 && res < 4096) tracked[res] = 1;
  logop(cls, act, -1, 0, res, path);
  return res;
}

static long do_syscall(long nr, long *a) {
  if (!C || !C->armed) {
    /* still follow which descriptors belong to the root */
    long r = raw6(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (C && r >= 0 && r < 4096) {
      if (nr == SYS_openat) tracked[r] = below((char *)a[1]) == 1;
      else if (nr == SYS_open || nr == SYS_creat) tracked[r] = below((char *)a[0]) == 1;
      else if (nr == SYS_dup && a[0] >= 0 && a[0] < 4096) tracked[r] = tracked[a[0]];
    }
    if (nr == SYS_close && a[0] >= 0 && a[0] < 4096) tracked[a[0]] = 0;
    return r;
  }
  if (C->cap && C->nops > C->cap) { C->capped = 1; die(); }
  switch (nr) {
    case SYS_read: case SYS_pread64: case SYS_readv: case SYS_preadv:
      return file_io(nr, a, C_READ);
    case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_pwritev:
      return file_io(nr, a, C_WRITE);
    case SYS_open: case SYS_openat: case SYS_creat: {
      const char *p = (const char *)(nr == SYS_openat ? a[1] : a[0]);
      long fl = nr == SYS_openat ? a[2] : nr == SYS_open ? a[1] : O_WRONLY | O_CREAT | O_TRUNC;
      int w = (fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC));
      int c = (fl & O_DIRECTORY) ? C_LIST : w ? C_OPENW : C_OPENR;
      return path_op(nr, a, c, p, 0, 1);
    }
    case SYS_close: {
      long fd = a[0];
      if (fd < 0 || fd >= 4096 || !tracked[fd]) return raw6(nr, a[0], 0, 0, 0, 0, 0);
      long why = 0;
      step();
      struct plan *p = decide(C_CLOSE, &why);
      if (p && (p->action == A_KILL || p->action == A_KILLTORN)) { logop(C_CLOSE, p->action, fd, 0, -9999, 0); die(); }
      tracked[fd] = 0;
      long r = raw6(nr, fd, 0, 0, 0, 0, 0);
      if (p && (p->action == A_ERR || p->action == A_TORN)) r = -p->err;
      logop(C_CLOSE, p ? p->action : 0, fd, 0, r, 0);
      return r;
    }
    case SYS_fsync: case SYS_fdatasync: case SYS_ftruncate: case SYS_fallocate: {
      long fd = a[0];
      if (fd < 0 || fd >= 4096 || !tracked[fd]) return raw6(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
      int c = (nr == SYS_fsync || nr == SYS_fdatasync) ? C_FSYNC : C_TRUNC;
      long why = 0;
      step();
      struct plan *p = decide(c, &why);
      if (p && (p->action == A_KILL || p->action == A_KILLTORN)) { logop(c, p->action, fd, 0, -9999, 0); die(); }
      long r = (p && (p->action == A_ERR || p->action == A_TORN)) ? -p->err
               : raw6(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
      logop(c, p ? p->action : 0, fd, a[1], r, 0);
      return r;
    }
    case SYS_truncate: return path_op(nr, a, C_TRUNC, (char *)a[0], 0, 0);
    case SYS_rename: return path_op(nr, a, C_RENAME, (char *)a[0], (char *)a[1], 0);
    case SYS_renameat: case SYS_renameat2: return path_op(nr, a, C_RENAME, (char *)a[1], (char *)a[3], 0);
    case SYS_link: case SYS_symlink: return path_op(nr, a, C_RENAME, (char *)a[1], (char *)a[0], 0);
    case SYS_unlink: return path_op(nr, a, C_UNLINK, (char *)a[0], 0, 0);
    case SYS_unlinkat: return path_op(nr, a, (a[2] & AT_REMOVEDIR) ? C_RMDIR : C_UNLINK, (char *)a[1], 0, 0);
    case SYS_mkdir: return path_op(nr, a, C_MKDIR, (char *)a[0], 0, 0);
    case SYS_mkdirat: return path_op(nr, a, C_MKDIR, (char *)a[1], 0, 0);
    case SYS_rmdir: return path_op(nr, a, C_RMDIR, (char *)a[0], 0, 0);
    case SYS_chdir: return path_op(nr, a, C_CHDIR, (char *)a[0], 0, 0);
    case SYS_mmap: {
      long fd = (int)a[4];
      if (fd < 0 || fd >= 4096 || !tracked[fd]) return raw6(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
      long why = 0;
      step();
      struct plan *p = decide(C_MMAP, &why);
      if (p && (p->action == A_KILL || p->action == A_KILLTORN)) { logop(C_MMAP, p->action, fd, 0, -9999, 0); die(); }
      long r = (p && p->action == A_ERR) ? -ENOMEM : raw6(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
      logop(C_MMAP, p ? p->action : 0, fd, a[1], r < 0 && r > -4096 ? r : 0, 0);
      return r;
    }
    case SYS_sendfile: case SYS_copy_file_range: {
      /* out descriptor decides */
      long out = nr == SYS_sendfile ? a[0] : a[2];
      if (out < 0 || out >= 4096 || !tracked[out]) return raw6(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
      long why = 0;
      step();
      struct plan *p = decide(C_WRITE, &why);
      if (p && (p->action == A_KILL || p->action == A_KILLTORN)) { logop(C_WRITE, p->action, out, 0, -9999, 0); die(); }
      long r = (p && (p->action == A_ERR || p->action == A_TORN)) ? -p->err
               : raw6(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
      logop(C_WRITE, p ? p->action : 0, out, 0, r, 0);
      return r;
    }
    case SYS_dup: {
      long r = raw6(nr, a[0], 0, 0, 0, 0, 0);
      if (r >= 0 && r < 4096 && a[0] >= 0 && a[0] < 4096) tracked[r] = tracked[a[0]];
      return r;
    }
    case SYS_dup2: case SYS_dup3: {
      long r = raw6(nr, a[0], a[1], a[2], 0, 0, 0);
      if (r >= 0 && r < 4096 && a[0] >= 0 && a[0] < 4096) tracked[r] = tracked[a[0]];
      return r;
    }
    case SYS_fcntl: {
      long r = raw6(nr, a[0], a[1], a[2], 0, 0, 0);
      if ((a[1] == F_DUPFD || a[1] == F_DUPFD_CLOEXEC) && r >= 0 && r < 4096 && a[0] >= 0 && a[0] < 4096)
        tracked[r] = tracked[a[0]];
      return r;
    }
  }
  return raw6(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}

static void handler(int s, siginfo_t *i, void *u) {
  (void)s;
  ucontext_t *c = u;
  greg_t *g = c->uc_mcontext.gregs;
  long a[6] = {g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]};
  g[REG_RAX] = do_syscall(i->si_syscall, a);
}

void *simio_shared(size_t *size) {
  void *p = mmap(0, sizeof(struct ctl), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  *size = sizeof(struct ctl);
  return p == MAP_FAILED ? 0 : p;
}

int simio_install(void *ctl) {
  C = ctl;
  rootlen = strlen(C->root);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = handler;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  if (sigaction(SIGSYS, &sa, 0)) return -1;
  static const int nrs[] = {SYS_read, SYS_pread64, SYS_readv, SYS_preadv, SYS_write, SYS_pwrite64, SYS_writev,
    SYS_pwritev, SYS_open, SYS_openat, SYS_creat, SYS_close, SYS_fsync, SYS_fdatasync, SYS_ftruncate,
    SYS_truncate, SYS_fallocate, SYS_rename, SYS_renameat, SYS_renameat2, SYS_link, SYS_symlink, SYS_unlink,
    SYS_unlinkat, SYS_mkdir, SYS_mkdirat, SYS_rmdir, SYS_chdir, SYS_sendfile, SYS_copy_file_range,
    SYS_dup, SYS_dup2, SYS_dup3, SYS_fcntl};
  int n = sizeof nrs / sizeof *nrs;
  unsigned long ip = (unsigned long)raw6_ip;
  struct sock_filter f[64];
  int k = 0;
#define ST(code, v) f[k++] = (struct sock_filter)BPF_STMT(code, v)
#define JP(code, v, t, e) f[k++] = (struct sock_filter)BPF_JUMP(code, v, t, e)
  ST(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer));
  JP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)ip, 0, 3);
  ST(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer) + 4);
  JP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)(ip >> 32), 0, 1);
  ST(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  ST(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
  for (int i = 0; i < n; i++) JP(BPF_JMP | BPF_JEQ | BPF_K, nrs[i], n - i + 4 - 0, 0);
  /* mmap: only of a file */
  JP(BPF_JMP | BPF_JEQ | BPF_K, SYS_mmap, 0, 3);
  ST(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, args) + 4 * 8);
  JP(BPF_JMP | BPF_JEQ | BPF_K, 0xffffffffu, 1, 2);
  f[k - 1].jt = 1; f[k - 1].jf = 2;
  ST(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  ST(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  int trap = k;
  ST(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
  for (int i = 0; i < n; i++) f[6 + i].jt = trap - (6 + i) - 1;
  /* not mmap -> first ALLOW; mmap with fd -1 -> ALLOW; other -> TRAP */
  int mm = 6 + n;
  f[mm].jt = 0; f[mm].jf = (mm + 3) - mm - 1;
  f[mm + 2].jt = (mm + 3) - (mm + 2) - 1; f[mm + 2].jf = trap - (mm + 2) - 1;
  struct sock_fprog p = {k, f};
  if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) return -2;
  return syscall(SYS_seccomp, SECCOMP_SET_MODE_FILTER, 0, &p) ? -3 : 0;
}
