/* LD_PRELOAD monitor for the unmodified procstar binary.
 *
 *  - logs the system calls that matter to a line-oriented event log
 *  - contains kill(): only live, not-yet-reaped children of this manager can
 *    be signalled; anything else is recorded and refused with ESRCH
 *  - injects faults and delays at call sites armed by the harness through a
 *    shared-memory control page
 *  - optionally scales the monotonic clock (and epoll timeouts)
 *  - optionally never reuses a descriptor number (VI_QUAR), so that any use of
 *    a closed descriptor fails with EBADF, which is logged as "badfd"
 *
 * Environment (removed before main runs, so nothing of it is inherited):
 *   VI_LOG   event log path        VI_CTL  control page path
 *   VI_SCALE clock factor          VI_SEED rng seed
 *   VI_ONLY  the executable to monitor; a wrapper before it is left alone
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/uio.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

enum { S_FORK, S_WAIT4, S_KILL, S_EXECVE, S_CLOSE, S_DUP2, S_PIPE, S_MKSTEMP, S_OPEN, S_SETSID,
       S_READ, S_WRITE, S_EPOLL, S_FCNTL, S_ACCEPT, S_UNLINK, S_LSEEK, S_PREAD, S_LOOKUP, S_FORKED, S_EXIT, S_WATCH, NSITE };
static const char *const names[] = { "fork", "wait4", "kill", "execve", "close", "dup2", "pipe", "mkstemp",
  "open", "setsid", "read", "write", "epoll", "fcntl", "accept", "unlink", "lseek", "pread", "lookup", "forked", "exit", "watch" };

struct slot { /* 32 bytes; index = site * 2 + in_child */
  int32_t fail_errno;   /* errno to fail with */
  int32_t fail_after;   /* calls to let pass first; -1 disarmed */
  int32_t sticky;       /* keep failing */
  uint32_t delay_us;    /* upper bound of the injected delay */
  uint32_t delay_pm;    /* probability per mille */
  uint32_t calls;       /* calls seen */
  uint32_t failed;      /* faults injected */
  uint32_t short_len;   /* read/write: cap length (0: off) */
};

static struct slot *ctl;
static int log_fd = -1;
static pid_t main_pid;
static atomic_uchar live[1 << 16];
static double scale = 0;
static int local_names = 0; /* every host name is 127.0.0.1 */
static char host[65];
static struct timespec t0;
#define QUAR_BASE 1024
static atomic_int quar = 0; /* next descriptor number; 0: off */
static uint64_t seed = 88172645463325252ull;

#define REAL(name) static __typeof__(name) *real; if (!real) real = (__typeof__(name) *) dlsym(RTLD_NEXT, #name)

static long long mono(void) {
  struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
  return t.tv_sec * 1000000000ll + t.tv_nsec;
}

static void logf_(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void logf_(const char *fmt, ...) {
  if (log_fd < 0) return;
  int save = errno;
  char buf[1024];
  int n = snprintf(buf, sizeof buf, "%lld %d ", mono(), (int) syscall(SYS_getpid));
  va_list ap; va_start(ap, fmt);
  int m = vsnprintf(buf + n, sizeof buf - n - 1, fmt, ap);
  va_end(ap);
  n += m < (int) sizeof buf - n - 1 ? m : (int) sizeof buf - n - 2;
  buf[n++] = '\n';
  syscall(SYS_write, log_fd, buf, n);
  errno = save;
}

__attribute__((constructor)) static void init(void) {
  main_pid = getpid();
  const char *p;
  if ((p = getenv("VI_ONLY"))) { /* not for a wrapper */
    char exe[4096];
    int n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    exe[n < 0 ? 0 : n] = 0;
    if (strcmp(exe, p)) { log_fd = -1; return; }
    unsetenv("VI_ONLY");
  }
  if ((p = getenv("VI_LOG"))) {
    int fd = syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
    if (fd >= 0) {
      log_fd = fcntl(fd, F_DUPFD_CLOEXEC, 983);
      syscall(SYS_close, fd);
    }
  }
  if ((p = getenv("VI_CTL"))) {
    int fd = syscall(SYS_openat, AT_FDCWD, p, O_RDWR | O_CLOEXEC, 0);
    if (fd >= 0) {
      void *m = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (m != MAP_FAILED) ctl = m;
      syscall(SYS_close, fd);
    }
  }
  if ((p = getenv("VI_SEED"))) seed ^= strtoull(p, 0, 10) * 0x9E3779B97F4A7C15ull;
  if ((p = getenv("VI_SCALE"))) scale = atof(p);
  local_names = getenv("VI_HOSTS") != 0;
  unsetenv("VI_HOSTS");
  if ((p = getenv("VI_HOST"))) snprintf(host, sizeof host, "%s", p);
  unsetenv("VI_HOST");
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t0);
  if (getenv("VI_QUAR")) quar = QUAR_BASE;
  unsetenv("VI_QUAR");
  unsetenv("VI_LOG"); unsetenv("VI_CTL"); unsetenv("VI_SEED"); unsetenv("VI_SCALE"); unsetenv("LD_PRELOAD");
  logf_("start");
}

static int in_child(void) { return (int) syscall(SYS_getpid) != main_pid; }

/* Returns the errno to fail with, or 0. */
static int site(int s) {
  if (!ctl) return 0;
  struct slot *c = &ctl[s * 2 + in_child()];
  __atomic_add_fetch(&c->calls, 1, __ATOMIC_SEQ_CST);
  if (c->delay_us && c->delay_pm) {
    seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17;
    if ((seed >> 20) % 1000 < c->delay_pm) {
      uint64_t us = c->delay_us / 2 + (seed >> 33) % (c->delay_us / 2 + 1);
      struct timespec t = { us / 1000000, (us % 1000000) * 1000 };
      int save = errno;
      while (syscall(SYS_nanosleep, &t, &t) == -1 && errno == EINTR);
      errno = save;
    }
  }
  if (c->fail_after >= 0) {
    if (c->fail_after == 0) {
      if (!c->sticky) c->fail_after = -1;
      c->failed++;
      logf_("inject %s %d", names[s], c->fail_errno);
      return c->fail_errno;
    }
    c->fail_after--;
  }
  return 0;
}

/* Moves a new descriptor to a number that was never used before. */
static int q_(int fd) {
  if (!quar || fd < 3) return fd;
  int save = errno;
  int fl = syscall(SYS_fcntl, fd, F_GETFD);
  int n = syscall(SYS_fcntl, fd, fl & FD_CLOEXEC ? F_DUPFD_CLOEXEC : F_DUPFD, quar);
  if (n >= 0) { quar = n + 1; syscall(SYS_close, fd); fd = n; logf_("newfd %d", fd); }
  errno = save;
  return fd;
}
static int is_closed(int fd) {
  if (!quar || fd < QUAR_BASE) return 0;
  int r = syscall(SYS_fcntl, fd, F_GETFD) == -1;
  errno = EBADF;
  return r;
}
#define BAD(fd, r) ({ __typeof__(r) r_ = (r); if (r_ == -1 && errno == EBADF && is_closed(fd)) logf_("badfd %s %d", __func__, fd); r_; })

/* Error number 1000: the end of the file, found at once. */
#define FAULT(s) do { int e_ = site(s); if (e_ == 1000) return 0; if (e_) { errno = e_; return -1; } } while (0)

/* Is `pid` a child (running or zombie) of this manager right now? */
static int is_child(pid_t pid) {
  int save = errno;
  char path[40], buf[512];
  snprintf(path, sizeof path, "/proc/%d/stat", pid);
  int fd = syscall(SYS_openat, AT_FDCWD, path, O_RDONLY | O_CLOEXEC, 0);
  if (fd < 0) { errno = save; return 0; }
  ssize_t n = syscall(SYS_read, fd, buf, sizeof buf - 1);
  syscall(SYS_close, fd);
  errno = save;
  if (n <= 0) return 0;
  buf[n] = 0;
  char *p = strrchr(buf, ')'); char st; int ppid = -1;
  if (!p || sscanf(p + 1, " %c %d", &st, &ppid) != 2) return 0;
  return ppid == main_pid;
}

void exit(int code) {
  static void (*real)(int) __attribute__((noreturn));
  if (!real) real = (void (*)(int)) dlsym(RTLD_NEXT, "exit");
  (void) site(S_EXIT);
  real(code);
  __builtin_unreachable();
}

pid_t fork(void) {
  REAL(fork);
  FAULT(S_FORK);
  logf_("fork-call");
  pid_t p = real();
  if (p > 0) { live[p & 0xffff] = 1; logf_("fork %d", p); (void) site(S_FORKED); }
  else if (p == 0) { logf_("child"); }
  else logf_("fork -1 %d", errno);
  return p;
}

pid_t wait4(pid_t pid, int *status, int options, struct rusage *ru) {
  REAL(wait4);
  int st = 0; struct rusage r; memset(&r, 0, sizeof r);
  FAULT(S_WAIT4);
  pid_t p = real(pid, &st, options, &r);
  if (status && p > 0) *status = st;
  if (ru && p > 0) *ru = r;
  if (p > 0) {
    live[p & 0xffff] = 0;
    logf_("reap %d %d %ld.%06ld %ld.%06ld %ld %ld %ld %ld %ld %ld %ld %ld", p, st, (long) r.ru_utime.tv_sec, (long) r.ru_utime.tv_usec,
          (long) r.ru_stime.tv_sec, (long) r.ru_stime.tv_usec, r.ru_maxrss, r.ru_minflt, r.ru_majflt, r.ru_nswap, r.ru_inblock, r.ru_oublock, r.ru_nvcsw, r.ru_nivcsw);
  } else if (p < 0) logf_("wait4 %d -1 %d", pid, errno);
  return p;
}
pid_t waitpid(pid_t pid, int *status, int options) { return wait4(pid, status, options, 0); }

int kill(pid_t pid, int sig) {
  REAL(kill);
  FAULT(S_KILL);
  if (in_child() && pid == (pid_t) syscall(SYS_getpid)) return real(pid, sig);
  int ok = pid > 0 && is_child(pid);
  logf_("kill %d %d %s", pid, sig, ok ? "ok" : "STRAY");
  if (!ok) { errno = ESRCH; return -1; }
  return real(pid, sig);
}
int killpg(pid_t pg, int sig) { return kill(-pg, sig); }

int execve(const char *path, char *const argv[], char *const envp[]) {
  REAL(execve);
  FAULT(S_EXECVE);
  logf_("execve %s", path);
  int r = real(path, argv, envp);
  logf_("execve-failed %d %s", errno, path);
  return r;
}
int execv(const char *path, char *const argv[]) { extern char **environ; return execve(path, argv, environ); }
int execvp(const char *file, char *const argv[]) { REAL(execvp); logf_("execve %s", file); return real(file, argv); }
int execvpe(const char *file, char *const argv[], char *const envp[]) { REAL(execvpe); logf_("execve %s", file); return real(file, argv, envp); }

int close(int fd) {
  REAL(close);
  if (fd == log_fd && log_fd >= 0) { logf_("close-logfd"); errno = EBADF; return -1; }
  site(S_CLOSE);
  if (quar) logf_("closefd %d", fd);
  int r = BAD(fd, real(fd));
  if (r < 0) logf_("close %d -1 %d", fd, errno);
  return r;
}

int dup2(int a, int b) { REAL(dup2); FAULT(S_DUP2); if (quar) logf_("dup2 %d %d", a, b); return BAD(a, real(a, b)); }
int dup3(int a, int b, int f) { REAL(dup3); FAULT(S_DUP2); return BAD(a, real(a, b, f)); }
int pipe(int *p) { REAL(pipe); FAULT(S_PIPE); int r = real(p); if (!r) { p[0] = q_(p[0]); p[1] = q_(p[1]); } return r; }
int pipe2(int *p, int f) { REAL(pipe2); FAULT(S_PIPE); int r = real(p, f); if (!r) { p[0] = q_(p[0]); p[1] = q_(p[1]); } return r; }
int mkstemp(char *t) { REAL(mkstemp); FAULT(S_MKSTEMP); int r = q_(real(t)); logf_("mkstemp %s %d", t, r); return r; }
int mkostemp(char *t, int f) { REAL(mkostemp); FAULT(S_MKSTEMP); int r = q_(real(t, f)); logf_("mkstemp %s %d", t, r); return r; }
int unlink(const char *p) { REAL(unlink); FAULT(S_UNLINK); int r = real(p); logf_("unlink %s %d", p, r); return r; }
pid_t setsid(void) { REAL(setsid); FAULT(S_SETSID); return real(); }

int open(const char *path, int flags, ...) {
  REAL(open);
  va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
  FAULT(S_OPEN);
  return q_(real(path, flags, m));
}
int open64(const char *path, int flags, ...) {
  REAL(open64);
  va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
  FAULT(S_OPEN);
  return q_(real(path, flags, m));
}

ssize_t read(int fd, void *buf, size_t n) {
  REAL(read);
  FAULT(S_READ);
  if (ctl) { uint32_t s = ctl[S_READ * 2 + in_child()].short_len; if (s && n > s) n = s; }
  return BAD(fd, real(fd, buf, n));
}
ssize_t write(int fd, const void *buf, size_t n) {
  REAL(write);
  FAULT(S_WRITE);
  return BAD(fd, real(fd, buf, n));
}
off_t lseek(int fd, off_t o, int w) { REAL(lseek); site(S_LSEEK); return BAD(fd, real(fd, o, w)); }
off64_t lseek64(int fd, off64_t o, int w) { REAL(lseek64); site(S_LSEEK); return BAD(fd, real(fd, o, w)); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { REAL(pread64); FAULT(S_PREAD);
  if (ctl) { uint32_t s = ctl[S_PREAD * 2 + in_child()].short_len; if (s && n > s) n = s; }
  return BAD(fd, real(fd, b, n, o)); }
int accept4(int fd, struct sockaddr *a, socklen_t *l, int f) { REAL(accept4); FAULT(S_ACCEPT); return q_(BAD(fd, real(fd, a, l, f))); }
int socket(int d, int t, int p) { REAL(socket); return q_(real(d, t, p)); }
int socketpair(int d, int t, int p, int *v) { REAL(socketpair); int r = real(d, t, p, v); if (!r) { v[0] = q_(v[0]); v[1] = q_(v[1]); } return r; }
int epoll_create1(int f) { REAL(epoll_create1); return q_(real(f)); }
int eventfd(unsigned i, int f) { REAL(eventfd); return q_(real(i, f)); }
static int fcntl_(int fd, int cmd, long arg, int (*real)(int, int, ...), const char *name) {
  if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) FAULT(S_FCNTL);
  int r = real(fd, cmd, arg);
  if (r == -1 && errno == EBADF && is_closed(fd)) logf_("badfd %s %d", name, fd);
  return cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC ? q_(r) : r;
}
int fcntl(int fd, int cmd, ...) { REAL(fcntl); va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return fcntl_(fd, cmd, a, real, "fcntl"); }
int fcntl64(int fd, int cmd, ...) { REAL(fcntl64); va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return fcntl_(fd, cmd, a, real, "fcntl64"); }
int ioctl(int fd, unsigned long c, ...) { REAL(ioctl); va_list ap; va_start(ap, c); void *a = va_arg(ap, void *); va_end(ap); return BAD(fd, real(fd, c, a)); }
int epoll_ctl(int ep, int op, int fd, struct epoll_event *e) { REAL(epoll_ctl); if (op == EPOLL_CTL_ADD) { struct stat st; static int (*rf)(int, struct stat *); if (!rf) rf = (int (*)(int, struct stat *)) dlsym(RTLD_NEXT, "fstat"); if (rf && !rf(fd, &st) && S_ISFIFO(st.st_mode)) FAULT(S_WATCH); } int r = BAD(ep, real(ep, op, fd, e)); if (r == -1 && errno == EBADF && is_closed(fd)) logf_("badfd epoll_ctl %d", fd); return r; }
int fstat64(int fd, struct stat64 *st) { REAL(fstat64); return BAD(fd, real(fd, st)); }
int fstat(int fd, struct stat *st) { REAL(fstat); return BAD(fd, real(fd, st)); }
int statx(int fd, const char *p, int f, unsigned m, struct statx *b) { REAL(statx); return BAD(fd, real(fd, p, f, m, b)); }
ssize_t readv(int fd, const struct iovec *v, int n) { REAL(readv); return BAD(fd, real(fd, v, n)); }
ssize_t writev(int fd, const struct iovec *v, int n) { REAL(writev); return BAD(fd, real(fd, v, n)); }
ssize_t recv(int fd, void *b, size_t n, int f) { REAL(recv); return BAD(fd, real(fd, b, n, f)); }
ssize_t send(int fd, const void *b, size_t n, int f) { REAL(send); return BAD(fd, real(fd, b, n, f)); }

int getaddrinfo(const char *h, const char *s, const struct addrinfo *a, struct addrinfo **r) {
  REAL(getaddrinfo);
  logf_("lookup %s", h ? h : "-");
  if (site(S_LOOKUP)) return EAI_AGAIN;
  return real(local_names && h ? "127.0.0.1" : h, s, a, r);
}

int gethostname(char *b, size_t n) {
  REAL(gethostname);
  if (!*host) return real(b, n);
  size_t l = strlen(host);
  memcpy(b, host, l < n ? l + 1 : n);
  if (l < n) return 0;
  errno = ENAMETOOLONG;
  return -1;
}

int clock_gettime(clockid_t c, struct timespec *t) {
  int r = syscall(SYS_clock_gettime, c, t);
  if (r == 0 && scale > 0 && (c == CLOCK_MONOTONIC)) {
    double d = (t->tv_sec - t0.tv_sec) + 1e-9 * (t->tv_nsec - t0.tv_nsec);
    d *= scale;
    long long ns = (long long) (d * 1e9) + t0.tv_sec * 1000000000ll + t0.tv_nsec;
    t->tv_sec = ns / 1000000000ll; t->tv_nsec = ns % 1000000000ll;
  }
  if (r == 0 && c == CLOCK_REALTIME && ctl) t->tv_sec += *(volatile int64_t *) &ctl[127]; /* the clock was set */
  return r;
}

int epoll_wait(int ep, struct epoll_event *ev, int n, int timeout) {
  REAL(epoll_wait);
  site(S_EPOLL);
  if (scale > 0 && timeout > 0) { double t = timeout / scale; timeout = t < 1 ? 1 : (int) (t + 0.999); }
  return real(ep, ev, n, timeout);
}
