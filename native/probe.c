/* Scripted probe process: the "managed process" of every workload.
 *
 * Each argument is one operation, run in order.  The probe keeps its own books
 * (what it was given, what it wrote, what signals it saw) so that oracles can
 * compare them with what procstar reports.
 *
 * Pattern data is made of 16-byte records "SSSSSSS:IIIIIII\n" (seed, record
 * index), so every byte of every stream identifies its stream and position.
 * A nonzero mask m maps each byte c to c*5+m (mod 256) to get binary data.
 */
#define _GNU_SOURCE
#include <ctype.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <sys/file.h>

static size_t chunk = 65536;
static long chunk_us = 0;
static long jitter_us = 0;
static uint64_t rng = 88172645463325252ull;

static uint64_t rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

static long long mono(void) {
  struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec * 1000000000ll + t.tv_nsec;
}

static void die(const char *what) {
  /* A probe that cannot do its job says so unmistakably. */
  char buf[256];
  int n = snprintf(buf, sizeof buf, "PROBE-FAIL %s: %s\n", what, strerror(errno));
  (void) !write(2, buf, n);
  _exit(99);
}

/* Opens a private high descriptor so that probing does not disturb the table. */
static int book(const char *path, int flags) {
  int fd = open(path, flags | O_CLOEXEC, 0666);
  if (fd < 0) die(path);
  return fd;
}

static void *idle_thread(void *x) { for (;;) pause(); return x; }

static void append_line(const char *path, const char *line) {
  int fd = book(path, O_WRONLY | O_CREAT | O_APPEND);
  (void) !write(fd, line, strlen(line));
  close(fd);
}

static void fill(char *buf, size_t len, long seed, size_t off, int mask) {
  char rec[32];
  size_t i = 0;
  while (i < len) {
    size_t r = (off + i) / 16, o = (off + i) % 16;
    snprintf(rec, sizeof rec, "%07ld:%07zu\n", seed % 10000000, r % 10000000);
    for (; o < 16 && i < len; ++o, ++i) {
      unsigned char c = rec[o];
      if (mask) c = (unsigned char) (c * 5 + mask);
      buf[i] = (char) c;
    }
  }
}

static int write_all(int fd, const char *p, size_t n) {
  while (n > 0) {
    ssize_t w = write(fd, p, n);
    if (w < 0) {
      if (errno == EINTR) continue;
      if (errno == EAGAIN) { struct pollfd f = { fd, POLLOUT, 0 }; poll(&f, 1, 1000); continue; }
      return errno;
    }
    p += w; n -= w;
  }
  return 0;
}

/* Writes LEN pattern bytes starting at OFF; returns errno or 0. */
static int emit(int fd, size_t len, long seed, int mask, size_t off) {
  static char buf[1 << 20];
  size_t end = off + len;
  while (off < end) {
    size_t c = chunk ? chunk : 1 + rnd() % 9000;
    if (c > sizeof buf) c = sizeof buf;
    if (c > end - off) c = end - off;
    fill(buf, c, seed, off, mask);
    int e = write_all(fd, buf, c);
    if (e) return e;
    off += c;
    if (chunk_us) usleep(chunk_us);
    if (jitter_us) usleep(rnd() % jitter_us);
  }
  return 0;
}

static void dump_fds(const char *path) {
  /* List first with a raw fd scan so that the directory fd is the only extra. */
  DIR *d = opendir("/proc/self/fd");
  if (!d) die("/proc/self/fd");
  int dfd = dirfd(d), fds[65536], n = 0;
  struct dirent *e;
  while ((e = readdir(d)))
    if (isdigit((unsigned char) e->d_name[0])) {
      int f = atoi(e->d_name);
      if (f != dfd && n < 65536) fds[n++] = f;
    }
  closedir(d);
  int out = book(path, O_WRONLY | O_CREAT | O_TRUNC);
  for (int i = 0; i < n; ++i) {
    char link[64], target[4096], line[8192];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fds[i]);
    ssize_t l = readlink(link, target, sizeof target - 1);
    if (l < 0) l = 0;
    target[l] = 0;
    struct stat st; memset(&st, 0, sizeof st);
    fstat(fds[i], &st);
    int len = snprintf(line, sizeof line, "%d %d %d %lu %lu %o %lld %s\n", fds[i],
                       fcntl(fds[i], F_GETFL), fcntl(fds[i], F_GETFD),
                       (unsigned long) st.st_dev, (unsigned long) st.st_ino, st.st_mode,
                       (long long) lseek(fds[i], 0, SEEK_CUR), target);
    (void) !write(out, line, len);
  }
  (void) !write(out, "END\n", 4);
  close(out);
}

static void copy_file(const char *from, const char *to) {
  int in = open(from, O_RDONLY | O_CLOEXEC);
  if (in < 0) die(from);
  int out = book(to, O_WRONLY | O_CREAT | O_TRUNC);
  static char buf[65536];
  ssize_t n;
  while ((n = read(in, buf, sizeof buf)) > 0) (void) !write(out, buf, n);
  close(in); close(out);
}

static char siglog_path[64][512];

static void on_signal(int s, siginfo_t *si, void *u) {
  (void) u;
  char line[128];
  int save = errno;
  int n = snprintf(line, sizeof line, "%d %d %lld\n", s, (int) si->si_pid, mono());
  int fd = open(siglog_path[s < 64 ? s : 0], O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
  if (fd >= 0) { (void) !write(fd, line, n); close(fd); }
  errno = save;
}

static int hexval(int c) { return isdigit(c) ? c - '0' : tolower(c) - 'a' + 10; }

int main(int argc, char **argv) {
  rng ^= (uint64_t) getpid() * 0x9E3779B97F4A7C15ull;
  for (int i = 1; i < argc; ++i) {
    char *a = argv[i];
    char op[32] = ""; int k = 0;
    while (a[k] && a[k] != '=' && k < 31) { op[k] = a[k]; ++k; }
    op[k] = 0;
    char *v = a[k] == '=' ? a + k + 1 : a + k;
#define IS(s) (!strcmp(op, s))
    if (IS("--")) break;
    else if (IS("fds")) dump_fds(v);
    else if (IS("env")) {
      extern char **environ;
      int out = book(v, O_WRONLY | O_CREAT | O_TRUNC);
      for (char **e = environ; *e; ++e) (void) !write(out, *e, strlen(*e) + 1);
      close(out);
    }
    else if (IS("argv")) {
      int out = book(v, O_WRONLY | O_CREAT | O_TRUNC);
      for (int j = 0; j < argc; ++j) (void) !write(out, argv[j], strlen(argv[j]) + 1);
      close(out);
    }
    else if (IS("exe")) {
      char t[4096]; ssize_t l = readlink("/proc/self/exe", t, sizeof t - 1);
      t[l < 0 ? 0 : l] = 0;
      int out = book(v, O_WRONLY | O_CREAT | O_TRUNC); (void) !write(out, t, strlen(t)); close(out);
    }
    else if (IS("copy")) { /* copy=FROM:TO */
      char *c = strchr(v, ':'); *c = 0; copy_file(v, c + 1); *c = ':';
    }
    else if (IS("lsfd")) { /* lsfd=PID: descriptors of another process, on stdout */
      char d_[64]; snprintf(d_, sizeof d_, "/proc/%d/fd", atoi(v));
      DIR *d = opendir(d_); if (!d) die(d_);
      struct dirent *e; char l[512], t[4096], line[8192];
      while ((e = readdir(d))) if (isdigit((unsigned char) e->d_name[0])) {
        snprintf(l, sizeof l, "/proc/%d/fd/%s", atoi(v), e->d_name);
        ssize_t n = readlink(l, t, sizeof t - 1); if (n < 0) continue; t[n] = 0;
        int k = snprintf(line, sizeof line, "%d %s %s\n", atoi(v), e->d_name, t); (void) !write(1, line, k);
      }
      closedir(d);
    }
    else if (IS("sid")) {
      char line[128]; snprintf(line, sizeof line, "%d %d %d %d\n", getpid(), getppid(), getpgrp(), getsid(0));
      append_line(v, line);
    }
    else if (IS("mark")) { /* mark=PATH:TEXT -> "TEXT pid mono" */
      char *c = strchr(v, ':'); char line[1024];
      *c = 0; snprintf(line, sizeof line, "%s %d %lld\n", c + 1, getpid(), mono());
      append_line(v, line); *c = ':';
    }
    else if (IS("chunk")) chunk = strtoul(v, 0, 10);        /* 0: random */
    else if (IS("chunkus")) chunk_us = strtol(v, 0, 10);
    else if (IS("jitterus")) jitter_us = strtol(v, 0, 10);
    else if (IS("w") || IS("wx")) { /* w=FD:LEN:SEED:MASK[:OFF]; wx: errors end quietly, reported with exit 77 */
      int fd, mask; unsigned long len, off = 0; long seed;
      if (sscanf(v, "%d:%lu:%ld:%d:%lu", &fd, &len, &seed, &mask, &off) < 4) die("w");
      int e = emit(fd, len, seed, mask, off);
      if (e) { if (IS("wx")) _exit(e == EPIPE ? 77 : 78); errno = e; die("write"); }
    }
    else if (IS("wlog")) { /* wlog=FD:LEN:SEED:MASK:PATH  after every chunk note bytes written in PATH (mmap-free, pwrite) */
      int fd, mask, n = 0; unsigned long len; long seed;
      if (sscanf(v, "%d:%lu:%ld:%d:%n", &fd, &len, &seed, &mask, &n) < 4) die("wlog");
      int out = book(v + n, O_RDWR | O_CREAT | O_TRUNC);
      uint64_t *cell = 0;
      if (ftruncate(out, 16)) die("ftruncate");
      cell = mmap(0, 16, PROT_READ | PROT_WRITE, MAP_SHARED, out, 0);
      if (cell == MAP_FAILED) die("mmap");
      close(out);
      size_t off = 0;
      while (off < len) {
        size_t c = chunk ? chunk : 1 + rnd() % 9000;
        if (c > len - off) c = len - off;
        /* cell[1]: bytes that may have been written (begun); cell[0]: bytes surely written (returned). */
        __atomic_store_n(&cell[1], off + c, __ATOMIC_SEQ_CST);
        size_t keep = chunk; long ku = chunk_us, ju = jitter_us; chunk = c; chunk_us = jitter_us = 0;
        int e = emit(fd, c, seed, mask, off);
        chunk = keep; chunk_us = ku; jitter_us = ju;
        if (e) { errno = e; die("wlog write"); }
        off += c;
        __atomic_store_n(&cell[0], off, __ATOMIC_SEQ_CST);
        if (chunk_us) usleep(chunk_us);
        if (jitter_us) usleep(rnd() % jitter_us);
      }
    }
    else if (IS("wh")) { /* wh=FD:HEX */
      char *c = strchr(v, ':'); int fd = atoi(v); char buf[65536]; size_t n = 0;
      for (char *p = c + 1; p[0] && p[1] && n < sizeof buf; p += 2) buf[n++] = (char) (hexval(p[0]) * 16 + hexval(p[1]));
      int e = write_all(fd, buf, n); if (e) { errno = e; die("wh"); }
    }
    else if (IS("pipesz")) { int fd, n; sscanf(v, "%d:%d", &fd, &n); (void) fcntl(fd, F_SETPIPE_SZ, n); }
    else if (IS("rd")) { /* rd=FD:PATH: read FD to EOF into PATH, then "PATH.end" gets mono and errno */
      char *c = strchr(v, ':'); int fd = atoi(v);
      int out = book(c + 1, O_WRONLY | O_CREAT | O_TRUNC);
      static char buf[65536]; ssize_t n; size_t tot = 0;
      while ((n = read(fd, buf, chunk && chunk < sizeof buf ? chunk : sizeof buf)) > 0 || (n < 0 && errno == EINTR)) {
        if (n > 0) { write_all(out, buf, n); tot += n; }
        if (chunk_us) usleep(chunk_us);
      }
      int e = n < 0 ? errno : 0; close(out);
      char p[4200], line[128]; snprintf(p, sizeof p, "%s.end", c + 1);
      snprintf(line, sizeof line, "%zu %d %lld\n", tot, e, mono()); append_line(p, line);
    }
    else if (IS("rdn")) { /* rdn=FD:N:PATH read up to N bytes then go on */
      int fd, k2 = 0; long want; sscanf(v, "%d:%ld:%n", &fd, &want, &k2);
      int out = book(v + k2, O_WRONLY | O_CREAT | O_TRUNC); static char buf[65536];
      while (want > 0) { ssize_t n = read(fd, buf, want < (long) sizeof buf ? (size_t) want : sizeof buf);
        if (n < 0 && errno == EINTR) continue;
        if (n <= 0) break;
        write_all(out, buf, n); want -= n; }
      close(out);
    }
    else if (IS("cp")) { /* cp=IN:OUT: copy until EOF */
      int in, outfd; sscanf(v, "%d:%d", &in, &outfd); static char buf[65536]; ssize_t n;
      while ((n = read(in, buf, sizeof buf)) > 0 || (n < 0 && errno == EINTR))
        if (n > 0) { int e = write_all(outfd, buf, n); if (e) _exit(e == EPIPE ? 77 : 78); }
    }
    else if (IS("close")) close(atoi(v));
    else if (IS("lseek")) { int fd; long o; sscanf(v, "%d:%ld", &fd, &o); lseek(fd, o, SEEK_SET); }
    else if (IS("trunc")) { int fd; long o; sscanf(v, "%d:%ld", &fd, &o); if (ftruncate(fd, o)) die("ftruncate"); }
    else if (IS("us")) { long u = strtol(v, 0, 10); struct timespec t = { u / 1000000, (u % 1000000) * 1000 }; while (nanosleep(&t, &t) && errno == EINTR); }
    else if (IS("spin")) { long ms = atol(v); clock_t c0 = clock(); volatile unsigned x = 0; while ((clock() - c0) * 1000 / CLOCKS_PER_SEC < ms) x++; }
    else if (IS("alloc")) { size_t n = strtoul(v, 0, 10) << 20; char *p = malloc(n); if (!p) die("alloc"); memset(p, 1, n); __asm__ volatile("" :: "r"(p) : "memory"); }
    else if (IS("ign")) signal(atoi(v), SIG_IGN);
    else if (IS("dfl")) signal(atoi(v), SIG_DFL);
    else if (IS("blk")) { sigset_t s; sigemptyset(&s); sigaddset(&s, atoi(v)); sigprocmask(SIG_BLOCK, &s, 0); }
    else if (IS("sigst")) { copy_file("/proc/self/status", v); }
    else if (IS("log")) { /* log=SIG:PATH */
      char *c = strchr(v, ':'); int s = atoi(v); snprintf(siglog_path[s < 64 ? s : 0], 512, "%s", c + 1);
      struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_RESTART;
      if (sigaction(s, &sa, 0)) die("sigaction");
    }
    else if (IS("core")) { struct rlimit r = { atol(v), atol(v) }; setrlimit(RLIMIT_CORE, &r); }
    else if (IS("name")) prctl(PR_SET_NAME, v);
    else if (IS("nameh")) { char t[64]; int n = 0; for (; v[2 * n] && v[2 * n + 1] && n < 63; ++n) { unsigned x; sscanf(v + 2 * n, "%2x", &x); t[n] = (char) x; } t[n] = 0; prctl(PR_SET_NAME, t); }
    else if (IS("tty")) { if (open(v, O_RDWR) < 0) die(v); }
    else if (IS("pgrp")) setpgid(0, 0);
    else if (IS("sched")) { struct sched_param sp; memset(&sp, 0, sizeof sp); (void) !sched_setscheduler(0, atoi(v), &sp); }
    else if (IS("rsslim")) { struct rlimit r = { atol(v), atol(v) }; setrlimit(RLIMIT_RSS, &r); }
    else if (IS("killp")) { /* killp=SIG:COUNT:US signal the parent */
      int sg, n, us; sscanf(v, "%d:%d:%d", &sg, &n, &us); pid_t p = getppid(); while (n-- > 0 && getppid() == p) { kill(p, sg); usleep(us); } }
    else if (IS("raise")) kill(getpid(), atoi(v));
    else if (IS("threads")) { for (int j = atoi(v); j > 0; --j) { pthread_t t; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 65536); if (pthread_create(&t, &at, idle_thread, 0)) die("thread"); } }
    else if (IS("vmiss")) { /* voluntary switches */ for (int j = atoi(v); j > 0; --j) usleep(50); }
    else if (IS("touch")) { char t[4200]; snprintf(t, sizeof t, "%s.tmp%d", v, getpid()); int fd = book(t, O_WRONLY | O_CREAT); close(fd); if (rename(t, v)) die(v); }
    else if (IS("waitfile")) { while (access(v, F_OK)) usleep(1000); }
    else if (IS("waitanysig")) pause();
    else if (IS("pause")) for (;;) pause();
    else if (IS("stop")) raise(SIGSTOP);
    else if (IS("nice")) { (void) !nice(atoi(v)); }
    else if (IS("setsid")) setsid();
    else if (IS("orphanwait")) { /* wait until reparented */ pid_t p = getppid(); (void) p; while (getppid() == atoi(v)) usleep(1000); }
    else if (IS("wait")) { while (wait(0) > 0 || errno == EINTR); }
    else if (IS("fork{")) {
      pid_t p = fork();
      if (p < 0) die("fork");
      if (p > 0) { int depth = 1; while (++i < argc && depth) { if (!strcmp(argv[i], "fork{")) depth++; else if (!strcmp(argv[i], "}")) depth--; } --i; }
    }
    else if (IS("}")) _exit(0);
    else if (IS("exit")) { _exit(atoi(v)); }
    else if (IS("kill")) { int s = atoi(v); if (s != SIGKILL && s != SIGSTOP) signal(s, SIG_DFL);
      sigset_t ss; sigemptyset(&ss); sigaddset(&ss, s); sigprocmask(SIG_UNBLOCK, &ss, 0); kill(getpid(), s); for (;;) pause(); }
    else if (IS("x")) { /* inert argument */ }
    else { errno = EINVAL; die(a); }
  }
  return 0;
}
