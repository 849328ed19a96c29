/* LD_PRELOAD monitor and fault injector for the cargo-mutants process only.
 *
 * Configured by environment variables, all removed (with LD_PRELOAD) in the constructor so
 * that child processes do not see them:
 *   VM_PRE_LOG=<file>       append one line per file-system-changing call and per kill
 *   VM_PRE_SLEEPCAP=<us>    cap sleeps (the program's polling interval) at this many microseconds
 *   VM_PRE_CLOCK=<n>        CLOCK_MONOTONIC runs n times as fast, as the program sees it
 *   VM_PRE_DELAY=<us>:<seed> random delay before each logged call, to vary interleavings
 *   VM_PRE_FAULT=<ops>:<substr>:<nth>:<what>   at the nth matching call do <what>:
 *        e<errno>  fail with errno       k  SIGKILL self before the call
 *        K  SIGKILL self after the call  s  short write (half), later writes to that fd ENOSPC
 *        S<signo>  raise the signal before the call
 *     <ops> is a comma-separated list of names as they appear in the log, or openr, opendir,
 *     readlink (which are not logged).
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

static int logfd = -1;
static long sleepcap = 0, delay_us = 0, warp = 0;
static long long warp0 = 0;
static unsigned long rng;
static char f_ops[256], f_sub[1024], f_what[32];
static long f_nth = 0, f_count = 0;
static int f_on = 0, short_fd = -1;
static pid_t self;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

static long long nowns(void) {
  struct timespec t;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
  return t.tv_sec * 1000000000LL + t.tv_nsec;
}

__attribute__((constructor)) static void init(void) {
  char *e;
  self = getpid();
  if ((e = getenv("VM_PRE_LOG"))) {
    int fd = syscall(SYS_openat, AT_FDCWD, e, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0644);
    logfd = fcntl(fd, F_DUPFD_CLOEXEC, 700);
    if (logfd < 0) logfd = fd; else syscall(SYS_close, fd);
  }
  if ((e = getenv("VM_PRE_SLEEPCAP"))) sleepcap = atol(e);
  if ((e = getenv("VM_PRE_DELAY"))) {
    delay_us = atol(e);
    char *c = strchr(e, ':');
    rng = c ? strtoul(c + 1, 0, 10) * 2654435761u + 1 : 1;
  }
  if ((e = getenv("VM_PRE_FAULT"))) {
    char buf[2048];
    snprintf(buf, sizeof buf, "%s", e);
    char *save = buf, *a = strsep(&save, ":"), *b = strsep(&save, ":"), *c = strsep(&save, ":"), *d = save;
    if (a && b && c && d) {
      snprintf(f_ops, sizeof f_ops, ",%s,", a);
      snprintf(f_sub, sizeof f_sub, "%s", b);
      f_nth = atol(c);
      snprintf(f_what, sizeof f_what, "%s", d);
      f_on = 1;
    }
  }
  if ((e = getenv("VM_PRE_CLOCK"))) { warp = atol(e); warp0 = nowns(); }
  unsetenv("VM_PRE_CLOCK");
  unsetenv("LD_PRELOAD");
  unsetenv("VM_PRE_LOG");
  unsetenv("VM_PRE_SLEEPCAP");
  unsetenv("VM_PRE_DELAY");
  unsetenv("VM_PRE_FAULT");
}

static void logline(const char *op, const char *path, long ret, int err) {
  if (logfd < 0 || getpid() != self) return;
  char buf[5000];
  char cwd[2048] = "";
  if (path[0] != '/') {
    if (!getcwd(cwd, sizeof cwd - 2)) cwd[0] = 0;
    strcat(cwd, "/");
  }
  int n = snprintf(buf, sizeof buf, "%s\t%s%s\t%ld\t%d\t%lld\n", op, cwd, path, ret, ret < 0 ? err : 0, nowns());
  if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
  syscall(SYS_write, logfd, buf, n);
}

/* returns 0: go on; 1: fail with errno set; 2: kill after; 3: short write */
static int fault(const char *op, const char *path) {
  if (getpid() != self) return 0;
  if (delay_us) {
    pthread_mutex_lock(&mu);
    rng = rng * 6364136223846793005UL + 1442695040888963407UL;
    long us = (rng >> 33) % delay_us;
    pthread_mutex_unlock(&mu);
    struct timespec t = {us / 1000000, (us % 1000000) * 1000};
    syscall(SYS_nanosleep, &t, 0);
  }
  if (!f_on) return 0;
  char key[64];
  snprintf(key, sizeof key, ",%s,", op);
  if (!strstr(f_ops, key) || !strstr(path, f_sub)) return 0;
  pthread_mutex_lock(&mu);
  long k = ++f_count;
  pthread_mutex_unlock(&mu);
  if (k != f_nth) return 0;
  logline("FAULT", path, k, 0);
  switch (f_what[0]) {
    case 'e': errno = atoi(f_what + 1); return 1;
    case 'k': syscall(SYS_kill, self, SIGKILL); pause(); return 0;
    case 'K': return 2;
    case 's': return 3;
    case 'S': syscall(SYS_kill, self, atoi(f_what + 1)); return 0;
  }
  return 0;
}
static void after(int f) {
  if (f == 2) { syscall(SYS_kill, self, SIGKILL); pause(); }
}

#define REAL(fn) static __typeof__(&fn) real; if (!real) real = (__typeof__(&fn))dlsym(RTLD_NEXT, #fn)

static const char *fdpath(int fd, char *buf, size_t n) {
  char l[64];
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t k = syscall(SYS_readlinkat, AT_FDCWD, l, buf, n - 1);
  if (k < 0) k = 0;
  buf[k] = 0;
  return buf;
}
static const char *atpath(int dirfd, const char *p, char *buf, size_t n) {
  if (p[0] == '/' || dirfd == AT_FDCWD) return p;
  char d[2048];
  fdpath(dirfd, d, sizeof d);
  snprintf(buf, n, "%s/%s", d, p);
  return buf;
}
/* reads are only looked at when a fault was asked for them */
static int rfault(const char *op, const char *path) {
  if (!f_on) return 0;
  char key[64];
  snprintf(key, sizeof key, ",%s,", op);
  return strstr(f_ops, key) && fault(op, path) == 1;
}
#define WRITEISH(fl) (((fl) & O_ACCMODE) != O_RDONLY || ((fl) & (O_CREAT | O_TRUNC)))

typedef int (*open_t)(const char *, int, ...);
typedef int (*openat_t)(int, const char *, int, ...);
#define OPENBODY(NAME)                                                        \
  REAL(NAME);                                                         \
  mode_t m = 0;                                                               \
  if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } \
  if (!WRITEISH(fl)) { if (rfault("openr", p)) return -1; return real(p, fl, m); }                                   \
  const char *op = (fl & O_EXCL) ? "create" : (fl & O_TRUNC) ? "trunc" : (fl & O_APPEND) ? "append" : "openw"; \
  int f = fault(op, p);                                                       \
  if (f == 1) { int e = errno; logline(op, p, -1, e); errno = e; return -1; } \
  int r = real(p, fl, m), e = errno;                                          \
  logline(op, p, r, e); after(f); errno = e; return r;
int open(const char *p, int fl, ...) { OPENBODY(open) }
int open64(const char *p, int fl, ...) { OPENBODY(open64) }
#define OPENATBODY(NAME)                                                      \
  REAL(NAME);                                                       \
  mode_t m = 0;                                                               \
  if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } \
  if (!WRITEISH(fl)) { if (rfault("openr", p)) return -1; return real(dfd, p, fl, m); }                              \
  char b[4096]; const char *q = atpath(dfd, p, b, sizeof b);                  \
  const char *op = (fl & O_EXCL) ? "create" : (fl & O_TRUNC) ? "trunc" : (fl & O_APPEND) ? "append" : "openw"; \
  int f = fault(op, q);                                                       \
  if (f == 1) { int e = errno; logline(op, q, -1, e); errno = e; return -1; } \
  int r = real(dfd, p, fl, m), e = errno;                                     \
  logline(op, q, r, e); after(f); errno = e; return r;
int openat(int dfd, const char *p, int fl, ...) { OPENATBODY(openat) }
int openat64(int dfd, const char *p, int fl, ...) { OPENATBODY(openat64) }

DIR *opendir(const char *p) {
  REAL(opendir);
  if (rfault("opendir", p)) return NULL;
  return real(p);
}
ssize_t readlink(const char *p, char *b, size_t n) {
  REAL(readlink);
  if (rfault("readlink", p)) return -1;
  return real(p, b, n);
}

ssize_t write(int fd, const void *buf, size_t n) {
  REAL(write);
  if (fd == short_fd && n) { errno = 28; return -1; }
  if ((logfd < 0 && !f_on) || fd <= 2) return real(fd, buf, n);
  char b[4096]; const char *q = fdpath(fd, b, sizeof b);
  if (q[0] != '/') return real(fd, buf, n);
  int f = fault("write", q);
  if (f == 1) { int e = errno; logline("write", q, -1, e); errno = e; return -1; }
  if (f == 3) { short_fd = fd; n = n / 2; }
  ssize_t r = real(fd, buf, n); int e = errno;
  logline("write", q, r, e); after(f); errno = e; return r;
}
int close(int fd) {
  REAL(close);
  if (fd == short_fd) short_fd = -1;
  return real(fd);
}

#define ONEPATH(RET, NAME, SIG, CALL)                                         \
RET NAME SIG {                                                                \
  REAL(NAME);                                                   \
  int f = fault(#NAME, p);                                                    \
  if (f == 1) { int e = errno; logline(#NAME, p, -1, e); errno = e; return -1; } \
  RET r = real CALL; int e = errno;                                           \
  logline(#NAME, p, r, e); after(f); errno = e; return r; }
ONEPATH(int, unlink, (const char *p), (p))
ONEPATH(int, rmdir, (const char *p), (p))
ONEPATH(int, mkdir, (const char *p, mode_t m), (p, m))
ONEPATH(int, chmod, (const char *p, mode_t m), (p, m))
ONEPATH(int, truncate, (const char *p, off_t m), (p, m))
ONEPATH(int, truncate64, (const char *p, off64_t m), (p, m))

#define TWOPATH(NAME)                                                         \
int NAME(const char *o, const char *p) {                                      \
  REAL(NAME);                           \
  char b[4096]; snprintf(b, sizeof b, "%s -> %s", o, p);                      \
  int f = fault(#NAME, b);                                                    \
  if (f == 1) { int e = errno; logline(#NAME, b, -1, e); errno = e; return -1; } \
  int r = real(o, p), e = errno;                                              \
  if (!strcmp(#NAME, "rename")) logline("rename_from", o, r, e);              \
  logline(#NAME, p, r, e); after(f); errno = e; return r; }
TWOPATH(rename)
TWOPATH(symlink)
TWOPATH(link)

int unlinkat(int dfd, const char *p, int fl) {
  REAL(unlinkat);
  char b[4096]; const char *q = atpath(dfd, p, b, sizeof b);
  int f = fault("unlinkat", q);
  if (f == 1) { int e = errno; logline("unlinkat", q, -1, e); errno = e; return -1; }
  int r = real(dfd, p, fl), e = errno;
  logline("unlinkat", q, r, e); after(f); errno = e; return r;
}
int mkdirat(int dfd, const char *p, mode_t m) {
  REAL(mkdirat);
  char b[4096]; const char *q = atpath(dfd, p, b, sizeof b);
  int r = real(dfd, p, m), e = errno;
  logline("mkdirat", q, r, e); errno = e; return r;
}
#define FD1(RET, NAME, T)                                                     \
RET NAME(int fd, T m) {                                                       \
  REAL(NAME);                                               \
  char b[4096]; const char *q = fdpath(fd, b, sizeof b);                      \
  int f = fault(#NAME, q);                                                    \
  if (f == 1) { int e = errno; logline(#NAME, q, -1, e); errno = e; return -1; } \
  RET r = real(fd, m); int e = errno;                                         \
  logline(#NAME, q, r, e); after(f); errno = e; return r; }
FD1(int, fchmod, mode_t)
FD1(int, ftruncate, off_t)
FD1(int, ftruncate64, off64_t)

ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned fl) {
  REAL(copy_file_range);
  char b[4096]; const char *q = fdpath(o, b, sizeof b);
  int f = fault("copy_file_range", q);
  if (f == 1) { int e = errno; logline("copy_file_range", q, -1, e); errno = e; return -1; }
  ssize_t r = real(i, io, o, oo, n, fl); int e = errno;
  logline("copy_file_range", q, r, e); after(f); errno = e; return r;
}

int kill(pid_t p, int s) {
  REAL(kill);
  int r = real(p, s), e = errno;
  char b[64]; snprintf(b, sizeof b, "/%d/%d", (int)p, s);
  logline("kill", b, r, e); errno = e; return r;
}
int killpg(pid_t p, int s) {
  REAL(killpg);
  int r = real(p, s), e = errno;
  char b[64]; snprintf(b, sizeof b, "/%d/%d", -(int)p, s);
  logline("killpg", b, r, e); errno = e; return r;
}

static void cap(struct timespec *t) {
  if (sleepcap && (t->tv_sec > 0 || t->tv_nsec > sleepcap * 1000)) {
    t->tv_sec = sleepcap / 1000000;
    t->tv_nsec = (sleepcap % 1000000) * 1000;
  }
}
int nanosleep(const struct timespec *a, struct timespec *b) {
  REAL(nanosleep);
  struct timespec t = *a;
  cap(&t);
  return real(&t, b);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
  REAL(clock_nanosleep);
  struct timespec t = *a;
  if (!(fl & TIMER_ABSTIME)) cap(&t);
  return real(c, fl, &t, b);
}

int clock_gettime(clockid_t c, struct timespec *t) {
  int r = syscall(SYS_clock_gettime, c, t);
  if (r == 0 && warp > 1 && c == CLOCK_MONOTONIC) {
    long long n = t->tv_sec * 1000000000LL + t->tv_nsec;
    n = warp0 + (n - warp0) * warp;
    t->tv_sec = n / 1000000000LL;
    t->tv_nsec = n % 1000000000LL;
  }
  return r;
}
