/* Simulated disk and wall clock for one process.
 *
 * Preloaded into the interpreter.  Off until armed.  While armed it sees every call that changes or
 * reads a file below one directory, numbers them, and, at the numbers it was given, makes the call fail,
 * write short, or end the process - so a run's disk history is a function of the plan.  The wall clock,
 * when set, advances by a fixed step per reading and jumps at given readings.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { K_OPEN = 1, K_WRITE, K_TRUNC, K_RENAME, K_UNLINK, K_MKDIR, K_SYNC, K_CLOSE, K_RMDIR };
enum { A_FAIL = 1, A_SHORT, A_KILL, A_TORN, A_FULL, A_FULLFROM_READ };
#define MAXF 64
#define MAXFD 4096

static int armed = 0, logfd = -1;
static char root[PATH_MAX];
static size_t rootlen = 0;
static long n_mut = 0, n_read = 0, n_fired = 0;
static struct { long at; int cls; int action; int err; long arg; long fired; } faults[MAXF];
static int n_faults = 0;
static char *fdpath[MAXFD];
static int fdflags[MAXFD];
static long quota = -1, used_bytes = 0;

static int clock_on = 0;
static int64_t clock_base = 0, clock_step = 0;
static long clock_calls = 0;
static struct { long at; int64_t jump; } jumps[MAXF];
static int n_jumps = 0;

#define REAL(name) ({ static __typeof__(&name) p; if (!p) p = (__typeof__(&name))dlsym(RTLD_NEXT, #name); p; })

void simdisk_arm(const char *r, const char *logpath) {
  armed = 0;
  for (int i = 0; i < MAXFD; i++) if (fdpath[i]) { free(fdpath[i]); fdpath[i] = 0; }
  n_mut = n_read = n_fired = 0; n_faults = 0; quota = -1; used_bytes = 0;
  if (logfd >= 0) { syscall(SYS_close, logfd); logfd = -1; }
  if (logpath && *logpath) logfd = syscall(SYS_openat, AT_FDCWD, logpath, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
  snprintf(root, sizeof root, "%s", r); rootlen = strlen(root);
  armed = 1;
}
void simdisk_disarm(void) { armed = 0; if (logfd >= 0) { syscall(SYS_close, logfd); logfd = -1; } }
void simdisk_fault(long at, int cls, int action, int err, long arg) {
  if (n_faults < MAXF) { faults[n_faults].at = at; faults[n_faults].cls = cls; faults[n_faults].action = action;
    faults[n_faults].err = err; faults[n_faults].arg = arg; faults[n_faults].fired = 0; n_faults++; }
}
void simdisk_quota(long bytes) { quota = bytes; used_bytes = 0; }
long simdisk_mutations(void) { return n_mut; }
long simdisk_reads(void) { return n_read; }
long simdisk_fired(void) { return n_fired; }
void simclock_set(int64_t base_ns, int64_t step_ns) { clock_on = 1; clock_base = base_ns; clock_step = step_ns; clock_calls = 0; n_jumps = 0; }
void simclock_jump(long at, int64_t delta_ns) { if (n_jumps < MAXF) { jumps[n_jumps].at = at; jumps[n_jumps].jump = delta_ns; n_jumps++; } }
void simclock_off(void) { clock_on = 0; }
long simclock_calls(void) { return clock_calls; }
int64_t simclock_now(void) { int64_t t = clock_base + clock_step * clock_calls; for (int i = 0; i < n_jumps; i++) if (clock_calls >= jumps[i].at) t += jumps[i].jump; return t; }

static int64_t tick(void) { clock_calls++; return simclock_now(); }

static int under(const char *p, char *out) {
  if (!armed || !p) return 0;
  if (p[0] != '/') {
    char cwd[PATH_MAX];
    if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) return 0;
    snprintf(out, PATH_MAX, "%s/%s", cwd, p);
  } else snprintf(out, PATH_MAX, "%s", p);
  return strncmp(out, root, rootlen) == 0 && (out[rootlen] == '/' || out[rootlen] == 0);
}
static const char *fdp(int fd) { return (armed && fd >= 0 && fd < MAXFD) ? fdpath[fd] : 0; }
static void track(int fd, const char *p, int flags) {
  if (fd < 0 || fd >= MAXFD) return;
  if (fdpath[fd]) { free(fdpath[fd]); fdpath[fd] = 0; }
  if (p) { fdpath[fd] = strdup(p); fdflags[fd] = flags; }
}
static void put(const void *b, size_t n) { if (logfd >= 0) { const char *c = b; while (n) { long k = syscall(SYS_write, logfd, c, n); if (k <= 0) return; c += k; n -= k; } } }
static void logop(int kind, const char *p, int64_t off, int64_t len, const void *data, size_t dlen) {
  if (logfd < 0) return;
  unsigned char k = kind; uint16_t pl = strlen(p); int64_t dl = dlen;
  put(&k, 1); put(&pl, 2); put(p, pl); put(&off, 8); put(&len, 8); put(&dl, 8); if (dlen) put(data, dlen);
}
/* decide about operation number n of class cls (0 mutation, 1 read); returns action or 0 */
static int decide(int cls, int *err, long *arg) {
  long n = cls ? n_read++ : n_mut++;
  for (int i = 0; i < n_faults; i++) {
    if (faults[i].cls != cls) continue;
    int persistent = faults[i].action == A_FULL || faults[i].action == A_FULLFROM_READ;
    if (faults[i].at == n || (persistent && n >= faults[i].at)) {
      faults[i].fired++; n_fired++;
      *err = faults[i].err; *arg = faults[i].arg;
      return faults[i].action;
    }
  }
  return 0;
}
static void die(void) { syscall(SYS_exit_group, 77); }

/* mutation that carries no data: 1 = fail (errno set) */
static int simple(int kind, const char *p, int64_t a) {
  int err = 0; long arg = 0;
  int act = decide(0, &err, &arg);
  if (act == A_KILL || act == A_TORN) die();
  if (act == A_FAIL || act == A_SHORT) { errno = err; return 1; }
  if (act == A_FULL && kind != K_CLOSE && kind != K_SYNC && kind != K_UNLINK && kind != K_RENAME && kind != K_RMDIR) {
    if (!(kind == K_TRUNC)) { errno = err; return 1; }
  }
  logop(kind, p, a, 0, 0, 0);
  return 0;
}

static int do_open(int (*raw)(const char *, int, mode_t, int), const char *path, int flags, mode_t mode, int dirfd) {
  char full[PATH_MAX];
  if (!under(path, full)) { int fd = raw(path, flags, mode, dirfd); if (fd >= 0 && fd < MAXFD && fdpath[fd]) track(fd, 0, 0); return fd; }
  int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  if (wr) {
    struct stat st; int exists = syscall(SYS_newfstatat, AT_FDCWD, full, &st, 0) == 0;
    if (!exists && !(flags & O_CREAT)) return raw(path, flags, mode, dirfd);
    if (exists && !(flags & O_TRUNC)) { /* opening for change: counted, changes nothing by itself */ }
    int err = 0; long arg = 0; int act = decide(0, &err, &arg);
    if (act == A_KILL || act == A_TORN) die();
    if (act == A_FAIL || act == A_SHORT) { errno = err; return -1; }
    if (act == A_FULL && !exists) { errno = err; return -1; }
    int fd = raw(path, flags, mode, dirfd);
    if (fd >= 0) { track(fd, full, flags); logop(K_OPEN, full, (flags & O_TRUNC) ? 1 : 0, exists, 0, 0); }
    return fd;
  }
  if (flags & O_DIRECTORY) return raw(path, flags, mode, dirfd);
  struct stat st;
  if (syscall(SYS_newfstatat, AT_FDCWD, full, &st, 0) != 0) return raw(path, flags, mode, dirfd);
  int err = 0; long arg = 0; int act = decide(1, &err, &arg);
  if (act == A_KILL) die();
  if (act) { errno = err; return -1; }
  int fd = raw(path, flags, mode, dirfd);
  if (fd >= 0) track(fd, full, flags);
  return fd;
}
static int raw_open(const char *p, int f, mode_t m, int d) { long r = syscall(SYS_openat, d, p, f, m); return (int)r; }
#define MODE() mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { MODE(); return do_open(raw_open, p, flags, mode, AT_FDCWD); }
int open64(const char *p, int flags, ...) { MODE(); return do_open(raw_open, p, flags, mode, AT_FDCWD); }
int openat(int d, const char *p, int flags, ...) { MODE(); if (d != AT_FDCWD && p[0] != '/') return raw_open(p, flags, mode, d); return do_open(raw_open, p, flags, mode, AT_FDCWD); }
int openat64(int d, const char *p, int flags, ...) { MODE(); if (d != AT_FDCWD && p[0] != '/') return raw_open(p, flags, mode, d); return do_open(raw_open, p, flags, mode, AT_FDCWD); }
int creat(const char *p, mode_t m) { return do_open(raw_open, p, O_CREAT | O_WRONLY | O_TRUNC, m, AT_FDCWD); }
int creat64(const char *p, mode_t m) { return do_open(raw_open, p, O_CREAT | O_WRONLY | O_TRUNC, m, AT_FDCWD); }

static FILE *do_fopen(FILE *(*raw)(const char *, const char *), const char *p, const char *m) {
  char full[PATH_MAX];
  if (!under(p, full)) return raw(p, m);
  struct stat st;
  if (m[0] == 'r' && !strchr(m, '+')) {
    if (syscall(SYS_newfstatat, AT_FDCWD, full, &st, 0) != 0) return raw(p, m);
    int err = 0; long arg = 0; int act = decide(1, &err, &arg);
    if (act == A_KILL) die();
    if (act) { errno = err; return 0; }
  } else if (simple(K_OPEN, full, m[0] == 'w')) return 0;
  return raw(p, m);
}
FILE *fopen(const char *p, const char *m) { return do_fopen(REAL(fopen), p, m); }
FILE *fopen64(const char *p, const char *m) { return do_fopen(REAL(fopen64), p, m); }

static int64_t raw_write(int fd, const void *b, size_t n, int64_t off, int positional) {
  return positional ? syscall(SYS_pwrite64, fd, b, n, off) : syscall(SYS_write, fd, b, n);
}
static ssize_t do_write(int fd, const void *b, size_t n, int64_t off, int positional) {
  const char *p = fdp(fd);
  if (!p) return raw_write(fd, b, n, off, positional);
  int64_t at = off;
  if (!positional) {
    if (fdflags[fd] & O_APPEND) { struct stat st; fstat(fd, &st); at = st.st_size; } else at = syscall(SYS_lseek, fd, 0, SEEK_CUR);
  }
  int err = 0; long arg = 0; int act = decide(0, &err, &arg);
  if (act == A_KILL) die();
  if (act == A_TORN) { size_t k = arg > 0 && (size_t)arg < n ? (size_t)arg : n / 2; if (k) { raw_write(fd, b, k, off, positional); } die(); }
  if (act == A_FAIL) { errno = err; return -1; }
  if (act == A_FULL) { errno = err; return -1; }
  if (quota >= 0 && used_bytes + (int64_t)n > quota) {
    /* the disk is full: what still fits is written, then ENOSPC */
    int64_t k = quota - used_bytes; n_fired++;
    if (k <= 0) { errno = ENOSPC; return -1; }
    n = k;
  }
  if (act == A_SHORT && n > 1) n = arg > 0 && (size_t)arg < n ? (size_t)arg : n / 2;
  ssize_t r = raw_write(fd, b, n, off, positional);
  if (r > 0) { used_bytes += r; logop(K_WRITE, p, at, r, b, r); }
  return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o, 1); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!fdp(fd)) return syscall(SYS_writev, fd, v, c);
  ssize_t t = 0;
  for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; }
  return t;
}
static int do_trunc(int fd, int64_t n) {
  const char *p = fdp(fd);
  if (p && simple(K_TRUNC, p, n)) return -1;
  return syscall(SYS_ftruncate, fd, n);
}
int ftruncate(int fd, off_t n) { return do_trunc(fd, n); }
int ftruncate64(int fd, off64_t n) { return do_trunc(fd, n); }
int fsync(int fd) { const char *p = fdp(fd); if (p && simple(K_SYNC, p, 0)) return -1; return syscall(SYS_fsync, fd); }
int fdatasync(int fd) { const char *p = fdp(fd); if (p && simple(K_SYNC, p, 0)) return -1; return syscall(SYS_fdatasync, fd); }
int close(int fd) {
  const char *p = fdp(fd);
  int bad = 0;
  if (p) {
    if ((fdflags[fd] & O_ACCMODE) != O_RDONLY) bad = simple(K_CLOSE, p, 0);
    int e = errno;
    track(fd, 0, 0);
    int r = syscall(SYS_close, fd);
    if (bad) { errno = e; return -1; }
    return r;
  }
  if (fd >= 0 && fd < MAXFD && fdpath[fd]) track(fd, 0, 0);
  return syscall(SYS_close, fd);
}
static int do_rename(const char *a, const char *b) {
  char fa[PATH_MAX], fb[PATH_MAX];
  int ua = under(a, fa), ub = under(b, fb);
  if (ua || ub) {
    char both[2 * PATH_MAX + 2]; snprintf(both, sizeof both, "%s\n%s", fa, fb);
    if (simple(K_RENAME, both, 0)) return -1;
  }
  return syscall(SYS_rename, a, b);
}
int rename(const char *a, const char *b) { return do_rename(a, b); }
int renameat(int da, const char *a, int db, const char *b) { if ((da != AT_FDCWD && a[0] != '/') || (db != AT_FDCWD && b[0] != '/')) return syscall(SYS_renameat, da, a, db, b); return do_rename(a, b); }
int unlink(const char *a) { char f[PATH_MAX]; if (under(a, f) && simple(K_UNLINK, f, 0)) return -1; return syscall(SYS_unlink, a); }
int unlinkat(int d, const char *a, int fl) { char f[PATH_MAX]; if ((d == AT_FDCWD || a[0] == '/') && under(a, f) && simple(K_UNLINK, f, 0)) return -1; return syscall(SYS_unlinkat, d, a, fl); }
int rmdir(const char *a) { char f[PATH_MAX]; if (under(a, f) && simple(K_RMDIR, f, 0)) return -1; return syscall(SYS_rmdir, a); }
int mkdir(const char *a, mode_t m) { char f[PATH_MAX]; struct stat st;
  if (under(a, f) && syscall(SYS_newfstatat, AT_FDCWD, f, &st, 0) != 0 && simple(K_MKDIR, f, 0)) return -1; return syscall(SYS_mkdir, a, m); }
int mkdirat(int d, const char *a, mode_t m) { if (d == AT_FDCWD || a[0] == '/') return mkdir(a, m); return syscall(SYS_mkdirat, d, a, m); }

static ssize_t do_read(int fd, void *b, size_t n, int64_t off, int positional) {
  const char *p = fdp(fd);
  if (p) {
    int err = 0; long arg = 0; int act = decide(1, &err, &arg);
    if (act == A_KILL) die();
    if (act == A_SHORT) { if (n > 1) n = n / 2; }
    else if (act) { errno = err; return -1; }
  }
  return positional ? syscall(SYS_pread64, fd, b, n, off) : syscall(SYS_read, fd, b, n);
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, 1); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_read(fd, b, n, o, 1); }

int clock_gettime(clockid_t c, struct timespec *ts) {
  if (clock_on && c == CLOCK_REALTIME) { int64_t t = tick(); ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000; return 0; }
  return syscall(SYS_clock_gettime, c, ts);
}
int gettimeofday(struct timeval *tv, void *tz) {
  (void)tz;
  if (clock_on) { int64_t t = tick(); tv->tv_sec = t / 1000000000; tv->tv_usec = (t % 1000000000) / 1000; return 0; }
  return syscall(SYS_gettimeofday, tv, tz);
}
time_t time(time_t *t) {
  time_t v;
  if (clock_on) v = tick() / 1000000000; else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; }
  if (t) *t = v;
  return v;
}
