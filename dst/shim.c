// Storage seam of the simulator (LD_PRELOAD): every file-related system call of the code
// under test passes through here.  Armed by the simulator only while an operation runs;
// decides faults from an explicit plan, so a run is a pure function of the plan.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <langinfo.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/sendfile.h>
#include <time.h>
#include <unistd.h>

enum { K_OPEN, K_READ, K_WRITE, K_CLOSE, K_META, K_N };
enum { A_ERR = 1, A_SHORT, A_PARTERR, A_CRASH, A_CLOSELOSS };

typedef struct { int kind, nth, act, arg, err, fired, on; } fault_t;  // on: from the n-th call on
#define MAXF 64
#define MAXLOG 4096
#define MAXFD 1024
static fault_t plan[MAXF];
static int nplan;
static int armed;
static int count[K_N];
static char prefix[512];
static int chunk_r, chunk_w;      // upper bound of each transfer (0: none)
static uint64_t rng;              // for transfer sizes
static int eintr_every;           // 1 in n read/write/open calls returns EINTR (0: none)
static long quota = -1;           // bytes that may still be written (-1: no limit)
static int pend_err[MAXFD];       // error the next write on the descriptor returns
static unsigned char tracked[MAXFD];
static unsigned char wr[MAXFD];
static off_t before_last[MAXFD];  // file size before the last write
static int have_before[MAXFD];
typedef struct { int kind, fd; long res; int err; int fault; int flags; char path[160]; } log_t;
static log_t logv[MAXLOG];
static int nlog;
static long fired_n[16];          // by action: 0 eintr,1 err,2 short,3 parterr,4 crash,5 closeloss,6 chunk,7 quota
static double vclock = 0;         // offset of the clock (environments)
// simulated machine: clock, time stamps of files, randomness and process number of a run
static int sim;
static char simprefix[512];
static int64_t simnow;            // nanoseconds since 1970
static uint64_t simrng;
static int simpid;
static unsigned char simfd[MAXFD];

#define REAL(ret, name, ...) \
  static ret (*real_##name)(__VA_ARGS__); \
  if (!real_##name) real_##name = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

static uint64_t next(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

// ---- control (ctypes) -------------------------------------------------------
void dst_reset(const char *p, uint64_t seed, int cr, int cw, int eintr, long q) {
  strncpy(prefix, p, sizeof prefix - 1);
  rng = seed * 2685821657736338717ULL + 88172645463325252ULL; if (!rng) rng = 1;
  chunk_r = cr; chunk_w = cw; eintr_every = eintr; quota = q;
  nplan = 0; nlog = 0; armed = 0;
  memset(count, 0, sizeof count); memset(pend_err, 0, sizeof pend_err);
  memset(tracked, 0, sizeof tracked); memset(wr, 0, sizeof wr); memset(have_before, 0, sizeof have_before);
  memset(fired_n, 0, sizeof fired_n);
}
int dst_fault(int kind, int nth, int act, int arg, int err) {
  if (nplan >= MAXF) return -1;
  plan[nplan++] = (fault_t){kind, nth, act & 255, arg, err, 0, act >> 8};
  return 0;
}
void dst_clear(void) { nplan = 0; chunk_r = chunk_w = 0; eintr_every = 0; quota = -1; memset(pend_err, 0, sizeof pend_err); }
void dst_arm(int on) { armed = on; }
int dst_armed(void) { return armed; }
int dst_nlog(void) { return nlog; }
int dst_count(int k) { return count[k]; }
long dst_fired(int a) { return fired_n[a]; }
int dst_plan_fired(int i) { return plan[i].fired; }
int dst_log(int i, int *kind, int *fd, long *res, int *err, int *fault, int *flags, char *path) {
  if (i < 0 || i >= nlog) return -1;
  log_t *l = &logv[i];
  *kind = l->kind; *fd = l->fd; *res = l->res; *err = l->err; *fault = l->fault; *flags = l->flags;
  strcpy(path, l->path);
  return 0;
}
int dst_open_tracked(void) { int n = 0; for (int i = 0; i < MAXFD; i++) n += tracked[i]; return n; }
int dst_present(void) { return 4711; }

static void put(int kind, int fd, long res, int err, int fault, int flags, const char *path) {
  if (nlog >= MAXLOG) return;
  log_t *l = &logv[nlog++];
  l->kind = kind; l->fd = fd; l->res = res; l->err = err; l->fault = fault; l->flags = flags;
  l->path[0] = 0;
  if (path) { strncpy(l->path, path, sizeof l->path - 1); l->path[sizeof l->path - 1] = 0; }
}

// absolute path into buf
static void absolute(int dirfd, const char *path, char *buf, size_t n) {
  if (path[0] == '/') { snprintf(buf, n, "%s", path); return; }
  char base[400]; base[0] = 0;
  if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) base[0] = 0; }
  else {
    char p[64]; snprintf(p, sizeof p, "/proc/self/fd/%d", dirfd);
    ssize_t k = readlink(p, base, sizeof base - 1); base[k > 0 ? k : 0] = 0;
  }
  snprintf(buf, n, "%s/%s", base, path);
}
static int ours(const char *abs_) { return prefix[0] && !strncmp(abs_, prefix, strlen(prefix)); }

static fault_t *pick(int kind) {
  int k = count[kind]++;
  for (int i = 0; i < nplan; i++)
    if (plan[i].kind == kind && (plan[i].on ? k >= plan[i].nth : !plan[i].fired && plan[i].nth == k)) { plan[i].fired = 1; return &plan[i]; }
  return NULL;
}
static int eintr(void) {
  if (eintr_every && next() % (uint64_t)eintr_every == 0) { fired_n[0]++; return 1; }
  return 0;
}
static void crash(void) { fired_n[A_CRASH]++; _exit(77); }

// ---- simulated machine --------------------------------------------------------
void dst_sim(const char *p, int64_t start, uint64_t seed, int pid) {
  strncpy(simprefix, p, sizeof simprefix - 1);
  simnow = start; simrng = seed * 2685821657736338717ULL + 88172645463325252ULL; if (!simrng) simrng = 1;
  simpid = pid; sim = 1; memset(simfd, 0, sizeof simfd);
}
// A fork: the child has a number and random numbers of its own.
static int oldpid; static uint64_t oldrng;
void dst_fork(int n) {
  oldpid = simpid; oldrng = simrng;
  if (n >= 0) { simpid = simpid * 37 + n; simrng ^= (uint64_t)(n + 1) * 0x9E3779B97F4A7C15ULL; if (!simrng) simrng = 1; }
}
void dst_forked(void) { simpid = oldpid; simrng = oldrng; }
void dst_advance(int64_t ns) { simnow += ns; }
int64_t dst_now(void) { return sim ? (simnow += 1000) : -1; }
static void stamp(int fd) {
  REAL(int, futimens, int, const struct timespec *);
  int e = errno;
  struct timespec t[2] = {{simnow / 1000000000, simnow % 1000000000}, {simnow / 1000000000, simnow % 1000000000}};
  real_futimens(fd, t);
  errno = e;
}
// Time stamps the kernel gave (of folders, of changes of status) are not those of the simulated clock.
static void restamp(struct stat *st) {
  struct timespec now, t = {simnow / 1000000000, 0};
  REAL(int, clock_gettime, clockid_t, struct timespec *);
  real_clock_gettime(CLOCK_REALTIME, &now);
  if (st->st_mtim.tv_sec > now.tv_sec - 3600 && st->st_mtim.tv_sec <= now.tv_sec + 5) st->st_mtim = t;
  st->st_ctim = st->st_atim = st->st_mtim;
}
#define STAT(name, ...) REAL(int, name, __VA_ARGS__)
int stat64(const char *p, struct stat64 *b) { STAT(stat64, const char *, struct stat64 *); int r = real_stat64(p, b); if (!r && sim) restamp((struct stat *)b); return r; }
int lstat64(const char *p, struct stat64 *b) { STAT(lstat64, const char *, struct stat64 *); int r = real_lstat64(p, b); if (!r && sim) restamp((struct stat *)b); return r; }
int fstat64(int f, struct stat64 *b) { STAT(fstat64, int, struct stat64 *); int r = real_fstat64(f, b); if (!r && sim) restamp((struct stat *)b); return r; }
int fstatat64(int d, const char *p, struct stat64 *b, int fl) { STAT(fstatat64, int, const char *, struct stat64 *, int); int r = real_fstatat64(d, p, b, fl); if (!r && sim) restamp((struct stat *)b); return r; }
static int now_at(const struct timespec *t, struct timespec *o) {
  if (!sim) return 0;
  struct timespec n = {simnow / 1000000000, simnow % 1000000000};
  if (!t) { o[0] = o[1] = n; return 1; }
  for (int i = 0; i < 2; i++) o[i] = t[i].tv_nsec == UTIME_NOW ? n : t[i];
  return 1;
}
int utimensat(int d, const char *p, const struct timespec *t, int fl) { REAL(int, utimensat, int, const char *, const struct timespec *, int); struct timespec o[2]; return real_utimensat(d, p, now_at(t, o) ? o : t, fl); }
int futimens(int f, const struct timespec *t) { REAL(int, futimens, int, const struct timespec *); struct timespec o[2]; return real_futimens(f, now_at(t, o) ? o : t); }
ssize_t getrandom(void *b, size_t n, unsigned fl) {
  REAL(ssize_t, getrandom, void *, size_t, unsigned);
  if (!sim) return real_getrandom(b, n, fl);
  unsigned char *p = b;
  for (size_t i = 0; i < n; i++) { simrng ^= simrng << 13; simrng ^= simrng >> 7; simrng ^= simrng << 17; p[i] = simrng >> 24; }
  return n;
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }
pid_t getpid(void) { REAL(pid_t, getpid, void); return sim ? simpid : real_getpid(); }

// ---- open -------------------------------------------------------------------
static int open_plain(int dirfd, const char *path, int flags, mode_t mode);
static int open_common(int dirfd, const char *path, int flags, mode_t mode) {
  int fresh = sim && path && ((flags & O_TRUNC) || ((flags & O_CREAT) && faccessat(dirfd, path, F_OK, 0)));
  int fd = open_plain(dirfd, path, flags, mode);
  if (sim && fd >= 0 && fd < MAXFD) {
    simfd[fd] = 0;
    if ((flags & O_ACCMODE) != O_RDONLY && path && !(flags & O_PATH)) {
      int e = errno;
      char a[700]; absolute(dirfd, path, a, sizeof a);
      if (!strncmp(a, simprefix, strlen(simprefix))) { simfd[fd] = 1; if (fresh) stamp(fd); }
      errno = e;
    }
  }
  return fd;
}
static int open_plain(int dirfd, const char *path, int flags, mode_t mode) {
  REAL(int, openat64, int, const char *, int, ...);
  if (!armed || !path) return real_openat64(dirfd, path, flags, mode);
  char a[700]; absolute(dirfd, path, a, sizeof a);
  int w = (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC | O_APPEND)) != 0;
  if (!ours(a)) {
    int fd = real_openat64(dirfd, path, flags, mode);
    if (w) put(K_OPEN, fd, fd, 0, 0, flags | (1 << 30), a);
    return fd;
  }
  if (flags & O_DIRECTORY) return real_openat64(dirfd, path, flags, mode);
  fault_t *f = pick(K_OPEN);
  if (f && f->act == A_CRASH) { if (f->arg && w) { int fd = real_openat64(dirfd, path, flags, mode); (void)fd; } crash(); }
  if (f) { fired_n[A_ERR]++; put(K_OPEN, -1, -1, f->err, f->act, flags, a); errno = f->err; return -1; }
  if (eintr()) { put(K_OPEN, -1, -1, EINTR, 9, flags, a); errno = EINTR; return -1; }
  int fd = real_openat64(dirfd, path, flags, mode);
  int e = errno;
  put(K_OPEN, fd, fd, fd < 0 ? e : 0, 0, flags, a);
  if (fd >= 0 && fd < MAXFD) { tracked[fd] = 1; wr[fd] = (flags & O_ACCMODE) != O_RDONLY; have_before[fd] = 0; pend_err[fd] = 0; }
  errno = e;
  return fd;
}
#define MODE_OF(flags) mode_t mode = 0; if ((flags) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { MODE_OF(flags); return open_common(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE_OF(flags); return open_common(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { MODE_OF(flags); return open_common(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE_OF(flags); return open_common(d, p, flags, mode); }
int creat(const char *p, mode_t m) { return open_common(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return open_common(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

#define TRACKED(fd) (armed && (fd) >= 0 && (fd) < MAXFD && tracked[fd])

int dup(int fd) { REAL(int, dup, int); int r = real_dup(fd); if (TRACKED(fd) && r >= 0 && r < MAXFD) { tracked[r] = 1; wr[r] = wr[fd]; have_before[r] = 0; pend_err[r] = 0; } return r; }

// ---- read -------------------------------------------------------------------
static ssize_t read_size(int fd, size_t *n, int *fault) {
  fault_t *f = pick(K_READ);
  *fault = 0;
  if (f && f->act == A_CRASH) crash();
  if (f && f->act == A_ERR) { fired_n[A_ERR]++; put(K_READ, fd, -1, f->err, A_ERR, 0, NULL); errno = f->err; return -1; }
  if (eintr()) { put(K_READ, fd, -1, EINTR, 9, 0, NULL); errno = EINTR; return -1; }
  if (f && f->act == A_SHORT && *n > (size_t)f->arg && f->arg > 0) { *n = f->arg; *fault = A_SHORT; fired_n[A_SHORT]++; }
  else if (chunk_r && *n > 1) { size_t c = 1 + next() % chunk_r; if (c < *n) { *n = c; fired_n[6]++; *fault = 6; } }
  return 0;
}
ssize_t read(int fd, void *b, size_t n) {
  REAL(ssize_t, read, int, void *, size_t);
  if (!TRACKED(fd)) return real_read(fd, b, n);
  int fl; if (read_size(fd, &n, &fl) < 0) return -1;
  ssize_t r = real_read(fd, b, n); put(K_READ, fd, r, r < 0 ? errno : 0, fl, 0, NULL); return r;
}
static ssize_t pread_common(int fd, void *b, size_t n, off_t o) {
  REAL(ssize_t, pread64, int, void *, size_t, off_t);
  if (!TRACKED(fd)) return real_pread64(fd, b, n, o);
  int fl; if (read_size(fd, &n, &fl) < 0) return -1;
  ssize_t r = real_pread64(fd, b, n, o); put(K_READ, fd, r, r < 0 ? errno : 0, fl, 0, NULL); return r;
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread_common(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return pread_common(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int c) {
  REAL(ssize_t, readv, int, const struct iovec *, int);
  if (!TRACKED(fd)) return real_readv(fd, v, c);
  for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
  return real_readv(fd, v, c);
}

// ---- write ------------------------------------------------------------------
static ssize_t do_write(int fd, const void *b, size_t n, int at, off_t o) {
  REAL(ssize_t, write, int, const void *, size_t);
  REAL(ssize_t, pwrite64, int, const void *, size_t, off_t);
  ssize_t r = at ? real_pwrite64(fd, b, n, o) : real_write(fd, b, n);
  if (sim && r >= 0 && fd >= 0 && fd < MAXFD && simfd[fd]) stamp(fd);
  return r;
}
static ssize_t write_common(int fd, const void *b, size_t n, int at, off_t o) {
  if (!TRACKED(fd)) return do_write(fd, b, n, at, o);
  fault_t *f = pick(K_WRITE);
  int fl = 0;
  struct stat st;
  if (f && f->act == A_CRASH) { size_t k = f->arg < 0 ? n : (size_t)f->arg; if (k > n) k = n; if (k) do_write(fd, b, k, at, o); crash(); }
  if (pend_err[fd]) { int e = pend_err[fd]; pend_err[fd] = 0; put(K_WRITE, fd, -1, e, A_PARTERR, 0, NULL); errno = e; return -1; }
  if (f && f->act == A_ERR) { fired_n[A_ERR]++; put(K_WRITE, fd, -1, f->err, A_ERR, 0, NULL); errno = f->err; return -1; }
  if (eintr()) { put(K_WRITE, fd, -1, EINTR, 9, 0, NULL); errno = EINTR; return -1; }
  if (f && f->act == A_PARTERR) {
    fired_n[A_PARTERR]++;
    if (n > 1) { size_t k = f->arg < 1 ? 1 : (size_t)f->arg; if (k >= n) k = n - 1; n = k; pend_err[fd] = f->err; fl = A_PARTERR; }
    else { put(K_WRITE, fd, -1, f->err, A_ERR, 0, NULL); errno = f->err; return -1; }
  } else if (f && f->act == A_SHORT && f->arg > 0 && n > (size_t)f->arg) { n = f->arg; fl = A_SHORT; fired_n[A_SHORT]++; }
  else if (chunk_w && n > 1) { size_t c = 1 + next() % chunk_w; if (c < n) { n = c; fl = 6; fired_n[6]++; } }
  if (quota >= 0) {
    if (quota == 0) { fired_n[7]++; put(K_WRITE, fd, -1, ENOSPC, 7, 0, NULL); errno = ENOSPC; return -1; }
    if ((long)n > quota) { n = quota; fl = 7; fired_n[7]++; }
    quota -= n;
  }
  if (!fstat(fd, &st)) { before_last[fd] = st.st_size; have_before[fd] = 1; }
  ssize_t r = do_write(fd, b, n, at, o);
  put(K_WRITE, fd, r, r < 0 ? errno : 0, fl, 0, NULL);
  return r;
}
ssize_t write(int fd, const void *b, size_t n) { return write_common(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return write_common(fd, b, n, 1, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return write_common(fd, b, n, 1, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  REAL(ssize_t, writev, int, const struct iovec *, int);
  if (!TRACKED(fd)) return real_writev(fd, v, c);
  for (int i = 0; i < c; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
ssize_t sendfile64(int out, int in, off_t *off, size_t n) {
  REAL(ssize_t, sendfile64, int, int, off_t *, size_t);
  if (TRACKED(out) || TRACKED(in)) { errno = EINVAL; return -1; }  // callers fall back to read/write
  return real_sendfile64(out, in, off, n);
}
ssize_t sendfile(int out, int in, off_t *off, size_t n) { return sendfile64(out, in, off, n); }
ssize_t copy_file_range(int in, off_t *io, int out, off_t *oo, size_t n, unsigned fl) {
  REAL(ssize_t, copy_file_range, int, off_t *, int, off_t *, size_t, unsigned);
  if (TRACKED(out) || TRACKED(in)) { errno = EXDEV; return -1; }
  return real_copy_file_range(in, io, out, oo, n, fl);
}

// ---- close ------------------------------------------------------------------
int close(int fd) {
  REAL(int, close, int);
  if (fd >= 0 && fd < MAXFD) simfd[fd] = 0;
  if (fd < 0 || fd >= MAXFD || !tracked[fd]) return real_close(fd);
  tracked[fd] = 0;
  if (!armed) return real_close(fd);
  fault_t *f = pick(K_CLOSE);
  if (f && f->act == A_CRASH) crash();
  if (f) {
    // delayed write error: what was written last is lost and close() reports it
    fired_n[f->act]++;
    if (f->act == A_CLOSELOSS && wr[fd] && have_before[fd]) { if (ftruncate(fd, before_last[fd])) {} }
    real_close(fd);
    put(K_CLOSE, fd, -1, f->err, f->act, 0, NULL);
    errno = f->err;
    return -1;
  }
  int r = real_close(fd); put(K_CLOSE, fd, r, r < 0 ? errno : 0, 0, 0, NULL); return r;
}

// ---- metadata operations (logged, may fail, may be a crash point) ------------
static int meta(const char *what, int d, const char *p, int *res) {
  char a[700]; if (!armed || !p) return 0;
  absolute(d, p, a, sizeof a);
  char line[160]; snprintf(line, sizeof line, "%s %.140s", what, a);
  if (!ours(a)) { put(K_META, -1, 0, 0, 0, 1 << 30, line); return 0; }
  fault_t *f = pick(K_META);
  if (f && f->act == A_CRASH) crash();
  if (f) { fired_n[A_ERR]++; put(K_META, -1, -1, f->err, A_ERR, 0, line); errno = f->err; *res = -1; return 1; }
  put(K_META, -1, 0, 0, 0, 0, line);
  return 0;
}
#define META(name, d, p) int res_; if (meta(name, d, p, &res_)) return res_
int rename(const char *a, const char *b) { REAL(int, rename, const char *, const char *); META("rename", AT_FDCWD, b); return real_rename(a, b); }
int renameat(int d, const char *a, int e, const char *b) { REAL(int, renameat, int, const char *, int, const char *); META("rename", e, b); return real_renameat(d, a, e, b); }
int unlink(const char *a) { REAL(int, unlink, const char *); META("unlink", AT_FDCWD, a); return real_unlink(a); }
int unlinkat(int d, const char *a, int f) { REAL(int, unlinkat, int, const char *, int); META("unlink", d, a); return real_unlinkat(d, a, f); }
int mkdir(const char *a, mode_t m) { REAL(int, mkdir, const char *, mode_t); META("mkdir", AT_FDCWD, a); return real_mkdir(a, m); }
int rmdir(const char *a) { REAL(int, rmdir, const char *); META("rmdir", AT_FDCWD, a); return real_rmdir(a); }
int link(const char *a, const char *b) { REAL(int, link, const char *, const char *); META("link", AT_FDCWD, b); return real_link(a, b); }
int symlink(const char *a, const char *b) { REAL(int, symlink, const char *, const char *); META("symlink", AT_FDCWD, b); return real_symlink(a, b); }
static int ftr(int fd, off_t n) {
  REAL(int, ftruncate64, int, off_t);
  if (!TRACKED(fd)) return real_ftruncate64(fd, n);
  fault_t *f = pick(K_META);
  if (f && f->act == A_CRASH) crash();
  if (f) { fired_n[A_ERR]++; put(K_META, fd, -1, f->err, A_ERR, 0, "ftruncate"); errno = f->err; return -1; }
  put(K_META, fd, n, 0, 0, 0, "ftruncate");
  return real_ftruncate64(fd, n);
}
int ftruncate(int fd, off_t n) { return ftr(fd, n); }
int ftruncate64(int fd, off_t n) { return ftr(fd, n); }
static int syn(int fd, const char *w) {
  if (!TRACKED(fd)) return 0;
  fault_t *f = pick(K_META);
  if (f && f->act == A_CRASH) crash();
  if (f) { fired_n[A_ERR]++; put(K_META, fd, -1, f->err, A_ERR, 0, w); errno = f->err; return -1; }
  put(K_META, fd, 0, 0, 0, 0, w);
  return 0;
}
int fsync(int fd) { return syn(fd, "fsync"); }
int fdatasync(int fd) { return syn(fd, "fdatasync"); }

// ---- clock and locale seams (set by environment for a whole process) ---------
static double clock_off(void) {
  static int init; static double off;
  if (!init) { const char *e = getenv("DST_CLOCK"); off = e ? atof(e) : 0; init = 1; }
  return off + vclock;
}
void dst_clock(double off) { vclock = off; }
int clock_gettime(clockid_t id, struct timespec *t) {
  REAL(int, clock_gettime, clockid_t, struct timespec *);
  int r = real_clock_gettime(id, t);
  if (!r && sim && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
    int64_t n = dst_now();
    t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000;
  }
  if (!r && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) t->tv_sec += (time_t)clock_off();
  return r;
}
time_t time(time_t *p) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
int gettimeofday(struct timeval *restrict v, void *restrict z) { (void)z; struct timespec t; clock_gettime(CLOCK_REALTIME, &t); v->tv_sec = t.tv_sec; v->tv_usec = t.tv_nsec / 1000; return 0; }
char *nl_langinfo(nl_item item) {
  REAL(char *, nl_langinfo, nl_item);
  if (item == CODESET) { char *e = getenv("DST_CODESET"); if (e) return e; }
  return real_nl_langinfo(item);
}
