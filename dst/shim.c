/* LD_PRELOAD seam of the simulator: virtual clocks and a fault-injecting file layer.
 *
 * Everything is a pass-through until a simulated run switches it on (ctypes, dst/shim.py).
 * File operations on paths below the run's scratch directory are numbered; the plan names the
 * operation numbers at which faults fire. Mutations outside the scratch directory are refused
 * while the guard is on and recorded. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <dlfcn.h>

#define MAXF 64
#define MAXLOG 4096
#define MAXFD 1024

enum { OP_OPEN = 1, OP_WRITE, OP_CLOSE, OP_FSYNC, OP_RENAME, OP_UNLINK, OP_MKDIR, OP_RMDIR, OP_STAT,
       OP_TRUNC, OP_LINK, OP_READ, OP_CHMOD, OP_OUTSIDE };
enum { F_ERR = 1, F_SHORT, F_CRASH_BEFORE, F_CRASH_AFTER, F_CRASH_TORN, F_PEER_MKDIR, F_PEER_RMDIR };

struct fault { int32_t op; int32_t kind; int64_t arg; int32_t fired; int32_t mask; };
struct jump { int64_t at_read; int64_t delta_ns; int32_t fired; int32_t pad; };
struct entry { int32_t n; int32_t type; int32_t fault; int32_t err; int64_t off; int64_t len; char path[200]; char path2[200]; };

struct state {
  /* clocks */
  int32_t clk_active; int32_t njumps;
  int64_t mono_ns, wall_off_ns, reads, tick_ns, wall_base_ns, slept_ns;
  struct jump jumps[16];
  /* files */
  int32_t fs_active, guard, nfaults, nops, nlog, outside, crashed, pad;
  int64_t budget, written;
  char prefix[512]; char peer[512];
  struct fault faults[MAXF];
  struct entry log[MAXLOG];
};

static struct state st0;
static struct state *S = &st0;
static char fdpath[MAXFD][200];
static char fdtrk[MAXFD];

size_t dst_size(void) { return sizeof(struct state); }
void *dst_addr(void) { return S; }
void dst_attach(void *p) { S = p ? (struct state *)p : &st0; memset(fdtrk, 0, sizeof fdtrk); }
void dst_peer(const char *p) { strncpy(S->peer, p, sizeof S->peer - 1); }
void dst_fs(int active, int guard, const char *prefix, int64_t budget) {
  strncpy(S->prefix, prefix, sizeof S->prefix - 1); S->budget = budget; S->guard = guard; S->fs_active = active; }
void dst_fault(int op, int kind, int64_t arg, int mask) {
  if (S->nfaults < MAXF) { struct fault *f = &S->faults[S->nfaults++]; f->op = op; f->kind = kind; f->arg = arg; f->mask = mask; f->fired = 0; } }
void dst_clear_faults(void) { S->nfaults = 0; }
void dst_clock(int active, int64_t mono, int64_t wall, int64_t tick) {
  S->mono_ns = mono; S->wall_base_ns = wall; S->wall_off_ns = 0; S->tick_ns = tick; S->reads = 0; S->clk_active = active; }
void dst_advance(int64_t ns) { S->mono_ns += ns; }
void dst_step_wall(int64_t ns) { S->wall_off_ns += ns; }
void dst_jump_at_read(int64_t r, int64_t d) { if (S->njumps < 16) { S->jumps[S->njumps].at_read = r; S->jumps[S->njumps].delta_ns = d; S->jumps[S->njumps++].fired = 0; } }
int64_t dst_mono(void) { return S->mono_ns; }
int64_t dst_reads(void) { return S->reads; }
int64_t dst_slept(void) { return S->slept_ns; }
int dst_nops(void) { return S->nops; }
int dst_outside(void) { return S->outside; }
int dst_nlog(void) { return S->nlog; }
int dst_log(int i, struct entry *e) { if (i < 0 || i >= S->nlog) return 0; *e = S->log[i]; return 1; }
int dst_fired(int i) { return i < S->nfaults ? S->faults[i].fired : 0; }

/* ---------------------------------------------------------------- clocks */
static int64_t tick(int wall) {
  S->reads++;
  for (int i = 0; i < S->njumps; i++)
    if (!S->jumps[i].fired && S->jumps[i].at_read <= S->reads) { S->jumps[i].fired = 1; S->wall_off_ns += S->jumps[i].delta_ns; }
  S->mono_ns += S->tick_ns;
  return wall ? S->wall_base_ns + S->mono_ns + S->wall_off_ns : S->mono_ns;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!S->clk_active) return (int)syscall(SYS_clock_gettime, c, ts);
  if (c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) {   /* stalls consume no processor time */
    S->reads++; int64_t u = 1000000000LL + S->reads * 1000; ts->tv_sec = u / 1000000000LL; ts->tv_nsec = u % 1000000000LL; return 0; }
  int64_t t = tick(c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE);
  ts->tv_sec = t / 1000000000LL; ts->tv_nsec = t % 1000000000LL; return 0; }
int gettimeofday(struct timeval *tv, void *tz) {
  if (!S->clk_active) return (int)syscall(SYS_gettimeofday, tv, tz);
  int64_t t = tick(1); tv->tv_sec = t / 1000000000LL; tv->tv_usec = (t % 1000000000LL) / 1000; return 0; }
time_t time(time_t *out) {
  if (!S->clk_active) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); if (out) *out = ts.tv_sec; return ts.tv_sec; }
  time_t t = tick(1) / 1000000000LL; if (out) *out = t; return t; }
int clock_nanosleep(clockid_t c, int flags, const struct timespec *rq, struct timespec *rm) {
  if (!S->clk_active) { long r = syscall(SYS_clock_nanosleep, c, flags, rq, rm); return r < 0 ? errno : 0; }
  int64_t d = rq->tv_sec * 1000000000LL + rq->tv_nsec;
  if (flags & TIMER_ABSTIME) d -= (c == CLOCK_REALTIME) ? S->wall_base_ns + S->mono_ns + S->wall_off_ns : S->mono_ns;
  if (d > 0) { S->mono_ns += d; S->slept_ns += d; } return 0; }
int nanosleep(const struct timespec *rq, struct timespec *rm) {
  if (!S->clk_active) return (int)syscall(SYS_nanosleep, rq, rm);
  int64_t d = rq->tv_sec * 1000000000LL + rq->tv_nsec; S->mono_ns += d; S->slept_ns += d; return 0; }

/* ---------------------------------------------------------------- files */
static void absol(int dirfd, const char *p, char *out) {
  char tmp[PATH_MAX]; tmp[0] = 0;
  if (p[0] != '/') {
    if (dirfd == AT_FDCWD) { if (!getcwd(tmp, sizeof tmp)) tmp[0] = 0; }
    else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd); ssize_t n = readlink(l, tmp, sizeof tmp - 1); tmp[n > 0 ? n : 0] = 0; }
    size_t n = strlen(tmp); snprintf(tmp + n, sizeof tmp - n, "/%s", p);
  } else snprintf(tmp, sizeof tmp, "%s", p);
  /* normalise //, /./ and /../ lexically */
  char *seg[256]; int k = 0; char *save = 0;
  for (char *t = strtok_r(tmp, "/", &save); t && k < 255; t = strtok_r(0, "/", &save)) {
    if (!strcmp(t, ".")) continue; if (!strcmp(t, "..")) { if (k) k--; continue; } seg[k++] = t; }
  size_t o = 0; out[0] = '/'; out[1] = 0;
  for (int i = 0; i < k; i++) { int w = snprintf(out + o, 512 - o, "/%s", seg[i]); if (w < 0 || o + w >= 512) break; o += w; }
}
static int inside(const char *a) { size_t n = strlen(S->prefix); return n && !strncmp(a, S->prefix, n) && (a[n] == '/' || a[n] == 0); }
static int harmless(const char *a) { return !strcmp(a, "/dev/null") || !strncmp(a, "/proc/", 6) || !strncmp(a, "/dev/", 5); }
static struct entry *logit(int type, const char *p, const char *p2, int64_t off, int64_t len) {
  static struct entry dummy; struct entry *e = S->nlog < MAXLOG ? &S->log[S->nlog++] : &dummy;
  memset(e, 0, sizeof *e); e->n = S->nops; e->type = type; e->off = off; e->len = len;
  strncpy(e->path, p ? p : "", 199); strncpy(e->path2, p2 ? p2 : "", 199); return e; }
static void die(struct entry *e, int k) { e->fault = k; S->crashed = 1; syscall(SYS_exit_group, 113); }

/* Number the operation, apply a scheduled fault. Returns kind for the caller to finish (0 none), errno set for F_ERR */
static int step(int type, const char *p, const char *p2, int64_t off, int64_t len, struct entry **ep, struct fault **fp) {
  int n = S->nops++; struct entry *e = logit(type, p, p2, off, len); e->n = n; *ep = e; *fp = 0;
  int ret = 0;
  for (int i = 0; i < S->nfaults; i++) {
    struct fault *f = &S->faults[i];
    if (f->fired || f->op > n || (f->op != n && !(f->mask & (1 << 30)))) continue;
    if ((f->mask & 0xffff) && !(f->mask & (1 << type))) continue;
    if (f->kind == F_SHORT && ((type != OP_WRITE && type != OP_READ) || len < 2)) continue;
    if (f->kind == F_CRASH_TORN && type != OP_WRITE) continue;
    if (!(f->mask & (1 << 29))) f->fired++; else f->fired = 0; /* bit 29: sticky */
    e->fault = f->kind; *fp = f;
    if (f->mask & (1 << 29)) S->faults[i].fired = 0;
    switch (f->kind) {
      case F_ERR: e->err = (int)f->arg; errno = (int)f->arg; ret = F_ERR; break;
      case F_CRASH_BEFORE: die(e, f->kind); break;
      case F_PEER_MKDIR: { char g[560]; size_t m = strlen(S->peer);
        for (size_t j = 1; j <= m; j++) if (S->peer[j] == '/' || S->peer[j] == 0) { memcpy(g, S->peer, j); g[j] = 0; syscall(SYS_mkdir, g, 0755); } break; }
      case F_PEER_RMDIR: if (syscall(SYS_rmdir, S->peer) < 0) { char g[560]; snprintf(g, sizeof g, "%s.gone", S->peer); syscall(SYS_rename, S->peer, g); } break;
      default: ret = f->kind; }
  }
  return ret;
}
static void after(struct fault *f, struct entry *e) { if (f && f->kind == F_CRASH_AFTER) die(e, F_CRASH_AFTER); }
static int refuse(const char *a, const char *a2) {
  if (!S->guard) return 0;
  if ((inside(a) || harmless(a)) && (!a2 || inside(a2) || harmless(a2))) return 0;
  S->outside++; struct entry *e = logit(OP_OUTSIDE, a, a2, 0, 0); e->err = EACCES; errno = EACCES; return 1; }

static int do_open(int dirfd, const char *p, int flags, mode_t mode) {
  if (!S->fs_active || !p) return (int)syscall(SYS_openat, dirfd, p, flags, mode);
  char a[512]; absol(dirfd, p, a); int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
#ifdef O_TMPFILE
  if ((flags & O_TMPFILE) == O_TMPFILE) wr = 1;
#endif
  if (wr && refuse(a, 0)) return -1;
  if (!inside(a)) return (int)syscall(SYS_openat, dirfd, p, flags, mode);
  struct entry *e; struct fault *f;
  if (step(OP_OPEN, a, wr ? ((flags & O_TRUNC) ? "w" : "a") : "r", 0, 0, &e, &f) == F_ERR) return -1;
  int fd = (int)syscall(SYS_openat, dirfd, p, flags, mode);
  if (fd < 0) e->err = errno;
  if (fd >= 0 && fd < MAXFD) { fdtrk[fd] = 1; strncpy(fdpath[fd], a, 199); }
  after(f, e); return fd;
}
#define VA_MODE mode_t m = 0; if (flags & (O_CREAT | 020000000)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { VA_MODE return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { VA_MODE return do_open(AT_FDCWD, p, flags | O_LARGEFILE, m); }
int openat(int d, const char *p, int flags, ...) { VA_MODE return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { VA_MODE return do_open(d, p, flags | O_LARGEFILE, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static FILE *do_fopen(const char *name, const char *p, const char *m) {
  static FILE *(*real)(const char *, const char *) = 0;
  if (!real) real = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, name);
  if (S->fs_active && (strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+'))) { char a[512]; absol(AT_FDCWD, p, a); if (refuse(a, 0)) return 0; }
  return real(p, m);
}
FILE *fopen(const char *p, const char *m) { return do_fopen("fopen", p, m); }
FILE *fopen64(const char *p, const char *m) { return do_fopen("fopen64", p, m); }

static ssize_t do_write(int fd, const void *b, size_t n, off_t off, int at) {
  if (!S->fs_active || fd < 0 || fd >= MAXFD || !fdtrk[fd])
    return at ? syscall(SYS_pwrite64, fd, b, n, off) : syscall(SYS_write, fd, b, n);
  struct entry *e; struct fault *f; off_t pos = at ? off : (off_t)syscall(SYS_lseek, fd, 0, SEEK_CUR);
  int k = step(OP_WRITE, fdpath[fd], 0, pos, (int64_t)n, &e, &f);
  if (k == F_ERR) return -1;
  if (k == F_SHORT || k == F_CRASH_TORN) n = n / 2;
  if (S->budget >= 0) {
    if (S->written >= S->budget && n) { e->err = errno = ENOSPC; e->fault = 100; return -1; }
    if (S->written + (int64_t)n > S->budget) { n = (size_t)(S->budget - S->written); e->fault = 100; }
  }
  ssize_t r = at ? syscall(SYS_pwrite64, fd, b, n, off) : syscall(SYS_write, fd, b, n);
  if (r > 0) { S->written += r; e->len = r; }
  if (k == F_CRASH_TORN) die(e, k);
  after(f, e); return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!S->fs_active || fd < 0 || fd >= MAXFD || !fdtrk[fd]) return syscall(SYS_writev, fd, v, c);
  ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
ssize_t read(int fd, void *b, size_t n) {
  if (S->fs_active && fd >= 0 && fd < MAXFD && fdtrk[fd]) {
    struct entry *e; struct fault *f; int k = step(OP_READ, fdpath[fd], 0, 0, (int64_t)n, &e, &f);
    if (k == F_ERR) return -1;
    if (k == F_SHORT) n = f->arg > 0 && (size_t)f->arg < n ? (size_t)f->arg : n / 2;
    ssize_t r = syscall(SYS_read, fd, b, n); e->len = r; after(f, e); return r; }
  return syscall(SYS_read, fd, b, n); }
int close(int fd) {
  if (S->fs_active && fd >= 0 && fd < MAXFD && fdtrk[fd]) {
    struct entry *e; struct fault *f; int k = step(OP_CLOSE, fdpath[fd], 0, 0, 0, &e, &f); fdtrk[fd] = 0;
    int r = (int)syscall(SYS_close, fd); if (k == F_ERR) { errno = e->err; return -1; } after(f, e); return r; }
  if (fd >= 0 && fd < MAXFD) fdtrk[fd] = 0;
  return (int)syscall(SYS_close, fd); }
static int do_sync(int fd, long nr) {
  if (S->fs_active && fd >= 0 && fd < MAXFD && fdtrk[fd]) {
    struct entry *e; struct fault *f; if (step(OP_FSYNC, fdpath[fd], 0, 0, 0, &e, &f) == F_ERR) return -1;
    int r = (int)syscall(nr, fd); after(f, e); return r; }
  return (int)syscall(nr, fd); }
int fsync(int fd) { return do_sync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }
static int do_ftrunc(int fd, off_t n) {
  if (S->fs_active && fd >= 0 && fd < MAXFD && fdtrk[fd]) {
    struct entry *e; struct fault *f; if (step(OP_TRUNC, fdpath[fd], 0, n, 0, &e, &f) == F_ERR) return -1;
    int r = (int)syscall(SYS_ftruncate, fd, n); after(f, e); return r; }
  return (int)syscall(SYS_ftruncate, fd, n); }
int ftruncate(int fd, off_t n) { return do_ftrunc(fd, n); }
int ftruncate64(int fd, off_t n) { return do_ftrunc(fd, n); }

#define PATHOP(type, dirfd, p, CALL) \
  if (!S->fs_active || !p) return (int)(CALL); \
  char a[512]; absol(dirfd, p, a); if (refuse(a, 0)) return -1; \
  if (!inside(a)) return (int)(CALL); \
  struct entry *e; struct fault *f; if (step(type, a, 0, 0, 0, &e, &f) == F_ERR) return -1; \
  int r = (int)(CALL); if (r < 0) e->err = errno; after(f, e); return r;
int unlink(const char *p) { PATHOP(OP_UNLINK, AT_FDCWD, p, syscall(SYS_unlink, p)) }
int unlinkat(int d, const char *p, int fl) { PATHOP((fl & AT_REMOVEDIR) ? OP_RMDIR : OP_UNLINK, d, p, syscall(SYS_unlinkat, d, p, fl)) }
int rmdir(const char *p) { PATHOP(OP_RMDIR, AT_FDCWD, p, syscall(SYS_rmdir, p)) }
int mkdir(const char *p, mode_t m) { PATHOP(OP_MKDIR, AT_FDCWD, p, syscall(SYS_mkdir, p, m)) }
int mkdirat(int d, const char *p, mode_t m) { PATHOP(OP_MKDIR, d, p, syscall(SYS_mkdirat, d, p, m)) }
int truncate(const char *p, off_t n) { PATHOP(OP_TRUNC, AT_FDCWD, p, syscall(SYS_truncate, p, n)) }
int truncate64(const char *p, off_t n) { PATHOP(OP_TRUNC, AT_FDCWD, p, syscall(SYS_truncate, p, n)) }
int chmod(const char *p, mode_t m) { PATHOP(OP_CHMOD, AT_FDCWD, p, syscall(SYS_chmod, p, m)) }
int chown(const char *p, uid_t u, gid_t g) { PATHOP(OP_CHMOD, AT_FDCWD, p, syscall(SYS_chown, p, u, g)) }
int utimensat(int d, const char *p, const struct timespec t[2], int fl) { PATHOP(OP_CHMOD, d, p, syscall(SYS_utimensat, d, p, t, fl)) }
int symlink(const char *t, const char *p) { PATHOP(OP_LINK, AT_FDCWD, p, syscall(SYS_symlink, t, p)) }
static int do_rename(int d1, const char *p1, int d2, const char *p2, unsigned fl) {
  if (!S->fs_active) return (int)syscall(SYS_renameat2, d1, p1, d2, p2, fl);
  char a[512], b[512]; absol(d1, p1, a); absol(d2, p2, b); if (refuse(a, b)) return -1;
  if (!inside(a) && !inside(b)) return (int)syscall(SYS_renameat2, d1, p1, d2, p2, fl);
  struct entry *e; struct fault *f; if (step(OP_RENAME, a, b, 0, 0, &e, &f) == F_ERR) return -1;
  int r = (int)syscall(SYS_renameat2, d1, p1, d2, p2, fl); if (r < 0) e->err = errno; after(f, e); return r; }
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return do_rename(d1, a, d2, b, 0); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { return do_rename(d1, a, d2, b, f); }
static int do_link(int d1, const char *p1, int d2, const char *p2, int fl) {
  if (S->fs_active) { char a[512], b[512]; absol(d1, p1, a); absol(d2, p2, b); if (refuse(a, b)) return -1; }
  return (int)syscall(SYS_linkat, d1, p1, d2, p2, fl); }
int link(const char *a, const char *b) { return do_link(AT_FDCWD, a, AT_FDCWD, b, 0); }
int linkat(int d1, const char *a, int d2, const char *b, int f) { return do_link(d1, a, d2, b, f); }

static int do_stat(int d, const char *p, struct stat *b, int fl) {
  if (S->fs_active && p && p[0]) {
    char a[512]; absol(d, p, a);
    if (inside(a)) { struct entry *e; struct fault *f; if (step(OP_STAT, a, 0, 0, 0, &e, &f) == F_ERR) return -1;
      int r = (int)syscall(SYS_newfstatat, d, p, b, fl); if (r < 0) e->err = errno; after(f, e); return r; } }
  return (int)syscall(SYS_newfstatat, d, p, b, fl); }
int stat(const char *p, struct stat *b) { return do_stat(AT_FDCWD, p, b, 0); }
int stat64(const char *p, struct stat64 *b) { return do_stat(AT_FDCWD, p, (struct stat *)b, 0); }
int lstat(const char *p, struct stat *b) { return do_stat(AT_FDCWD, p, b, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *p, struct stat64 *b) { return do_stat(AT_FDCWD, p, (struct stat *)b, AT_SYMLINK_NOFOLLOW); }
int fstatat(int d, const char *p, struct stat *b, int fl) { return do_stat(d, p, b, fl); }
int fstatat64(int d, const char *p, struct stat64 *b, int fl) { return do_stat(d, p, (struct stat *)b, fl); }
