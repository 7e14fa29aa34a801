/* LD_PRELOAD shim: puts libc's file operations, clocks, entropy and sleeps behind the simulator.
 *
 * Dormant until sim_activate() is called in a simulated process ("node").  From then on every file operation on a
 * path under the node's scratch root is announced to the simulator over a SEQPACKET socket and performed only as its
 * verdict says: as asked, failing with an errno, shortened, torn (a prefix is written, then the process is killed),
 * after delivering SIGINT, or after other nodes have run (the verdict simply arrives later).  Clocks and entropy come
 * from a shared page the simulator fills in.  Nothing else of the process is changed.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/random.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { EV_OPENW = 1, EV_OPENR, EV_WRITE, EV_READ, EV_TRUNC, EV_RENAME, EV_UNLINK, EV_MKDIR, EV_RMDIR, EV_LINK,
       EV_FSYNC, EV_CLOSE, EV_STAT, EV_BLOCK, EV_YIELD, EV_START, EV_EXIT, EV_TORN, EV_SLEEP, EV_LOCK, EV_LIST };
enum { V_PASS = 0, V_ERR, V_SHORT, V_TORN, V_INT };

struct msg { int32_t type, pid, fd, flags; int64_t a, b; char path[512]; char path2[512]; };
struct rep { int32_t action, err; int64_t arg; };

#define CLK_SCRIPT 1024
struct page {
  int64_t enabled;      /* 1: clocks come from here */
  int64_t rt_ns;        /* simulated CLOCK_REALTIME */
  int64_t mono_ns;      /* simulated CLOCK_MONOTONIC */
  int64_t n, idx;       /* script of CLOCK_REALTIME increments, one per reading, cyclic */
  int64_t reads;        /* readings so far */
  int64_t max_reads;    /* a node that reads more often than this is taken to spin: killed */
  uint64_t rng;         /* entropy state */
  int64_t slept_ns;
  int64_t script[CLK_SCRIPT];
};

static int active = 0, ctl = -1;
static unsigned mask = 0;
static char root[PATH_MAX]; static size_t rootlen = 0;
static struct page *pg = 0;
#define MAXFD 4096
static char tracked[MAXFD];           /* 1: opened for reading, 2: opened for writing */
static char *fdpath[MAXFD];

#define REAL(ret, name, ...) static ret (*r_##name)(__VA_ARGS__) = 0; \
  if (!r_##name) r_##name = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

static void die(void) { syscall(SYS_exit_group, 97); }

static int transact(struct msg *m, struct rep *r) {
  int saved = errno;
  m->pid = (int32_t)getpid();
  for (;;) { ssize_t n = syscall(SYS_sendto, ctl, m, sizeof *m, MSG_NOSIGNAL, 0, 0); if (n == (ssize_t)sizeof *m) break; if (n < 0 && errno == EINTR) continue; die(); }
  for (;;) { ssize_t n = syscall(SYS_recvfrom, ctl, r, sizeof *r, 0, 0, 0); if (n == (ssize_t)sizeof *r) break; if (n < 0 && errno == EINTR) continue; die(); }
  errno = saved;
  return r->action;
}

static void lexnorm(char *p) {   /* collapse "//", "/./" and "/x/../" */
  char out[PATH_MAX]; size_t o = 0; char *s = p;
  while (*s) {
    while (*s == '/') s++;
    char *e = s; while (*e && *e != '/') e++;
    size_t l = (size_t)(e - s);
    if (l == 0) break;
    if (l == 1 && s[0] == '.') { }
    else if (l == 2 && s[0] == '.' && s[1] == '.') { while (o > 0 && out[o - 1] != '/') o--; if (o > 0) o--; }
    else if (o + l + 2 < sizeof out) { out[o++] = '/'; memcpy(out + o, s, l); o += l; }
    s = e;
  }
  if (o == 0) out[o++] = '/';
  out[o] = 0; memcpy(p, out, o + 1);
}

/* absolute path of (dirfd, path) into buf; 1 when it lies under the root */
static int under(int dfd, const char *path, char *buf) {
  if (!active || !path) return 0;
  if (path[0] == '/') { strncpy(buf, path, PATH_MAX - 1); buf[PATH_MAX - 1] = 0; }
  else {
    char base[PATH_MAX];
    if (dfd == AT_FDCWD) { if (syscall(SYS_getcwd, base, sizeof base) < 0) return 0; }
    else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dfd);
           ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, l, base, sizeof base - 1); if (n < 0) return 0; base[n] = 0; }
    snprintf(buf, PATH_MAX, "%s/%.2000s", base, path);
  }
  lexnorm(buf);
  return strncmp(buf, root, rootlen) == 0 && (buf[rootlen] == '/' || buf[rootlen] == 0);
}
static void rel(char *dst, const char *abs) { const char *s = abs + rootlen; while (*s == '/') s++; strncpy(dst, s, 511); dst[511] = 0; }

static void track(int fd, const char *abs, int w) {
  if (fd < 0 || fd >= MAXFD) return;
  if (fdpath[fd]) free(fdpath[fd]);
  fdpath[fd] = strdup(abs); tracked[fd] = w ? 2 : 1;
}
static void untrack(int fd) { if (fd >= 0 && fd < MAXFD && tracked[fd]) { tracked[fd] = 0; free(fdpath[fd]); fdpath[fd] = 0; } }
static int istracked(int fd) { return active && fd >= 0 && fd < MAXFD && tracked[fd]; }

/* announce; returns 0 go on, -1 fail with errno set, >0 number of bytes to do instead */
static int64_t announce(int type, int fd, int flags, const char *p1, const char *p2, int64_t a, int64_t b, int *torn) {
  struct msg m; struct rep r; memset(&m, 0, sizeof m);
  if (!(mask & (1u << type))) return 0;
  m.type = type; m.fd = fd; m.flags = flags; m.a = a; m.b = b;
  if (p1) rel(m.path, p1);
  if (p2) rel(m.path2, p2);
  switch (transact(&m, &r)) {
    case V_ERR: errno = r.err; return -1;
    case V_SHORT: return r.arg > 0 ? r.arg : 1;
    case V_TORN: if (torn) *torn = 1; return r.arg > 0 ? r.arg : 0;
    case V_INT: raise(SIGINT); return 0;
  }
  return 0;
}
static void torn_end(void) { struct msg m; struct rep r; memset(&m, 0, sizeof m); m.type = EV_TORN; transact(&m, &r); die(); }

/* ---- entry points for the harness (ctypes) */
int sim_activate(const char *rootdir, int fd, unsigned msk, void *p) {
  char b[PATH_MAX]; strncpy(b, rootdir, PATH_MAX - 1); b[PATH_MAX - 1] = 0; lexnorm(b);
  strcpy(root, b); rootlen = strlen(root); ctl = fd; mask = msk | (1u << EV_YIELD) | (1u << EV_START) | (1u << EV_EXIT) | (1u << EV_TORN) | (1u << EV_BLOCK);
  pg = (struct page *)p; active = 1; return 0;
}
void sim_mask(unsigned msk) { mask = msk | (1u << EV_YIELD) | (1u << EV_START) | (1u << EV_EXIT) | (1u << EV_TORN) | (1u << EV_BLOCK); }
void sim_deactivate(void) { active = 0; }
int sim_event(int type, const char *tag, int64_t a) {   /* returns errno-like code, 0 = go on */
  struct msg m; struct rep r; if (!active) return 0; memset(&m, 0, sizeof m);
  m.type = type; m.a = a; if (tag) { strncpy(m.path, tag, 511); }
  switch (transact(&m, &r)) { case V_ERR: return r.err ? r.err : EIO; case V_INT: raise(SIGINT); return 0; }
  return 0;
}

/* ---- open family */
static int do_open(int dfd, const char *path, int flags, mode_t mode) {
  char buf[PATH_MAX]; int u = under(dfd, path, buf);
  int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  if (u && !(flags & O_DIRECTORY)) { if (announce(w ? EV_OPENW : EV_OPENR, -1, flags, buf, 0, 0, 0, 0) < 0) return -1; }
  int fd = (int)syscall(SYS_openat, dfd, path, flags, mode);
  if (u && fd >= 0) track(fd, buf, w);
  else if (fd >= 0 && active) untrack(fd);
  return fd;
}
#define OPENBODY(dfd) mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } return do_open(dfd, path, flags, mode)
int open(const char *path, int flags, ...) { OPENBODY(AT_FDCWD); }
int open64(const char *path, int flags, ...) { OPENBODY(AT_FDCWD); }
int openat(int dfd, const char *path, int flags, ...) { OPENBODY(dfd); }
int openat64(int dfd, const char *path, int flags, ...) { OPENBODY(dfd); }
int __open64_2(const char *path, int flags) { return do_open(AT_FDCWD, path, flags, 0); }
int __open_2(const char *path, int flags) { return do_open(AT_FDCWD, path, flags, 0); }
int __openat64_2(int dfd, const char *path, int flags) { return do_open(dfd, path, flags, 0); }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

/* fopen'ed streams: announced at open only (their writes go through libc internals) */
static FILE *do_fopen(const char *path, const char *mode, FILE *(*real)(const char *, const char *)) {
  char buf[PATH_MAX];
  if (under(AT_FDCWD, path, buf)) { int w = strchr(mode, 'w') || strchr(mode, 'a') || strchr(mode, '+');
    if (announce(w ? EV_OPENW : EV_OPENR, -1, w ? O_WRONLY : O_RDONLY, buf, 0, 0, 0, 0) < 0) return 0; }
  return real(path, mode);
}
FILE *fopen(const char *path, const char *mode) { REAL(FILE *, fopen, const char *, const char *); return do_fopen(path, mode, r_fopen); }
FILE *fopen64(const char *path, const char *mode) { REAL(FILE *, fopen64, const char *, const char *); return do_fopen(path, mode, r_fopen64); }

int close(int fd) {
  if (istracked(fd)) {
    if (tracked[fd] == 2) { int64_t v = announce(EV_CLOSE, fd, 0, fdpath[fd], 0, 0, 0, 0);
      if (v < 0) { int e = errno; untrack(fd); syscall(SYS_close, fd); errno = e; return -1; } }
    untrack(fd);
  }
  return (int)syscall(SYS_close, fd);
}

/* ---- data */
static ssize_t w_common(int fd, const void *b, size_t n, int64_t off) {
  if (istracked(fd)) {
    int torn = 0; int64_t v = announce(EV_WRITE, fd, 0, fdpath[fd], 0, (int64_t)n, off, &torn);
    if (v < 0) return -1;
    if (torn) { if (v > (int64_t)n) v = (int64_t)n; if (v > 0) { if (off >= 0) syscall(SYS_pwrite64, fd, b, (size_t)v, off); else syscall(SYS_write, fd, b, (size_t)v); } torn_end(); }
    if (v > 0 && (size_t)v < n) n = (size_t)v;
  }
  return off >= 0 ? syscall(SYS_pwrite64, fd, b, n, off) : syscall(SYS_write, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) { return w_common(fd, b, n, -1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return w_common(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return w_common(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (istracked(fd)) { int64_t t = 0; for (int i = 0; i < c; i++) t += (int64_t)v[i].iov_len; if (announce(EV_WRITE, fd, 0, fdpath[fd], 0, t, -1, 0) < 0) return -1; }
  return syscall(SYS_writev, fd, v, c);
}
ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned f) {
  if (istracked(o)) { if (announce(EV_WRITE, o, 0, fdpath[o], 0, (int64_t)n, -1, 0) < 0) return -1; }
  return syscall(SYS_copy_file_range, i, oi, o, oo, n, f);
}
ssize_t sendfile(int o, int i, off_t *oi, size_t n) {
  if (istracked(o)) { int torn = 0; int64_t v = announce(EV_WRITE, o, 0, fdpath[o], 0, (int64_t)n, -1, &torn); if (v < 0) return -1;
    if (torn) { if (v > 0) syscall(SYS_sendfile, o, i, oi, (size_t)v); torn_end(); }
    if (v > 0 && (size_t)v < n) n = (size_t)v; }
  return syscall(SYS_sendfile, o, i, oi, n);
}
ssize_t sendfile64(int o, int i, off64_t *oi, size_t n) { return sendfile(o, i, (off_t *)oi, n); }
ssize_t read(int fd, void *b, size_t n) {
  if (istracked(fd)) { int64_t v = announce(EV_READ, fd, 0, fdpath[fd], 0, (int64_t)n, -1, 0); if (v < 0) return -1; if (v > 0 && (size_t)v < n) n = (size_t)v; }
  return syscall(SYS_read, fd, b, n);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) {
  if (istracked(fd)) { int64_t v = announce(EV_READ, fd, 0, fdpath[fd], 0, (int64_t)n, o, 0); if (v < 0) return -1; }
  return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return pread(fd, b, n, o); }
int ftruncate(int fd, off_t l) { if (istracked(fd) && announce(EV_TRUNC, fd, 0, fdpath[fd], 0, l, 0, 0) < 0) return -1; return (int)syscall(SYS_ftruncate, fd, l); }
int ftruncate64(int fd, off64_t l) { return ftruncate(fd, l); }
int truncate(const char *p, off_t l) { char b[PATH_MAX]; if (under(AT_FDCWD, p, b) && announce(EV_TRUNC, -1, 0, b, 0, l, 0, 0) < 0) return -1; return (int)syscall(SYS_truncate, p, l); }
int truncate64(const char *p, off64_t l) { return truncate(p, l); }
int fsync(int fd) { if (istracked(fd) && announce(EV_FSYNC, fd, 0, fdpath[fd], 0, 0, 0, 0) < 0) return -1; return 0; }
int fdatasync(int fd) { if (istracked(fd) && announce(EV_FSYNC, fd, 0, fdpath[fd], 0, 0, 0, 0) < 0) return -1; return 0; }

/* ---- names */
static int ev2(int type, int da, const char *a, int db, const char *b) {
  char x[PATH_MAX], y[PATH_MAX]; int ua = under(da, a, x), ub = under(db, b, y);
  if (ua || ub) return (int)announce(type, -1, 0, ua ? x : 0, ub ? y : 0, 0, 0, 0);
  return 0;
}
int rename(const char *a, const char *b) { if (ev2(EV_RENAME, AT_FDCWD, a, AT_FDCWD, b) < 0) return -1; return (int)syscall(SYS_rename, a, b); }
int renameat(int da, const char *a, int db, const char *b) { if (ev2(EV_RENAME, da, a, db, b) < 0) return -1; return (int)syscall(SYS_renameat, da, a, db, b); }
int renameat2(int da, const char *a, int db, const char *b, unsigned f) { if (ev2(EV_RENAME, da, a, db, b) < 0) return -1; return (int)syscall(SYS_renameat2, da, a, db, b, f); }
int link(const char *a, const char *b) { if (ev2(EV_LINK, AT_FDCWD, a, AT_FDCWD, b) < 0) return -1; return (int)syscall(SYS_link, a, b); }
int symlink(const char *a, const char *b) { char y[PATH_MAX]; if (under(AT_FDCWD, b, y) && announce(EV_LINK, -1, 0, y, 0, 0, 0, 0) < 0) return -1; return (int)syscall(SYS_symlink, a, b); }
static int ev1(int type, int d, const char *p, int64_t a) { char x[PATH_MAX]; if (under(d, p, x)) return (int)announce(type, -1, 0, x, 0, a, 0, 0); return 0; }
int unlink(const char *p) { if (ev1(EV_UNLINK, AT_FDCWD, p, 0) < 0) return -1; return (int)syscall(SYS_unlink, p); }
int unlinkat(int d, const char *p, int f) { if (ev1((f & AT_REMOVEDIR) ? EV_RMDIR : EV_UNLINK, d, p, 0) < 0) return -1; return (int)syscall(SYS_unlinkat, d, p, f); }
int remove(const char *p) { int r = unlink(p); if (r < 0 && errno == EISDIR) return rmdir(p); return r; }
int rmdir(const char *p) { if (ev1(EV_RMDIR, AT_FDCWD, p, 0) < 0) return -1; return (int)syscall(SYS_rmdir, p); }
int mkdir(const char *p, mode_t m) { if (ev1(EV_MKDIR, AT_FDCWD, p, 0) < 0) return -1; return (int)syscall(SYS_mkdir, p, m); }
int mkdirat(int d, const char *p, mode_t m) { if (ev1(EV_MKDIR, d, p, 0) < 0) return -1; return (int)syscall(SYS_mkdirat, d, p, m); }

/* ---- questions about names: scheduling points only */
int stat64(const char *p, struct stat64 *s) { if (ev1(EV_STAT, AT_FDCWD, p, 0) < 0) return -1; return (int)syscall(SYS_newfstatat, AT_FDCWD, p, s, 0); }
int stat(const char *p, struct stat *s) { return stat64(p, (struct stat64 *)s); }
int lstat64(const char *p, struct stat64 *s) { if (ev1(EV_STAT, AT_FDCWD, p, 0) < 0) return -1; return (int)syscall(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
int lstat(const char *p, struct stat *s) { return lstat64(p, (struct stat64 *)s); }
int fstatat64(int d, const char *p, struct stat64 *s, int f) { if (p && *p && ev1(EV_STAT, d, p, 0) < 0) return -1; return (int)syscall(SYS_newfstatat, d, p, s, f); }
int fstatat(int d, const char *p, struct stat *s, int f) { return fstatat64(d, p, (struct stat64 *)s, f); }
int __xstat64(int v, const char *p, struct stat64 *s) { (void)v; return stat64(p, s); }
int __lxstat64(int v, const char *p, struct stat64 *s) { (void)v; return lstat64(p, s); }
int __xstat(int v, const char *p, struct stat *s) { (void)v; return stat(p, s); }
int __lxstat(int v, const char *p, struct stat *s) { (void)v; return lstat(p, s); }
int access(const char *p, int m) { if (ev1(EV_STAT, AT_FDCWD, p, 0) < 0) return -1; return (int)syscall(SYS_access, p, m); }

/* ---- locks: never really block, the simulator decides who runs until the lock is free */
int flock(int fd, int op) {
  if (!istracked(fd)) return (int)syscall(SYS_flock, fd, op);
  if (announce(EV_LOCK, fd, op, fdpath[fd], 0, 0, 0, 0) < 0) return -1;
  if ((op & LOCK_UN) || (op & LOCK_NB)) return (int)syscall(SYS_flock, fd, op);
  for (;;) { int r = (int)syscall(SYS_flock, fd, op | LOCK_NB); if (r == 0 || errno != EWOULDBLOCK) return r;
    if (announce(EV_BLOCK, fd, op, fdpath[fd], 0, 0, 0, 0) < 0) return -1; }
}
static int do_fcntl(int fd, int cmd, void *arg) {
  if (istracked(fd) && (cmd == F_SETLKW || cmd == F_SETLK || cmd == F_OFD_SETLKW || cmd == F_OFD_SETLK)) {
    if (announce(EV_LOCK, fd, cmd, fdpath[fd], 0, 0, 0, 0) < 0) return -1;
    if (cmd == F_SETLK || cmd == F_OFD_SETLK) return (int)syscall(SYS_fcntl, fd, cmd, arg);
    int nb = cmd == F_SETLKW ? F_SETLK : F_OFD_SETLK;
    for (;;) { int r = (int)syscall(SYS_fcntl, fd, nb, arg); if (r == 0 || (errno != EAGAIN && errno != EACCES)) return r;
      if (announce(EV_BLOCK, fd, cmd, fdpath[fd], 0, 0, 0, 0) < 0) return -1; }
  }
  int r = (int)syscall(SYS_fcntl, fd, cmd, arg);
  if (r >= 0 && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && istracked(fd)) track(r, fdpath[fd], tracked[fd] == 2);
  return r;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a); }
int dup(int fd) { int r = (int)syscall(SYS_dup, fd); if (r >= 0 && istracked(fd)) track(r, fdpath[fd], tracked[fd] == 2); return r; }

/* ---- clocks, sleeps, entropy */
static int64_t now_rt(void) {
  pg->reads++;
  if (pg->max_reads && pg->reads > pg->max_reads) { struct msg m; struct rep r; memset(&m, 0, sizeof m); m.type = EV_YIELD; strcpy(m.path, "clock-spin"); transact(&m, &r); die(); }
  if (pg->n) { pg->rt_ns += pg->script[pg->idx % pg->n]; pg->idx++; if (pg->rt_ns < 0) pg->rt_ns = 0; }
  return pg->rt_ns;
}
static int sim_clock(clockid_t c, struct timespec *t) {
  if (!active || !pg || !pg->enabled) return 0;
  int64_t v;
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) v = now_rt();
  else { pg->mono_ns += 1000; v = pg->mono_ns; }
  t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 1;
}
int clock_gettime(clockid_t c, struct timespec *t) { if (sim_clock(c, t)) return 0; return (int)syscall(SYS_clock_gettime, c, t); }
int gettimeofday(struct timeval *tv, void *tz) { struct timespec t; (void)tz; if (!sim_clock(CLOCK_REALTIME, &t)) syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); if (tv) { tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; } return 0; }
time_t time(time_t *o) { struct timespec t; if (!sim_clock(CLOCK_REALTIME, &t)) syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); if (o) *o = t.tv_sec; return t.tv_sec; }
static void advance(int64_t ns) { if (ns < 0) ns = 0; pg->mono_ns += ns; pg->rt_ns += ns; pg->slept_ns += ns;
  struct msg m; struct rep r; memset(&m, 0, sizeof m); if (mask & (1u << EV_SLEEP)) { m.type = EV_SLEEP; m.a = ns; transact(&m, &r); if (r.action == V_INT) raise(SIGINT); } }
int nanosleep(const struct timespec *q, struct timespec *rem) { if (active && pg && pg->enabled) { advance(q->tv_sec * 1000000000LL + q->tv_nsec); if (rem) rem->tv_sec = rem->tv_nsec = 0; return 0; } return (int)syscall(SYS_nanosleep, q, rem); }
int clock_nanosleep(clockid_t c, int f, const struct timespec *q, struct timespec *rem) {
  if (active && pg && pg->enabled) { int64_t w = q->tv_sec * 1000000000LL + q->tv_nsec; if (f & TIMER_ABSTIME) w -= (c == CLOCK_REALTIME ? pg->rt_ns : pg->mono_ns); advance(w); if (rem) rem->tv_sec = rem->tv_nsec = 0; return 0; }
  long r = syscall(SYS_clock_nanosleep, c, f, q, rem); return r < 0 ? errno : 0; }
int usleep(useconds_t u) { struct timespec q = { u / 1000000, (u % 1000000) * 1000L }; return nanosleep(&q, 0); }
static uint64_t sm(void) { uint64_t z = (pg->rng += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
ssize_t getrandom(void *b, size_t n, unsigned f) {
  if (!active || !pg) return syscall(SYS_getrandom, b, n, f);
  unsigned char *p = b; for (size_t i = 0; i < n; i += 8) { uint64_t v = sm(); memcpy(p + i, &v, n - i < 8 ? n - i : 8); } return (ssize_t)n;
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) < 0 ? -1 : 0; }
