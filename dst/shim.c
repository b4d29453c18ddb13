// LD_PRELOAD system-call seam of the simulator.
// Every path-related call whose path lies below a watched prefix is counted, logged, and may be
// failed, shortened, torn or turned into a process crash, as the plan in the shared region says.
// With no DST_SHM in the environment, or with armed == 0, every call passes straight through.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/sendfile.h>
#include <time.h>
#include <unistd.h>

#define NPREFIX 8
#define NPLAN 64
#define NLOG 60000
#define PATHLEN 152

enum { OP_OPEN = 1, OP_CREATE, OP_WRITE, OP_PWRITE, OP_TRUNCATE, OP_UNLINK, OP_RENAME, OP_MKDIR, OP_RMDIR, OP_LINK,
       OP_SYMLINK, OP_CHMOD, OP_CHOWN, OP_UTIME, OP_MKNOD, OP_SYNC, OP_COPY, OP_READ, OP_PREAD, OP_OPENRD, OP_STAT };
enum { ACT_ERR = 1, ACT_SHORT, ACT_CRASH_BEFORE, ACT_CRASH_TORN, ACT_CRASH_AFTER, ACT_LOST, ACT_KILL_SELF, ACT_FLIP };

struct Plan { uint32_t cls, prefix; uint32_t at; int32_t action; int64_t arg; uint32_t until; uint32_t hits; uint32_t kindmask, pad; };
struct Ent { uint32_t op; int32_t fault; int64_t off, len; int32_t pid; uint32_t prefix; char path[PATHLEN]; };
struct Shm {
  uint32_t magic; volatile int32_t armed;
  int32_t nprefix; uint32_t nplan;
  char prefix[NPREFIX][256];
  volatile uint32_t count[2][NPREFIX];    // [0]=mutating calls, [1]=reads, per prefix
  volatile int64_t budget[NPREFIX];       // remaining bytes of disk space, -1 = unlimited
  volatile uint64_t nlog;
  volatile uint32_t killgroup; uint32_t logreads;
  struct Plan plan[NPLAN];
  struct Ent log[NLOG];
};
static struct Shm *S;
static __thread int inside;

#define REAL(name) static __typeof__(&name) real_##name; if (!real_##name) real_##name = (__typeof__(&name))dlsym(RTLD_NEXT, #name);

__attribute__((constructor)) static void init(void) {
  const char *p = getenv("DST_SHM");
  if (!p) return;
  int fd = syscall(SYS_openat, AT_FDCWD, p, O_RDWR | O_CLOEXEC, 0);
  if (fd < 0) return;
  void *m = mmap(0, sizeof(struct Shm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  close(fd);
  if (m != MAP_FAILED) S = m;
}
uint64_t dst_shm_size(void) { return sizeof(struct Shm); }
// (re)attach, for processes which choose their region after start
int dst_attach(const char *p) {
  int fd = syscall(SYS_openat, AT_FDCWD, p, O_RDWR | O_CLOEXEC, 0);
  if (fd < 0) return -1;
  void *m = mmap(0, sizeof(struct Shm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  syscall(SYS_close, fd);
  if (m == MAP_FAILED) return -1;
  S = m;
  return 0;
}

static void crash(void) {
  if (S->killgroup) syscall(SYS_kill, 0, SIGKILL);
  syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
  for (;;) pause();
}

static int matchprefix(const char *path) {
  for (int i = 0; i < S->nprefix && i < NPREFIX; i++) {
    size_t n = strlen(S->prefix[i]);
    if (!strncmp(path, S->prefix[i], n) && (n == 0 || S->prefix[i][n-1] == '/' || path[n] == 0 || path[n] == '/' || path[n] == '-' || path[n] == '.')) return i;
  }
  return -1;
}

static int fdpath(int fd, char *buf) {
  char link[64];
  snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, link, buf, PATH_MAX - 1);
  if (n <= 0 || buf[0] != '/') return 0;
  buf[n] = 0;
  return 1;
}

static int abspath(int dirfd, const char *path, char *buf) {
  if (!path) return 0;
  if (path[0] == '/') { snprintf(buf, PATH_MAX, "%s", path); return 1; }
  char d[PATH_MAX];
  if (dirfd == AT_FDCWD) { if (syscall(SYS_getcwd, d, sizeof d) < 0) return 0; }
  else if (!fdpath(dirfd, d)) return 0;
  while (path[0] == '.' && path[1] == '/') { path += 2; while (*path == '/') path++; }
  int n = snprintf(buf, PATH_MAX, "%s/%s", d, path);
  return n > 0;
}

struct Dec { int act; int64_t arg; struct Ent *e; };

// returns the decision for this call
static struct Dec decide(int cls, int op, const char *path, int64_t off, int64_t len) {
  struct Dec d = {0, 0, 0};
  int p = matchprefix(path);
  if (p < 0) return d;
  uint32_t n = __sync_fetch_and_add(&S->count[cls][p], 1);
  if (cls == 0 || S->logreads) {
    uint64_t k = __sync_fetch_and_add(&S->nlog, 1);
    if (k < NLOG) {
      struct Ent *e = &S->log[k];
      e->op = op; e->fault = 0; e->off = off; e->len = len; e->pid = syscall(SYS_getpid); e->prefix = p;
      size_t l = strlen(path);
      const char *q = path; if (l >= PATHLEN) q = path + (l - PATHLEN + 1);
      snprintf(e->path, PATHLEN, "%s", q);
      d.e = e;
    }
  }
  for (uint32_t i = 0; i < S->nplan && i < NPLAN; i++) {
    struct Plan *pl = &S->plan[i];
    if (pl->cls != (uint32_t)cls || pl->prefix != (uint32_t)p) continue;
    if (n < pl->at || n >= pl->until) continue;
    if (pl->kindmask && !(pl->kindmask & (1u << op))) continue;
    pl->hits++;
    d.act = pl->action; d.arg = pl->arg;
    break;
  }
  if (!d.act && cls == 0 && (op == OP_WRITE || op == OP_PWRITE || op == OP_COPY) && S->budget[p] >= 0 && len > 0) {
    if (S->budget[p] == 0) { d.act = ACT_ERR; d.arg = ENOSPC; }
    else if (S->budget[p] < len) { d.act = ACT_SHORT; d.arg = S->budget[p]; S->budget[p] = 0; }
    else S->budget[p] -= len;
  }
  if (d.e) d.e->fault = d.act;
  if (d.act == ACT_CRASH_BEFORE) crash();
  return d;
}

#define ON (S && S->armed && !inside)

// --- simple (non-sized) mutating calls -------------------------------------------------------
#define SIMPLE(ret, bad, call, opk, havepath) \
  if (ON) { char buf[PATH_MAX]; inside = 1; int e0 = errno; \
    if (havepath) { struct Dec d = decide(0, opk, buf, 0, 0); inside = 0; errno = e0; \
      if (d.act == ACT_ERR) { errno = d.arg; return bad; } \
      if (d.act == ACT_LOST) return 0; \
      ret r = call; \
      if (d.act == ACT_CRASH_AFTER || d.act == ACT_CRASH_TORN) crash(); \
      return r; } \
    inside = 0; errno = e0; } \
  return call;

int unlink(const char *p) { REAL(unlink) SIMPLE(int, -1, real_unlink(p), OP_UNLINK, abspath(AT_FDCWD, p, buf)) }
int unlinkat(int d_, const char *p, int f) { REAL(unlinkat) SIMPLE(int, -1, real_unlinkat(d_, p, f), (f & AT_REMOVEDIR) ? OP_RMDIR : OP_UNLINK, abspath(d_, p, buf)) }
int rmdir(const char *p) { REAL(rmdir) SIMPLE(int, -1, real_rmdir(p), OP_RMDIR, abspath(AT_FDCWD, p, buf)) }
int remove(const char *p) { REAL(remove) SIMPLE(int, -1, real_remove(p), OP_UNLINK, abspath(AT_FDCWD, p, buf)) }
int mkdir(const char *p, mode_t m) { REAL(mkdir) SIMPLE(int, -1, real_mkdir(p, m), OP_MKDIR, abspath(AT_FDCWD, p, buf)) }
int mkdirat(int d_, const char *p, mode_t m) { REAL(mkdirat) SIMPLE(int, -1, real_mkdirat(d_, p, m), OP_MKDIR, abspath(d_, p, buf)) }
int rename(const char *a, const char *b) { REAL(rename) SIMPLE(int, -1, real_rename(a, b), OP_RENAME, abspath(AT_FDCWD, b, buf) && (matchprefix(buf) >= 0 || abspath(AT_FDCWD, a, buf))) }
int renameat(int x, const char *a, int y, const char *b) { REAL(renameat) SIMPLE(int, -1, real_renameat(x, a, y, b), OP_RENAME, abspath(y, b, buf) && (matchprefix(buf) >= 0 || abspath(x, a, buf))) }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { REAL(renameat2) SIMPLE(int, -1, real_renameat2(x, a, y, b, f), OP_RENAME, abspath(y, b, buf)) }
int link(const char *a, const char *b) { REAL(link) SIMPLE(int, -1, real_link(a, b), OP_LINK, abspath(AT_FDCWD, b, buf)) }
int linkat(int x, const char *a, int y, const char *b, int f) { REAL(linkat) SIMPLE(int, -1, real_linkat(x, a, y, b, f), OP_LINK, abspath(y, b, buf)) }
int symlink(const char *a, const char *b) { REAL(symlink) SIMPLE(int, -1, real_symlink(a, b), OP_SYMLINK, abspath(AT_FDCWD, b, buf)) }
int symlinkat(const char *a, int y, const char *b) { REAL(symlinkat) SIMPLE(int, -1, real_symlinkat(a, y, b), OP_SYMLINK, abspath(y, b, buf)) }
int chmod(const char *p, mode_t m) { REAL(chmod) SIMPLE(int, -1, real_chmod(p, m), OP_CHMOD, abspath(AT_FDCWD, p, buf)) }
int fchmod(int fd, mode_t m) { REAL(fchmod) SIMPLE(int, -1, real_fchmod(fd, m), OP_CHMOD, fdpath(fd, buf)) }
int fchmodat(int d_, const char *p, mode_t m, int f) { REAL(fchmodat) SIMPLE(int, -1, real_fchmodat(d_, p, m, f), OP_CHMOD, abspath(d_, p, buf)) }
int chown(const char *p, uid_t u, gid_t g) { REAL(chown) SIMPLE(int, -1, real_chown(p, u, g), OP_CHOWN, abspath(AT_FDCWD, p, buf)) }
int lchown(const char *p, uid_t u, gid_t g) { REAL(lchown) SIMPLE(int, -1, real_lchown(p, u, g), OP_CHOWN, abspath(AT_FDCWD, p, buf)) }
int fchown(int fd, uid_t u, gid_t g) { REAL(fchown) SIMPLE(int, -1, real_fchown(fd, u, g), OP_CHOWN, fdpath(fd, buf)) }
int fchownat(int d_, const char *p, uid_t u, gid_t g, int f) { REAL(fchownat) SIMPLE(int, -1, real_fchownat(d_, p, u, g, f), OP_CHOWN, abspath(d_, p, buf)) }
int utimensat(int d_, const char *p, const struct timespec t[2], int f) { REAL(utimensat) SIMPLE(int, -1, real_utimensat(d_, p, t, f), OP_UTIME, p ? abspath(d_, p, buf) : fdpath(d_, buf)) }
int futimens(int fd, const struct timespec t[2]) { REAL(futimens) SIMPLE(int, -1, real_futimens(fd, t), OP_UTIME, fdpath(fd, buf)) }
int mknod(const char *p, mode_t m, dev_t dv) { REAL(mknod) SIMPLE(int, -1, real_mknod(p, m, dv), OP_MKNOD, abspath(AT_FDCWD, p, buf)) }
int mknodat(int d_, const char *p, mode_t m, dev_t dv) { REAL(mknodat) SIMPLE(int, -1, real_mknodat(d_, p, m, dv), OP_MKNOD, abspath(d_, p, buf)) }
int mkfifo(const char *p, mode_t m) { REAL(mkfifo) SIMPLE(int, -1, real_mkfifo(p, m), OP_MKNOD, abspath(AT_FDCWD, p, buf)) }
int truncate(const char *p, off_t n) { REAL(truncate) SIMPLE(int, -1, real_truncate(p, n), OP_TRUNCATE, abspath(AT_FDCWD, p, buf)) }
int truncate64(const char *p, off64_t n) { REAL(truncate64) SIMPLE(int, -1, real_truncate64(p, n), OP_TRUNCATE, abspath(AT_FDCWD, p, buf)) }
int ftruncate(int fd, off_t n) { REAL(ftruncate) SIMPLE(int, -1, real_ftruncate(fd, n), OP_TRUNCATE, fdpath(fd, buf)) }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64) SIMPLE(int, -1, real_ftruncate64(fd, n), OP_TRUNCATE, fdpath(fd, buf)) }
int fsync(int fd) { REAL(fsync) SIMPLE(int, -1, real_fsync(fd), OP_SYNC, fdpath(fd, buf)) }
int fdatasync(int fd) { REAL(fdatasync) SIMPLE(int, -1, real_fdatasync(fd), OP_SYNC, fdpath(fd, buf)) }

// --- opens -----------------------------------------------------------------------------------
#define MUTFLAGS (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)
#define OPENBODY(dirfd_, call) \
  int mut = fl & MUTFLAGS; \
  if (ON) { char buf[PATH_MAX]; inside = 1; int e0 = errno; \
    if (abspath(dirfd_, p, buf)) { \
      struct Dec d = decide(mut ? 0 : 1, mut ? ((fl & (O_CREAT | O_TRUNC)) ? OP_CREATE : OP_OPEN) : OP_OPENRD, buf, fl, 0); inside = 0; errno = e0; \
      if (d.act == ACT_ERR) { errno = d.arg; return -1; } \
      int r = call; \
      if (d.act == ACT_CRASH_AFTER || d.act == ACT_CRASH_TORN) crash(); \
      return r; } \
    inside = 0; errno = e0; } \
  return call;
#define GETMODE mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
int open(const char *p, int fl, ...) { REAL(open) GETMODE OPENBODY(AT_FDCWD, real_open(p, fl, m)) }
int open64(const char *p, int fl, ...) { REAL(open64) GETMODE OPENBODY(AT_FDCWD, real_open64(p, fl, m)) }
int openat(int d_, const char *p, int fl, ...) { REAL(openat) GETMODE OPENBODY(d_, real_openat(d_, p, fl, m)) }
int openat64(int d_, const char *p, int fl, ...) { REAL(openat64) GETMODE OPENBODY(d_, real_openat64(d_, p, fl, m)) }
int creat(const char *p, mode_t m) { int fl = O_CREAT | O_WRONLY | O_TRUNC; REAL(creat) OPENBODY(AT_FDCWD, real_creat(p, m)) }

// --- sized writes ----------------------------------------------------------------------------
#define SIZEDW(opk, off_, n_, full, partial) \
  if (ON) { char buf[PATH_MAX]; inside = 1; int e0 = errno; \
    if (fdpath(fd, buf)) { struct Dec d = decide(0, opk, buf, off_, n_); inside = 0; errno = e0; \
      size_t k = d.arg < 0 ? 0 : (size_t)d.arg; if (k > (size_t)(n_)) k = (size_t)(n_); (void)k; \
      if (d.act == ACT_ERR) { errno = d.arg; return -1; } \
      if (d.act == ACT_SHORT) { if (k == 0) k = 1; if (k >= (size_t)(n_)) { return full; } return partial; } \
      if (d.act == ACT_LOST) return n_; \
      if (d.act == ACT_CRASH_TORN) { if (k) { ssize_t r_ = partial; (void)r_; } crash(); } \
      ssize_t r = full; \
      if (d.act == ACT_CRASH_AFTER) crash(); \
      return r; } \
    inside = 0; errno = e0; } \
  return full;
ssize_t write(int fd, const void *b, size_t n) { REAL(write) SIZEDW(OP_WRITE, -1, n, real_write(fd, b, n), real_write(fd, b, k)) }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(pwrite) SIZEDW(OP_PWRITE, o, n, real_pwrite(fd, b, n, o), real_pwrite(fd, b, k, o)) }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(pwrite64) SIZEDW(OP_PWRITE, o, n, real_pwrite64(fd, b, n, o), real_pwrite64(fd, b, k, o)) }
static size_t iovlen(const struct iovec *v, int c) { size_t s = 0; for (int i = 0; i < c; i++) s += v[i].iov_len; return s; }
ssize_t writev(int fd, const struct iovec *v, int c) { REAL(writev) size_t n = iovlen(v, c); SIZEDW(OP_WRITE, -1, n, real_writev(fd, v, c), write(fd, v[0].iov_base, k < v[0].iov_len ? k : v[0].iov_len)) }
ssize_t sendfile(int fd, int in, off_t *o, size_t n) { REAL(sendfile) SIZEDW(OP_COPY, -1, n, real_sendfile(fd, in, o, n), real_sendfile(fd, in, o, k)) }
ssize_t sendfile64(int fd, int in, off64_t *o, size_t n) { REAL(sendfile64) SIZEDW(OP_COPY, -1, n, real_sendfile64(fd, in, o, n), real_sendfile64(fd, in, o, k)) }
ssize_t copy_file_range(int in, off64_t *a, int fd, off64_t *b, size_t n, unsigned f) { REAL(copy_file_range) SIZEDW(OP_COPY, -1, n, real_copy_file_range(in, a, fd, b, n, f), real_copy_file_range(in, a, fd, b, k, f)) }

// --- reads -----------------------------------------------------------------------------------
#define SIZEDR(opk, off_, n_, full, partial) \
  if (ON && S->logreads != 2) { char buf[PATH_MAX]; inside = 1; int e0 = errno; \
    if (fdpath(fd, buf)) { struct Dec d = decide(1, opk, buf, off_, n_); inside = 0; errno = e0; \
      size_t k = d.arg < 0 ? 0 : (size_t)d.arg; if (k > (size_t)(n_)) k = (size_t)(n_); (void)k; \
      if (d.act == ACT_ERR) { errno = d.arg; return -1; } \
      if (d.act == ACT_SHORT) { if (k == 0) k = 1; if (k >= (size_t)(n_)) { return full; } return partial; } \
      if (d.act == ACT_CRASH_TORN || d.act == ACT_CRASH_AFTER) crash(); \
      return full; } \
    inside = 0; errno = e0; } \
  return full;
ssize_t read(int fd, void *b, size_t n) { REAL(read) SIZEDR(OP_READ, -1, n, real_read(fd, b, n), real_read(fd, b, k)) }
ssize_t pread(int fd, void *b, size_t n, off_t o) { REAL(pread) SIZEDR(OP_PREAD, o, n, real_pread(fd, b, n, o), real_pread(fd, b, k, o)) }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { REAL(pread64) SIZEDR(OP_PREAD, o, n, real_pread64(fd, b, n, o), real_pread64(fd, b, k, o)) }
