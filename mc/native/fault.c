/* file-operation interposer (LD_PRELOAD): numbers every operation that changes a file below a prefix, records
   them, and at a chosen one kills the process, tears the write, fails, writes less, or interrupts. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OFF, RECORD, KILL, TORN, FAIL, SHORT, RFAIL, RSHORT };
static int mode = OFF, err_no, persist, logfd = -1, fired;
static long at = -1, cnt;
static char prefix[4096];
static size_t plen;

void mc_arm(const char *p, int m, long n, int e, int pers, int lfd) {
  strncpy(prefix, p, sizeof prefix - 1);
  plen = strlen(prefix);
  mode = m; at = n; err_no = e; persist = pers; logfd = lfd; cnt = 0; fired = 0;
}
long mc_count(void) { return cnt; }
int mc_fired(void) { return fired; }

static int in_path(int dirfd, const char *p, char *full) {
  if (mode == OFF || !p) return 0;
  if (p[0] != '/') {
    char link[64], d[4096];
    if (dirfd == AT_FDCWD) { if (!getcwd(d, sizeof d)) return 0; }
    else {
      snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
      ssize_t r = readlink(link, d, sizeof d - 1);
      if (r < 0) return 0;
      d[r] = 0;
    }
    snprintf(full, 8192, "%s/%s", d, p);
  } else snprintf(full, 8192, "%s", p);
  return !strncmp(full, prefix, plen);
}
static int in_fd(int fd, char *full) {
  if (mode == OFF) return 0;
  char link[64];
  snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  ssize_t r = readlink(link, full, 4095);
  if (r < 0) return 0;
  full[r] = 0;
  return !strncmp(full, prefix, plen);
}
static void put(const void *b, size_t n) {
  const char *p = b;
  while (n) { long r = syscall(SYS_write, logfd, p, n); if (r <= 0) _exit(98); p += r; n -= r; }
}
static void record(char kind, const char *a, const char *b, uint64_t off, uint64_t len, const void *data) {
  if (mode != RECORD || logfd < 0) return;
  uint32_t la = strlen(a), lb = b ? strlen(b) : 0;
  uint64_t ld = data ? len : 0;
  put(&kind, 1); put(&la, 4); put(&lb, 4); put(&off, 8); put(&len, 8); put(&ld, 8);
  put(a, la); if (lb) put(b, lb); if (ld) put(data, ld);
}
/* -> 0 go on, 1 fail with err_no, 2 torn, 3 short */
static int gate(int data, int grows) {
  if (mode == RFAIL || mode == RSHORT) return 0;
  long n = cnt++;
  if (mode == RECORD || mode == OFF) return 0;
  if (mode == FAIL && persist && n > at && grows) { errno = err_no; return 1; }
  if (n != at) return 0;
  fired = 1;
  if (mode == KILL) { kill(getpid(), SIGKILL); for (;;) pause(); }
  if (mode == TORN) { if (data) return 2; kill(getpid(), SIGKILL); for (;;) pause(); }
  if (mode == FAIL) { if (persist && !grows) return 0; errno = err_no; return 1; }
  if (mode == SHORT) return data ? 3 : 0;
  return 0;
}
static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)

static int do_open(const char *name, int dirfd, const char *p, int flags, mode_t m) {
  static int (*real)(int, const char *, int, ...);
  if (!real) real = dlsym(RTLD_NEXT, "openat64");
  char full[8192];
  if ((flags & (O_CREAT | O_TRUNC)) && in_path(dirfd, p, full)) {
    struct stat st;
    int there = !stat(full, &st);
    if ((flags & O_TRUNC) || !there) {
      if (gate(0, !there)) return -1;
      int r = real(dirfd, p, flags, m);
      if (r >= 0) record(there ? 't' : 'c', full, 0, 0, 0, 0);
      return r;
    }
  }
  return real(dirfd, p, flags, m);
}
#define OPENARGS mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); }
int open(const char *p, int flags, ...) { OPENARGS return do_open("open", AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { OPENARGS return do_open("open64", AT_FDCWD, p, flags | O_LARGEFILE, m); }
int openat(int d, const char *p, int flags, ...) { OPENARGS return do_open("openat", d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { OPENARGS return do_open("openat64", d, p, flags | O_LARGEFILE, m); }
int creat(const char *p, mode_t m) { return do_open("creat", AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open("creat", AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
FILE *fopen(const char *p, const char *md) {
  REAL(FILE *, "fopen", const char *, const char *);
  char full[8192];
  if (strpbrk(md, "wa+") && in_path(AT_FDCWD, p, full)) {
    int fl = strchr(md, 'w') ? O_CREAT | O_TRUNC : strchr(md, 'a') ? O_CREAT | O_APPEND : 0;
    int fd = do_open("fopen", AT_FDCWD, p, fl | (strchr(md, '+') ? O_RDWR : O_WRONLY), 0666);
    return fd < 0 ? 0 : fdopen(fd, md);
  }
  return real(p, md);
}
FILE *fopen64(const char *p, const char *md) { return fopen(p, md); }

static ssize_t do_write(int fd, const void *b, size_t n, off64_t off) {
  static ssize_t (*w)(int, const void *, size_t), (*pw)(int, const void *, size_t, off64_t);
  if (!w) { w = dlsym(RTLD_NEXT, "write"); pw = dlsym(RTLD_NEXT, "pwrite64"); }
  char full[8192];
  if (n && fd != logfd && in_fd(fd, full)) {
    int g = gate(1, 1);
    if (g == 1) return -1;
    if (g >= 2) {
      size_t h = n > 1 ? n / 2 : g == 2 ? 0 : 1;
      ssize_t r = off < 0 ? w(fd, b, h) : pw(fd, b, h, off);
      if (g == 2) die();
      return r;
    }
    off64_t o = off;
    if (o < 0) {
      o = lseek64(fd, 0, SEEK_CUR);
      if (fcntl(fd, F_GETFL) & O_APPEND) { struct stat st; fstat(fd, &st); o = st.st_size; }
    }
    ssize_t r = off < 0 ? w(fd, b, n) : pw(fd, b, n, off);
    if (r > 0) record('w', full, 0, o, r, b);
    return r;
  }
  return off < 0 ? w(fd, b, n) : pw(fd, b, n, off);
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, -1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o); }
static ssize_t vec(int fd, const struct iovec *v, int c, off64_t off) {
  ssize_t t = 0;
  for (int i = 0; i < c; i++) {
    if (!v[i].iov_len) continue;
    ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, off < 0 ? -1 : off + t);
    if (r < 0) return t ? t : -1;
    t += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return t;
}
ssize_t writev(int fd, const struct iovec *v, int c) { return vec(fd, v, c, -1); }
ssize_t pwritev(int fd, const struct iovec *v, int c, off_t o) { return vec(fd, v, c, o); }
ssize_t pwritev64(int fd, const struct iovec *v, int c, off64_t o) { return vec(fd, v, c, o); }

/* reads: -> 0 go on, 1 fail, 3 short */
static int rgate(int fd) {
  char full[8192];
  if ((mode != RFAIL && mode != RSHORT) || !in_fd(fd, full)) return 0;
  long n = cnt++;
  if (n == at) fired = 1;
  if (mode == RFAIL && (n == at || (persist && at >= 0 && n > at))) { errno = err_no; return 1; }
  return mode == RSHORT && n == at ? 3 : 0;
}
static ssize_t do_read(int fd, void *b, size_t n, off64_t off) {
  static ssize_t (*rd)(int, void *, size_t), (*prd)(int, void *, size_t, off64_t);
  if (!rd) { rd = dlsym(RTLD_NEXT, "read"); prd = dlsym(RTLD_NEXT, "pread64"); }
  if (mode != OFF && n) {
    int g = rgate(fd);
    if (g == 1) return -1;
    if (g == 3 && n > 1) {
      struct stat st;
      off64_t o = off < 0 ? lseek64(fd, 0, SEEK_CUR) : off;
      fstat(fd, &st);
      if (st.st_size > o + 1 && (off64_t)n > (st.st_size - o) / 2) n = (st.st_size - o) / 2;  /* less than there is */
      else n = n / 2;
    }
  }
  return off < 0 ? rd(fd, b, n) : prd(fd, b, n, off);
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, -1); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_read(fd, b, n, o); }

ssize_t __read_chk(int fd, void *b, size_t n, size_t l) { return do_read(fd, b, n, -1); }
ssize_t __pread_chk(int fd, void *b, size_t n, off_t o, size_t l) { return do_read(fd, b, n, o); }
ssize_t __pread64_chk(int fd, void *b, size_t n, off64_t o, size_t l) { return do_read(fd, b, n, o); }

/* copies inside the kernel: done here by read and write, so that they are torn and recorded like other writes */
static ssize_t do_copy(int out, off64_t *oo, int in, off64_t *io, size_t n) {
  static char buf[1 << 16];
  if (n > sizeof buf) n = sizeof buf;
  ssize_t r = do_read(in, buf, n, io ? *io : -1);
  if (r <= 0) return r;
  ssize_t w = do_write(out, buf, r, oo ? *oo : -1);
  if (w < 0) { int e = errno; if (!io) lseek64(in, -r, SEEK_CUR); errno = e; return -1; }
  if (io) *io += w; else if (w < r) lseek64(in, w - r, SEEK_CUR);
  if (oo) *oo += w;
  return w;
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) {
  REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t);
  char full[8192];
  return in_fd(out, full) ? do_copy(out, 0, in, o, n) : real(out, in, o, n);
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) { return sendfile64(out, in, (off64_t *)o, n); }
ssize_t copy_file_range(int in, off64_t *io, int out, off64_t *oo, size_t n, unsigned f) {
  REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned);
  char full[8192];
  return in_fd(out, full) ? do_copy(out, oo, in, io, n) : real(in, io, out, oo, n, f);
}
int ftruncate64(int fd, off64_t n) {
  REAL(int, "ftruncate64", int, off64_t);
  char full[8192];
  if (in_fd(fd, full)) {
    struct stat st;
    fstat(fd, &st);
    if (gate(0, n > st.st_size)) return -1;
    int r = real(fd, n);
    if (!r) record('s', full, 0, n, 0, 0);
    return r;
  }
  return real(fd, n);
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int truncate64(const char *p, off64_t n) {
  REAL(int, "truncate64", const char *, off64_t);
  char full[8192];
  if (in_path(AT_FDCWD, p, full)) { if (gate(0, 1)) return -1; int r = real(p, n); if (!r) record('s', full, 0, n, 0, 0); return r; }
  return real(p, n);
}
int truncate(const char *p, off_t n) { return truncate64(p, n); }
int posix_fallocate64(int fd, off64_t o, off64_t n) {
  REAL(int, "posix_fallocate64", int, off64_t, off64_t);
  char full[8192];
  if (in_fd(fd, full)) { if (gate(0, 1)) return errno; int r = real(fd, o, n); if (!r) record('g', full, 0, o + n, 0, 0); return r; }
  return real(fd, o, n);
}
int posix_fallocate(int fd, off_t o, off_t n) { return posix_fallocate64(fd, o, n); }

static int do_rename(int d1, const char *a, int d2, const char *b, unsigned fl) {
  char fa[8192], fb[8192];
  int ia = in_path(d1, a, fa), ib = in_path(d2, b, fb);
  if (ia || ib) {
    if (gate(0, 0)) return -1;
    int r = syscall(SYS_renameat2, d1, a, d2, b, fl);
    if (!r) record('r', fa, fb, 0, 0, 0);
    return r;
  }
  return syscall(SYS_renameat2, d1, a, d2, b, fl);
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return do_rename(d1, a, d2, b, 0); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { return do_rename(d1, a, d2, b, f); }
static int do_unlink(int d, const char *p, int fl) {
  char full[8192];
  if (in_path(d, p, full)) {
    struct stat st;
    if (!lstat(full, &st)) {
      if (gate(0, 0)) return -1;
      int r = syscall(SYS_unlinkat, d, p, fl);
      if (!r) record('u', full, 0, 0, 0, 0);
      return r;
    }
  }
  return syscall(SYS_unlinkat, d, p, fl);
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int f) { return do_unlink(d, p, f); }
int rmdir(const char *p) { return do_unlink(AT_FDCWD, p, AT_REMOVEDIR); }
int mkdir(const char *p, mode_t m) {
  char full[8192];
  if (in_path(AT_FDCWD, p, full)) {
    if (gate(0, 1)) return -1;
    int r = syscall(SYS_mkdirat, AT_FDCWD, p, m);
    if (!r) record('m', full, 0, 0, 0, 0);
    return r;
  }
  return syscall(SYS_mkdirat, AT_FDCWD, p, m);
}
static int do_link(int d1, const char *a, int d2, const char *b, int fl, int sym) {
  char fb[8192], fa[8192];
  if (in_path(d2, b, fb)) {
    if (gate(0, 1)) return -1;
    in_path(d1, a, fa);
    int r = sym ? syscall(SYS_symlinkat, a, d2, b) : syscall(SYS_linkat, d1, a, d2, b, fl);
    if (!r) record(sym ? 'y' : 'l', fa, fb, 0, 0, 0);
    return r;
  }
  return sym ? syscall(SYS_symlinkat, a, d2, b) : syscall(SYS_linkat, d1, a, d2, b, fl);
}
int link(const char *a, const char *b) { return do_link(AT_FDCWD, a, AT_FDCWD, b, 0, 0); }
int linkat(int d1, const char *a, int d2, const char *b, int f) { return do_link(d1, a, d2, b, f, 0); }
int symlink(const char *a, const char *b) { return do_link(AT_FDCWD, a, AT_FDCWD, b, 0, 1); }
