/* LD_PRELOAD: counts the calls that change files below PV_FS_ROOT and, at the PV_FS_AT-th, kills the process before it
   (kill), after half of a write (torn), or makes it fail with PV_FS_ERRNO (fail: this one; failall: this one and all later).
   The calls are appended to PV_FS_LOG. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/sendfile.h>
#include <sys/syscall.h>
#include <unistd.h>

static long count = 0;

static int raw_log(const char *s) {
  const char *p = getenv("PV_FS_LOG");
  if (!p) return 0;
  int fd = syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
  if (fd >= 0) { if (syscall(SYS_write, fd, s, strlen(s)) < 0) {} syscall(SYS_close, fd); }
  return 0;
}
static void die(void) { syscall(SYS_kill, getpid(), SIGKILL); for (;;) pause(); }

static int below(const char *path, int dirfd, char *out, size_t n) {
  const char *root = getenv("PV_FS_ROOT");
  if (!root || !path) return 0;
  char buf[8192], cwd[4096];
  if (path[0] == '/') snprintf(buf, sizeof buf, "%s", path);
  else if (dirfd == AT_FDCWD) { if (!getcwd(cwd, sizeof cwd)) return 0; snprintf(buf, sizeof buf, "%s/%s", cwd, path); }
  else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd); ssize_t k = readlink(l, cwd, sizeof cwd - 1); if (k < 0) return 0; cwd[k] = 0; snprintf(buf, sizeof buf, "%s/%s", cwd, path); }
  if (strncmp(buf, root, strlen(root))) return 0;
  snprintf(out, n, "%s", buf);
  return 1;
}
static int below_fd(int fd, char *out, size_t n) {
  const char *root = getenv("PV_FS_ROOT");
  if (!root) return 0;
  char l[64], p[4096];
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t k = readlink(l, p, sizeof p - 1);
  if (k < 0) return 0;
  p[k] = 0;
  if (strncmp(p, root, strlen(root))) return 0;
  snprintf(out, n, "%s", p);
  return 1;
}

/* 0: go on, 1: fail, 2: torn */
static int hit(const char *op, const char *path, int writes) {
  const char *at = getenv("PV_FS_AT"), *mode = getenv("PV_FS_MODE");
  long k = count++;
  char line[9000];
  snprintf(line, sizeof line, "%ld %s %s\n", k, op, path);
  for (char *c = line; c[0] && c[1]; c++) if (*c == '\n') *c = '?';
  raw_log(line);
  if (!at || !mode) return 0;
  long n = atol(at);
  if (!strcmp(mode, "failall") ? k < n : k != n) return 0;
  if (!strcmp(mode, "kill")) die();
  if (!strcmp(mode, "torn")) { if (writes) return 2; die(); }
  if (!strcmp(mode, "after")) return 3;
  errno = getenv("PV_FS_ERRNO") ? atoi(getenv("PV_FS_ERRNO")) : ENOSPC;
  return 1;
}

#define REAL(name) ((__typeof__(&name)) dlsym(RTLD_NEXT, #name))
static int mutating(int flags) { return (flags & (O_CREAT | O_TRUNC)) != 0; }

static int openx(const char *real, int dirfd, const char *path, int flags, mode_t mode, int at) {
  char p[8300];
  int h = 0;
  if (mutating(flags) && below(path, dirfd, p, sizeof p)) { h = hit("open", p, 0); if (h == 1) return -1; }
  int r;
  if (at) { int (*f)(int, const char *, int, ...) = dlsym(RTLD_NEXT, real); r = f(dirfd, path, flags, mode); }
  else { int (*f)(const char *, int, ...) = dlsym(RTLD_NEXT, real); r = f(path, flags, mode); }
  if (h == 3) die();
  return r;
}
#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { MODE return openx("open", AT_FDCWD, path, flags, mode, 0); }
int open64(const char *path, int flags, ...) { MODE return openx("open64", AT_FDCWD, path, flags, mode, 0); }
int openat(int d, const char *path, int flags, ...) { MODE return openx("openat", d, path, flags, mode, 1); }
int openat64(int d, const char *path, int flags, ...) { MODE return openx("openat64", d, path, flags, mode, 1); }
int creat(const char *path, mode_t mode) { return openx("open", AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode, 0); }

ssize_t write(int fd, const void *b, size_t n) {
  char p[4200];
  int h = 0;
  if (below_fd(fd, p, sizeof p)) {
    h = hit("write", p, 1);
    if (h == 1) return -1;
    if (h == 2) { if (n > 1) syscall(SYS_write, fd, b, n / 2); die(); }
  }
  ssize_t r = syscall(SYS_write, fd, b, n);
  if (h == 3) die();
  return r;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  char p[4200];
  int h = 0;
  if (below_fd(fd, p, sizeof p)) {
    h = hit("writev", p, 1);
    if (h == 1) return -1;
    if (h == 2) { if (c > 0 && v[0].iov_len > 1) syscall(SYS_write, fd, v[0].iov_base, v[0].iov_len / 2); die(); }
  }
  ssize_t r = syscall(SYS_writev, fd, v, c);
  if (h == 3) die();
  return r;
}
static ssize_t pw(int fd, const void *b, size_t n, off_t o) {
  char p[4200];
  int h = 0;
  if (below_fd(fd, p, sizeof p)) {
    h = hit("pwrite", p, 1);
    if (h == 1) return -1;
    if (h == 2) { if (n > 1) syscall(SYS_pwrite64, fd, b, n / 2, o); die(); }
  }
  ssize_t r = syscall(SYS_pwrite64, fd, b, n, o);
  if (h == 3) die();
  return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pw(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return pw(fd, b, n, o); }

#define PATHOP(call, name, path, dirfd) \
  char p[8300]; int h = 0; \
  if (below(path, dirfd, p, sizeof p)) { h = hit(name, p, 0); if (h == 1) return -1; } \
  int r = call; if (h == 3) die(); return r;
int rename(const char *a, const char *b) { PATHOP(REAL(rename)(a, b), "rename", b, AT_FDCWD) }
int renameat(int x, const char *a, int y, const char *b) { PATHOP(REAL(renameat)(x, a, y, b), "rename", b, y) }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { PATHOP(syscall(SYS_renameat2, x, a, y, b, f), "rename", b, y) }
int link(const char *a, const char *b) { PATHOP(REAL(link)(a, b), "link", b, AT_FDCWD) }
int linkat(int x, const char *a, int y, const char *b, int f) { PATHOP(REAL(linkat)(x, a, y, b, f), "link", b, y) }
int symlink(const char *a, const char *b) { PATHOP(REAL(symlink)(a, b), "symlink", b, AT_FDCWD) }
int unlink(const char *a) { PATHOP(REAL(unlink)(a), "unlink", a, AT_FDCWD) }
int unlinkat(int d, const char *a, int f) { PATHOP(REAL(unlinkat)(d, a, f), "unlink", a, d) }
int rmdir(const char *a) { PATHOP(REAL(rmdir)(a), "rmdir", a, AT_FDCWD) }
int mkdir(const char *a, mode_t m) { PATHOP(REAL(mkdir)(a, m), "mkdir", a, AT_FDCWD) }
int mkdirat(int d, const char *a, mode_t m) { PATHOP(REAL(mkdirat)(d, a, m), "mkdir", a, d) }
int truncate(const char *a, off_t n) { PATHOP(REAL(truncate)(a, n), "truncate", a, AT_FDCWD) }
int truncate64(const char *a, off64_t n) { PATHOP(REAL(truncate64)(a, n), "truncate", a, AT_FDCWD) }

#define FDOP(call, name, fd) \
  char p[4200]; int h = 0; \
  if (below_fd(fd, p, sizeof p)) { h = hit(name, p, 0); if (h == 1) return -1; } \
  ssize_t r = call; if (h == 3) die(); return r;
int ftruncate(int fd, off_t n) { FDOP(REAL(ftruncate)(fd, n), "ftruncate", fd) }
int ftruncate64(int fd, off64_t n) { FDOP(REAL(ftruncate64)(fd, n), "ftruncate", fd) }
int fsync(int fd) { FDOP(REAL(fsync)(fd), "fsync", fd) }
int fdatasync(int fd) { FDOP(REAL(fdatasync)(fd), "fdatasync", fd) }
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) { FDOP(REAL(copy_file_range)(a, x, b, y, n, f), "copy", b) }
ssize_t sendfile(int o, int i, off_t *x, size_t n) { FDOP(REAL(sendfile)(o, i, x, n), "sendfile", o) }
ssize_t sendfile64(int o, int i, off64_t *x, size_t n) { FDOP(REAL(sendfile64)(o, i, x, n), "sendfile", o) }
