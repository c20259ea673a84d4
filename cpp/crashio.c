// Fault injector for file output: stands in front of libc (LD_PRELOAD, or linked in) and, once armed for a directory,
// numbers the operations that change files below it and makes the process die before one of them, in the middle of
// one of them (at a page boundary), or lets no file grow beyond a number of bytes.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char dir_[PATH_MAX];
static long ops_, bytes_, stop_op_ = -1, part_ = -1, room_ = -1;

void vf_io_arm(const char* dir, long stop_op, long part, long room) {
  if (!dir || !realpath(dir, dir_)) dir_[0] = 0;
  ops_ = bytes_ = 0; stop_op_ = stop_op; part_ = part; room_ = room;
}
long vf_io_ops(void) { return ops_; }
// how far the files reach
long vf_io_bytes(void) { return bytes_; }

static int below(const char* p) { size_t n = strlen(dir_); return n && !strncmp(p, dir_, n) && p[n] == '/'; }
static int mine(int fd) {
  if (!dir_[0]) return 0;
  char l[40], p[PATH_MAX]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(l, p, sizeof p - 1);
  if (n <= 0) return 0;
  p[n] = 0; return below(p);
}
static int minep(const char* p) {
  if (!dir_[0]) return 0;
  char r[PATH_MAX], d[PATH_MAX];
  snprintf(d, sizeof d, "%s", p); char* s = strrchr(d, '/');
  if (!s) { if (!getcwd(r, sizeof r)) return 0; strncat(r, "/", sizeof r - strlen(r) - 1); return below(r); }
  *s = 0;
  if (!realpath(*d ? d : "/", r)) return 0;
  strncat(r, "/", sizeof r - strlen(r) - 1); return below(r);
}
#define REAL(name) __typeof__(&name) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)
static long op(void) { long k = ops_++; if (k == stop_op_ && part_ < 0) _exit(77); return k; }

// A dying process leaves whole pages of its last write; a full disk takes no byte beyond its end.
static ssize_t put(int fd, const void* b, size_t n, off_t o, int p) {
  REAL(pwrite); __typeof__(&write) rw = (__typeof__(&write))dlsym(RTLD_NEXT, "write");
  long k = op(); ssize_t r;
  if (k == stop_op_) {
    size_t m = (o / 4096 + part_ + 1) * 4096 - o;
    if (m < n) r = p ? real(fd, b, m, o) : rw(fd, b, m);
    _exit(77);
  }
  if (room_ >= 0 && o + (long)n > room_) {
    if (o >= room_) { errno = ENOSPC; return -1; }
    n = room_ - o;
  }
  r = p ? real(fd, b, n, o) : rw(fd, b, n);
  if (r > 0 && o + r > bytes_) bytes_ = o + r;
  return r;
}
ssize_t write(int fd, const void* b, size_t n) {
  REAL(write);
  if (!dir_[0] || !mine(fd)) return real(fd, b, n);
  return put(fd, b, n, lseek(fd, 0, SEEK_CUR), 0);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  REAL(writev);
  if (!dir_[0] || !mine(fd)) return real(fd, v, c);
  ssize_t t = 0;
  for (int i = 0; i < c; ++i) {
    if (!v[i].iov_len) continue;
    ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
    if (r < 0) return t ? t : r;
    t += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return t;
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) {
  REAL(pwrite);
  if (!dir_[0] || !mine(fd)) return real(fd, b, n, o);
  return put(fd, b, n, o, 1);
}
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
int ftruncate(int fd, off_t n) { REAL(ftruncate); if (dir_[0] && mine(fd)) op(); return real(fd, n); }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); if (dir_[0] && mine(fd)) op(); return real(fd, n); }
int rename(const char* a, const char* b) { REAL(rename); if (minep(b)) op(); return real(a, b); }
#define OPENS(name) int name(const char* p, int f, ...) { \
  REAL(name); mode_t m = 0; \
  if (f & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, f); m = va_arg(v, int); va_end(v); } \
  if ((f & (O_CREAT | O_TRUNC)) && minep(p)) op(); \
  return real(p, f, m); }
OPENS(open)
OPENS(open64)
FILE* fopen(const char* p, const char* m) { REAL(fopen); if ((*m == 'w') && minep(p)) op(); return real(p, m); }
FILE* fopen64(const char* p, const char* m) { REAL(fopen64); if ((*m == 'w') && minep(p)) op(); return real(p, m); }
