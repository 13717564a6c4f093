/* LD_PRELOAD: something happens at the F_NTH-th F_OP on a path containing F_PATH.
   F_OP: open read write stat unlink link rename mkdir   F_NTH: 0 = every time
   F_ERR: errno to fail with      F_SHORT: do at most this many bytes
   F_KILL: die here               F_RUN: run this shell command first */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static int cnt;
static char *names[4096];
static const char *ev(const char *k) { const char *v = getenv(k); return v && *v ? v : 0; }
static __thread int inside;

/* -1: fail with errno set; otherwise the number of bytes allowed */
static ssize_t hit(const char *op, const char *path, size_t len) {
  const char *o = ev("F_OP"), *p = ev("F_PATH"), *n = ev("F_NTH"), *x;
  if (inside || !o || strcmp(o, op) || !path || (p && !strstr(path, p))) return len;
  int k = n ? atoi(n) : 1;
  if (__sync_add_and_fetch(&cnt, 1) != k && k != 0) return len;
  if ((x = ev("F_RUN"))) {
    char *c; inside = 1;
    if (asprintf(&c, "unset LD_PRELOAD; %s", x) > 0) { int r = system(c); (void)r; }
    inside = 0;
  }
  if (ev("F_KILL")) kill(getpid(), SIGKILL);
  if ((x = ev("F_ERR"))) { errno = atoi(x); return -1; }
  if ((x = ev("F_SHORT")) && len > (size_t)atoi(x)) return atoi(x);
  return len;
}
#define REAL(t, n) static t (*real_##n)(); if (!real_##n) real_##n = dlsym(RTLD_NEXT, #n)

static int keep(int fd, const char *p) {
  if (fd >= 0 && fd < 4096) { free(names[fd]); names[fd] = strdup(p); }
  return fd;
}
static const char *of(int fd) { return fd >= 0 && fd < 4096 ? names[fd] : 0; }

int open64(const char *p, int f, ...) {
  REAL(int, open64); va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a);
  if (hit("open", p, 1) < 0) return -1;
  return keep(real_open64(p, f, m), p);
}
int open(const char *p, int f, ...) {
  REAL(int, open); va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a);
  if (hit("open", p, 1) < 0) return -1;
  return keep(real_open(p, f, m), p);
}
ssize_t write(int fd, const void *b, size_t n) {
  REAL(ssize_t, write); ssize_t k = hit("write", of(fd), n);
  return k < 0 ? -1 : real_write(fd, b, (size_t)k);
}
ssize_t read(int fd, void *b, size_t n) {
  REAL(ssize_t, read); ssize_t k = hit("read", of(fd), n);
  return k < 0 ? -1 : real_read(fd, b, (size_t)k);
}
int statx(int d, const char *p, int f, unsigned m, struct statx *s) {
  REAL(int, statx); if (p && *p && hit("stat", p, 1) < 0) return -1;
  return real_statx(d, p, f, m, s);
}
int unlink(const char *p) { REAL(int, unlink); return hit("unlink", p, 1) < 0 ? -1 : real_unlink(p); }
int mkdir(const char *p, mode_t m) { REAL(int, mkdir); return hit("mkdir", p, 1) < 0 ? -1 : real_mkdir(p, m); }
int rename(const char *a, const char *b) { REAL(int, rename); return hit("rename", b, 1) < 0 ? -1 : real_rename(a, b); }
int link(const char *a, const char *b) { REAL(int, link); return hit("link", b, 1) < 0 ? -1 : real_link(a, b); }
int linkat(int c, const char *a, int d, const char *b, int f) {
  REAL(int, linkat); return hit("link", b, 1) < 0 ? -1 : real_linkat(c, a, d, b, f);
}
