/* LD_PRELOAD stand-in for the file system calls of the harness. Only paths below TSH_SHIM_DIR are concerned.
   TSH_DELAY=n       sleep up to n microseconds before every call (only for files whose name contains TSH_DELAY_FOR)
   TSH_CRASH=n       end the process instead of the n-th modifying call (counted from when TSH_ARM appears);
   TSH_CRASH_HALF=1  ... of a write of more than a page do some pages before ending (smaller ones are not interrupted by a signal)
   TSH_FAULT=n       the n-th modifying call fails instead (with TSH_FAULT_ALL every one from then on, until unarmed); with TSH_CRASH_HALF
                     the n-th, if it writes more than a page, writes a part and the next one fails
   TSH_COUNT=file    at the end write the number of modifying calls there */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/file.h>
#include <time.h>
#include <unistd.h>
#include <errno.h>

#define MAXFD 4096
static char dir[4096];
static size_t dirlen;
static long delay_max, crash_at, fault_at;
static int crash_half, fault_all;
static const char *delay_for, *count_file;
static unsigned char flag[MAXFD]; /* 1: in dir, 2: concerned by delays */
static atomic_long counter;
static atomic_int armed;
static atomic_ulong rng = 88172645463325252ul;
static int ready;

static void init(void) {
  if (ready) return;
  const char *d = getenv("TSH_SHIM_DIR");
  if (d) { strncpy(dir, d, sizeof dir - 1); dirlen = strlen(dir); }
  if (getenv("TSH_DELAY")) delay_max = atol(getenv("TSH_DELAY"));
  if (getenv("TSH_CRASH")) crash_at = atol(getenv("TSH_CRASH"));
  if (getenv("TSH_FAULT")) fault_at = atol(getenv("TSH_FAULT"));
  fault_all = getenv("TSH_FAULT_ALL") != NULL;
  crash_half = getenv("TSH_CRASH_HALF") != NULL;
  delay_for = getenv("TSH_DELAY_FOR");
  count_file = getenv("TSH_COUNT");
  if (getenv("TSH_SEED")) rng ^= strtoul(getenv("TSH_SEED"), 0, 10) * 2654435761ul + 1;
  armed = getenv("TSH_ARMED") != NULL;
  ready = 1;
}
__attribute__((constructor)) static void ctor(void) { init(); }
__attribute__((destructor)) static void dtor(void) {
  if (count_file) {
    FILE *f = fopen(count_file, "w");
    if (f) { fprintf(f, "%ld\n", (long)counter); fclose(f); }
  }
}
static int hit_(char);
static int hit(void) { return hit_('m'); }
/* the harness switches counting on and off around the operation in question */
void tsh_shim_arm(int on) { armed = on; }

long tsh_shim_count(void) { return counter; }
static int in_dir(const char *p) {
  init();
  return dirlen && p && strncmp(p, dir, dirlen) == 0;
}
static void pause_(int f) {
  if (!delay_max || !(f & 2)) return;
  unsigned long x = rng; x ^= x << 13; x ^= x >> 7; x ^= x << 17; rng = x;
  if ((x >> 8) % 3 == 0) return;
  long us = (x >> 16) % (unsigned long)delay_max;
  struct timespec t = {us / 1000000, (us % 1000000) * 1000};
  nanosleep(&t, NULL);
}
static int path_flag(const char *p) {
  if (!in_dir(p)) return 0;
  return 1 | ((!delay_for || strstr(p + dirlen, delay_for)) ? 2 : 0);
}
/* a modifying call is about to happen; returns 1 if this is the one to die at */
static char kinds[65536];
static int hit_(char k) {
  if (!armed) return 0;
  long n = ++counter;
  if (n < (long)sizeof kinds) kinds[n - 1] = k;
  return crash_at ? n == crash_at : fault_at && (n == fault_at || (fault_all && n > fault_at));
}
/* one character per modifying call so far: w for a write that can be interrupted */
const char *tsh_shim_kinds(void) { return kinds; }
/* ends the process, or makes the call fail */
static int die(int e) { if (fault_at) { errno = e; return -1; } _exit(137); }
static int mut_(int f, int e) { if ((f & 1) && hit()) return die(e); return 0; }
#define MUT(f, e) do { if (mut_(f, e)) return -1; } while (0)

#define REAL(name) static __typeof__(name) *real; if (!real) real = dlsym(RTLD_NEXT, #name)

static int do_open(int (*real)(const char *, int, ...), const char *p, int fl, mode_t m) {
  int f = path_flag(p);
  if (f) {
    pause_(f);
    if (fl & (O_CREAT | O_TRUNC)) MUT(f, ENOSPC);
  }
  int fd = real(p, fl, m);
  if (fd >= 0 && fd < MAXFD) flag[fd] = f;
  return fd;
}
int open(const char *p, int fl, ...) {
  mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); }
  REAL(open); return do_open(real, p, fl, m);
}
int open64(const char *p, int fl, ...) {
  mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); }
  REAL(open64); return do_open(real, p, fl, m);
}
int openat64(int at, const char *p, int fl, ...) {
  mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); }
  REAL(openat64);
  int fd = real(at, p, fl, m);
  if (fd >= 0 && fd < MAXFD) flag[fd] = path_flag(p);
  return fd;
}
int close(int fd) { REAL(close); if (fd >= 0 && fd < MAXFD) flag[fd] = 0; return real(fd); }
static int ff(int fd) { return fd >= 0 && fd < MAXFD ? flag[fd] : 0; }
ssize_t read(int fd, void *b, size_t n) { REAL(read); pause_(ff(fd)); return real(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) {
  REAL(write);
  int f = ff(fd);
  if (f) {
    pause_(f);
    if ((f & 1) && hit_(n > 4096 ? 'w' : 'm')) { 
      if (crash_half && n > 4096) {
        ssize_t m = real(fd, b, n / 2 / 4096 ? n / 2 / 4096 * 4096 : 4096);
        if (fault_at) { fault_at++; return m; }
      }
      return die(ENOSPC);
    }
  }
  return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) { REAL(writev); int f = ff(fd); pause_(f); MUT(f, EIO); return real(fd, v, c); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(pwrite64); int f = ff(fd); pause_(f); MUT(f, EIO); return real(fd, b, n, o); }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); int f = ff(fd); pause_(f); MUT(f, EIO); return real(fd, n); }
int ftruncate(int fd, off_t n) { REAL(ftruncate); int f = ff(fd); pause_(f); MUT(f, EIO); return real(fd, n); }
int fallocate64(int fd, int m, off64_t o, off64_t n) { REAL(fallocate64); int f = ff(fd); MUT(f, EIO); return real(fd, m, o, n); }
ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned fl) { REAL(copy_file_range); int f = ff(b); MUT(f, EIO); return real(a, ao, b, bo, n, fl); }
int flock(int fd, int op) { REAL(flock); pause_(ff(fd)); return real(fd, op); }
int fsync(int fd) { REAL(fsync); pause_(ff(fd)); return real(fd); }
int fdatasync(int fd) { REAL(fdatasync); pause_(ff(fd)); return real(fd); }
int unlink(const char *p) { REAL(unlink); int f = path_flag(p); pause_(f); MUT(f, EIO); return real(p); }
int unlinkat(int at, const char *p, int fl) { REAL(unlinkat); return real(at, p, fl); }
int rename(const char *a, const char *b) { REAL(rename); int f = path_flag(b); pause_(f); MUT(f, EIO); return real(a, b); }
int link(const char *a, const char *b) { REAL(link); int f = path_flag(b); pause_(f); MUT(f, EIO); return real(a, b); }
int linkat(int x, const char *a, int y, const char *b, int fl) { REAL(linkat); int f = path_flag(b); pause_(f); MUT(f, EIO); return real(x, a, y, b, fl); }
int mkdir(const char *p, mode_t m) { REAL(mkdir); int f = path_flag(p); pause_(f); MUT(f, EIO); return real(p, m); }
int statx(int at, const char *restrict p, int fl, unsigned m, struct statx *restrict b) { REAL(statx); if (p) pause_(path_flag(p)); return real(at, p, fl, m, b); }
int rmdir(const char *p) { REAL(rmdir); int f = path_flag(p); pause_(f); MUT(f, EIO); return real(p); }
